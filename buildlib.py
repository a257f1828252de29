"""Builds harness binaries from /repo's working tree with ninja."""
import os, subprocess, glob, hashlib, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # only for trying out changes in a scratch copy
H = os.path.join(VERIF, "harness")
CXX = "clang++"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"
# configuration: slot reuse, flags for all objects
CONFIGS = {
    "d": dict(reuse="OFF", flags=SAN + " -g1"),                       # default slots, assertions on
    "r": dict(reuse="ON", flags=SAN + " -g1 -DNDEBUG"),               # slot reuse, NDEBUG
    "ra": dict(reuse="ON", flags=SAN + " -g1"),                       # slot reuse, assertions on
    "dn": dict(reuse="OFF", flags=SAN + " -g1 -DNDEBUG"),
    "dp": dict(reuse="OFF", flags="-g1"),                             # no sanitizer (large runs)
    "rp": dict(reuse="ON", flags="-g1 -DNDEBUG"),
    "dt": dict(reuse="OFF", flags="-fsanitize=thread -g1"),
    "rt": dict(reuse="ON", flags="-fsanitize=thread -g1 -DNDEBUG"),
}
SHORT = {
    "AD": "xad::AReal<double>", "AF": "xad::AReal<float>", "FD": "xad::FReal<double>", "FF": "xad::FReal<float>",
    "R": "ref::R", "D": "double", "F": "float",
}
def typename(short):
    """e.g. AFD = AReal<FReal<double>>; the last letter is D (double) or S (single)"""
    if short in SHORT and len(short) <= 2: return SHORT[short]
    t = "double" if short[-1] == "D" else "float"
    for ch in reversed(short[:-1]):
        t = ("xad::AReal<%s>" if ch == "A" else "xad::FReal<%s>") % t
    return t

class Build:
    def __init__(self, prop):
        self.dir = os.path.join(VERIF, "build", prop)
        os.makedirs(self.dir, exist_ok=True)
        self.edges = {}
        self.cfgs = set()
    def obj(self, src, cfg, opt="-O0", defs=""):
        self.cfgs.add(cfg)
        name = os.path.splitext(os.path.basename(src))[0]
        key = hashlib.md5((src + cfg + opt + defs).encode()).hexdigest()[:8]
        out = os.path.join(self.dir, "%s-%s-%s.o" % (cfg, name, key))
        flags = "-std=c++14 -w %s %s %s -I%s/gen-%s -I%s/src -I%s" % (opt, CONFIGS[cfg]["flags"], defs, self.dir, cfg, REPO, H)
        self.edges[out] = ("cxx", [src], flags)
        return out
    def lib(self, cfg, opt="-O0"):
        return [self.obj(s, cfg, opt) for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))]
    def insts(self, cfg, types, opt="-O0", only=None):
        return [self.obj(os.path.join(H, "inst.cpp"), cfg, opt, "'-DTT=%s'%s" % (typename(t), "" if only is None else " -DONLY=%d" % only)) for t in types]
    def exe(self, name, cfg, objs):
        out = os.path.join(self.dir, "%s-%s" % (name, cfg))
        self.edges[out] = ("link", objs, CONFIGS[cfg]["flags"])
        return out
    def run(self, log):
        for c in self.cfgs:
            g = os.path.join(self.dir, "gen-" + c)
            for f in ("Config.hpp", "Version.hpp"): os.makedirs(g + "/XAD", exist_ok=True)
            p = subprocess.run(["cmake", "-DREPO=" + REPO, "-DOUT=" + g, "-DREUSE=" + CONFIGS[c]["reuse"], "-DSTRONG=OFF",
                                "-P", os.path.join(H, "genconf.cmake")], capture_output=True, text=True)
            if p.returncode: return "configuration generation failed:\n" + p.stdout + p.stderr
        nj = os.path.join(self.dir, "build.ninja")
        with open(nj, "w") as f:
            f.write("rule cxx\n  command = %s $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % CXX)
            f.write("rule link\n  command = %s $flags $in -o $out -lpthread\n" % CXX)
            for out, (rule, ins, flags) in self.edges.items():
                f.write("build %s: %s %s\n  flags = %s\n" % (out, rule, " ".join(ins), flags))
        p = subprocess.run(["ninja", "-C", self.dir, "-j", str(os.cpu_count() or 8)], capture_output=True, text=True)
        with open(log, "w") as f: f.write(p.stdout + p.stderr)
        if p.returncode: return "build failed:\n" + (p.stdout + p.stderr)[-6000:]
        return None
