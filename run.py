#!/usr/bin/env python3
"""Runs one check:  python3 run.py C01   (VERIF_SEED, VERIF_TIER from the environment)

Builds the harness binaries of the property from /repo's working tree, runs their case ranges in
parallel shards, collects violations / crashes / summaries, compares them with KNOWN_FINDINGS.txt and
writes evidence/<id>.json.  Exit 0 = held on everything explored, 1 = VIOLATION line, 2 = no answer."""
import os, sys, json, time, subprocess, threading, queue, re, shutil, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from buildlib import Build
import checks

CASE_HANG_S = float(os.environ.get("VERIF_HANG_S", "100"))   # one case normally takes milliseconds
MAX_CRASHES = 6

def san_env():
    e = dict(os.environ)
    sup = os.path.join(VERIF, "harness", "lsan.supp")
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=24000:detect_stack_use_after_return=1:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0"
    e["LSAN_OPTIONS"] = "exitcode=78"
    return e

def classify(stderr, rc):
    """kind of abnormal end from the sanitizer's text; and the innermost frame in /repo/src"""
    kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([a-zA-Z0-9_-]+)", stderr)
    if m: kind = m.group(1)[:4].lower() + ":" + m.group(2)
    m = re.search(r"runtime error: (.*)", stderr)
    if m: kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
    if "WARNING: ThreadSanitizer: " in stderr:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", stderr); kind = "tsan:" + m.group(1).strip()
    if "terminate called" in stderr or "libc++abi" in stderr: kind = "terminate"
    m = re.search(r"Assertion .* failed|Assertion `", stderr)
    if m: kind = "assert"
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param)", stderr)
    if m: kind = "memcheck:" + m.group(1).replace(" ", "-")
    m = re.search(r"/src/XAD/(\w+)\.(\w+):\d+", stderr)
    return kind, (m.group(1) + "." + m.group(2) if m else "?")

def sanitizer_unusable(stderr):
    return "LeakSanitizer has encountered a fatal error" in stderr or "Shadow memory range interleaves" in stderr or "unexpected memory mapping" in stderr

class Shard:
    def __init__(self, job, exe, a, b, idx, prop, tier, seed, work):
        self.job, self.exe, self.a, self.b, self.idx = job, exe, a, b, idx
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.viol, self.summaries, self.errors = [], [], []

    def cmd(self, a, b, outf, prog, single=None):
        c = self.job.get("wrap", []) + [self.exe, "--seed", str(self.seed), "--tier", self.tier]
        for k, v in self.job.get("opts", {}).items(): c += ["--" + k, str(v)]
        if single is None: c += ["--from", str(a), "--to", str(b)]
        else: c += ["--case", str(single)]
        if outf: c += ["--out", outf, "--progress", prog]
        return c

    def launch(self, a, b, single=None, limit=None):
        base = os.path.join(self.work, "%s-%d-%d-%s" % (os.path.basename(self.exe), self.job["id"], self.idx, a if single is None else "s%d" % single))
        outf, prog, err = base + ".out", base + ".prog", base + ".err"
        for f in (outf, prog, err):
            if os.path.exists(f): os.unlink(f)
        open(outf, "w").close()
        env = san_env(); env.update(self.job.get("env", {}))
        with open(err, "wb") as ef:
            p = subprocess.Popen(self.cmd(a, b, outf, prog, single), stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=self.work)
        last, since, hung = None, time.time(), False
        t0 = time.time()
        hang = limit or self.job.get("hang", CASE_HANG_S)
        while p.poll() is None:
            time.sleep(0.05 if time.time() - t0 < 2 else 0.2)
            try: cur = open(prog, "rb").read(64)
            except OSError: cur = b""
            if cur != last: last, since = cur, time.time()
            elif time.time() - since > hang:
                p.kill(); p.wait(); hung = True; break
        try: w = open(prog, "rb").read(4096).split(b"\0")[0].decode(errors="replace").split("\t", 1)
        except OSError: w = ["-1", ""]
        stderr = open(err, "rb").read()[-200000:].decode(errors="replace")
        try: head = open(err, "rb").read(20000).decode(errors="replace")
        except OSError: head = ""
        recs = []
        for line in open(outf, errors="replace"):
            try: recs.append(json.loads(line))
            except ValueError: pass
        for f in (outf, prog, err):
            if os.path.exists(f): os.unlink(f)
        return p.returncode, hung, w, (head if len(head) < 20000 else head + stderr), recs

    def run(self):
        a, crashes = self.a, 0
        while a < self.b:
            rc, hung, w, stderr, recs = self.launch(a, self.b)
            done = False
            for r in recs:
                if r["t"] == "viol" and self.job.get("crash_only"): self.ignored = getattr(self, "ignored", 0) + 1
                elif r["t"] == "viol": self.viol.append(dict(r, exe=self.exe, opts=self.job.get("opts", {}), wrap=self.job.get("wrap", []), env=self.job.get("env", {})))
                elif r["t"] == "error": self.errors.append("%s case %s: %s" % (os.path.basename(self.exe), r["case"], r["detail"]))
                elif r["t"] == "summary": self.summaries.append(r); done = True
            if sanitizer_unusable(stderr):
                self.errors.append("sanitizer cannot run here: " + stderr[:600]); return
            if not hung and done and rc in (0, 1): return
            case = int(w[0]) if w and re.match(r"^-?\d+$", w[0]) else -1
            ctxt = w[1] if len(w) > 1 else ""
            if not hung and rc == -9:
                self.errors.append("%s was killed (memory?) at case %d" % (os.path.basename(self.exe), case)); return
            if hung:
                rc2, hung2, w2, _, _ = self.launch(0, 0, single=case, limit=2 * self.job.get("hang", CASE_HANG_S)) if case >= 0 else (0, True, w, "", [])
                if not hung2:
                    self.errors.append("%s case %d slow (not reproduced alone)" % (os.path.basename(self.exe), case)); return
                key, detail = "hang:%s" % ctxt, "case does not terminate within %.0f s" % (2 * CASE_HANG_S)
            else:
                kind, frame = classify(stderr, rc)
                key, detail = "crash:%s:%s@%s" % (kind, ctxt, frame), stderr[:6000]
            if self.job.get("crash_only") and not re.match(r"crash:(addr|leak|ubsan|memcheck|signal)", key):
                crashes += 1
                if done or case < 0 or crashes >= MAX_CRASHES: return
                a = case + 1; continue
            if rc == 3 and not recs and not stderr.strip():
                self.errors.append("%s could not start" % self.exe); return
            self.viol.append(dict(t="viol", key=key, case=case, detail=detail, exe=self.exe, opts=self.job.get("opts", {}), wrap=self.job.get("wrap", []), env=self.job.get("env", {})))
            crashes += 1
            if done or case < 0 or crashes >= MAX_CRASHES: return
            a = case + 1

def load_known(prop):
    known = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    return known

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[prop]
    b = Build(prop)
    spec["build"](b, tier)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    log = os.path.join(b.dir, "build.log")
    err = b.run(log)
    tb = time.time() - t0
    if err:
        print("ERROR property=%s harness build failed\n%s" % (prop, err)); return 2
    if "--build-only" in sys.argv: return 0
    work = os.path.join(b.dir, "work-%d" % os.getpid()); os.makedirs(work, exist_ok=True)
    shards = []
    jobs = spec["jobs"](tier)
    if "--only" in sys.argv: jobs = [j for j in jobs if sys.argv[sys.argv.index("--only") + 1] in j["exe"]]
    for ji, j in enumerate(jobs):
        j["id"] = ji
        exe = os.path.join(b.dir, j["exe"])
        n = j["n"]
        k = min(j.get("shards", 8), max(1, n))
        for i in range(k):
            lo, hi = n * i // k, n * (i + 1) // k
            lo += j.get('base', 0); hi += j.get('base', 0)
            if lo < hi: shards.append(Shard(j, exe, lo, hi, i, prop, tier, seed, work))
    q = queue.Queue()
    for s in shards: q.put(s)
    def worker():
        while True:
            try: s = q.get_nowait()
            except queue.Empty: return
            try: s.run()
            except Exception as e: s.errors.append("runner: %r" % e)
    ts = [threading.Thread(target=worker) for _ in range(int(os.environ.get("VERIF_JOBS", "8")))]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(work, ignore_errors=True)
    counters, maxima, samples, distinct, evals = {}, {}, [], set(), 0
    errors, viols, per_cfg = [], [], {}
    for s in shards:
        errors += s.errors; viols += s.viol
        for r in s.summaries:
            evals += r["evals"]
            per_cfg[os.path.basename(s.exe)] = per_cfg.get(os.path.basename(s.exe), 0) + r["evals"]
            for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
            for k, v in r["maxima"].items(): maxima[k] = max(maxima.get(k, -1e308), v)
            distinct.update(r["hashes"])
            for x in r["samples"]:
                if len(samples) < 6 and x not in samples: samples.append(x)
    for k, v in spec.get("need", {}).items():
        if not viols and not errors and counters.get(k, 0) < v and "--only" not in sys.argv:
            errors.append("monitor observed too little: %s = %d < %d" % (k, counters.get(k, 0), v))
    known = load_known(prop)
    hit, new = {}, {}
    for v in viols:
        kf = next((k for k in known if v["key"] == k[0]), None)
        if kf: hit.setdefault(kf[0], (kf[1], v))
        else: new.setdefault(v["key"], v)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=samples or ["(none)"],
                            observed=counters, maxima=maxima, evaluations_per_binary=per_cfg),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    ev["coverage"]["build_s"] = round(tb, 1)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, (txt, v) in sorted(hit.items()): print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, txt))
    if new:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        for i, (k, v) in enumerate(sorted(new.items())):
            if i >= int(os.environ.get("VERIF_SHOW", "10")): print("... %d more" % (len(new) - i)); break
            name = "%s-%s" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", k)[:60])
            path = os.path.join(rd, name + ".txt")
            with open(path, "w") as f:
                f.write("property %s\nkey %s\nreplay: %s\n\n%s\n" % (prop, k, " ".join(
                    ["%s=%s" % e for e in v["env"].items()] + v["wrap"] + [v["exe"], "--seed", str(seed), "--tier", tier, "--case", str(v["case"])] +
                    sum([["--" + a, str(c)] for a, c in v["opts"].items()], [])), v["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s :: %s" % (k, v["detail"][:400].replace("\n", " | ")))
        return 1
    if errors:
        for e in errors[:10]: print("ERROR property=%s %s" % (prop, e))
        return 2
    print("OK property=%s evaluations=%d distinct=%d build=%.0fs total=%.0fs" % (prop, evals, len(distinct), tb, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
