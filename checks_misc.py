"""Checks of the drivers and the standard-library integration: C15, C19."""
import os
from buildlib import H
def h(x): return os.path.join(H, x)

T15 = ["AD", "FD", "AFD", "FFD", "AF", "FF", "AAD", "FAD", "AFS", "FFS"]
def c15_build(b, tier, cfgs=("d", "r")):
    for c in cfgs:
        b.exe("c15", c, b.lib(c) + sum([b.insts(c, [t], only=o) for t in T15 for o in (1, 2, 4, 8)], []) + b.insts(c, ["R"]) + [b.obj(h("c15.cpp"), c), b.obj(h("forms_names.cpp"), c)])
C15 = dict(
    build=c15_build, level="exploration", technique="runtime monitoring: differential oracle over random functions plus tape/input state monitor, ASan/UBSan builds",
    note="Every entry of the matrices of thousands of random functions per run is compared with an independent long-double differentiation; both interfaces, all containers and tape situations must agree bit for bit and leave inputs and tapes alone; held on everything explored.",
    jobs=lambda tier: [dict(exe="c15-d", n=1800 if tier == "quick" else 60000), dict(exe="c15-r", n=1800 if tier == "quick" else 60000, base=10000000)],
    need={"jacobian_entries": 10000, "hessian_entries": 5000, "hessian_nonzero": 500, "iterator_calls": 2000, "no_inputs": 50, "no_outputs": 30, "tapes_probed_after": 1000, "throwing_functions": 50},
    rule="random functions (programs as for C01 with 0-12 inputs and 0-12 outputs, reading, permuting, moving from, clearing or growing their argument, returning constants, inputs or the argument itself, sometimes throwing) given to computeJacobian/computeHessian over 12 types, "
         "with own / null / default / explicit / previously used tapes, vector interface and iterator ranges in 7 container combinations inside guarded containers; non-trivial = the exact matrix is not zero; distinct = by function, type and tape situation",
    assumptions=["deviations below 1e6 rounding units of the accumulated magnitudes are not reported", "long double libm is trusted", "a supplied tape is active", "functions insert no checkpoint callbacks when they have several outputs (a sweep consumes them)"])

# C11 also misuses the drivers
def with_misuse(C11):
    hb, hj = C11["build"], C11["jobs"]
    def build(b, tier):
        hb(b, tier); c15_build(b, tier, ("d",))
    return dict(C11, build=build, jobs=lambda tier: hj(tier) + [dict(exe="c15-d", n=800 if tier == "quick" else 30000, opts={"misuse": 1})],
                need=dict(C11["need"], size_mismatches=500), rule=C11["rule"] + "; wrongly sized iterator ranges given to the Jacobian/Hessian drivers in all modes, followed by correct calls and probes of the tape")

def c19_build(b, tier, cfgs=("d", "r")):
    for c in cfgs:
        b.exe("c19", c, b.lib(c) + [b.obj(h("c19.cpp"), c)])
C19 = dict(
    build=c19_build, level="exploration", technique="runtime monitoring: differential oracle against plain floating point and against the reference type inside the same standard algorithms, ASan/UBSan builds",
    note="Streams, strings, hashes, limits, traits, 42 groups of algorithms and containers, distributions and std:: functions are compared with the plain type on random data, derivatives with an independent differentiation; held on everything explored.",
    jobs=lambda tier: [dict(exe="c19-d", n=6144 if tier == "quick" else 200000), dict(exe="c19-r", n=6144 if tier == "quick" else 200000, base=10240000)],
    need={"texts_compared": 10000, "items_read": 1000, "hashes_compared": 5000, "limits_compared": 500, "algorithm_derivatives": 5000, "algorithm_nonzero": 1000, "state_probes": 500, "random_numbers": 500, "std_functions": 5000},
    rule="random values (all categories) and random stream formats, tokens (valid and malformed) read from streams into live registered variables, keys in unordered containers, random scripts of 42 groups of standard algorithms/containers over 1-9 inputs with ties, in 8 AD types of order 1 and 2; "
         "non-trivial = the exact derivative is non-zero (algorithms) / every case (others); distinct = by script, values and type",
    assumptions=["type traits are checked on unqualified types", "random distributions other than uniform_real and normal (parameters) are not checked", "the standard library is libstdc++ 13"])

# C16 also runs the other workloads for their memory errors only, and uninstrumented builds under memcheck
VG = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no"]
def with_others(C16):
    import checks_num as N, checks_hist as Hi
    cb, cj = C16["build"], C16["jobs"]
    def build(b, tier):
        cb(b, tier)
        b.exe("c01", "d", b.lib("d") + b.insts("d", ["AD", "AF", "R"]) + [b.obj(h("c01.cpp"), "d"), b.obj(h("forms_names.cpp"), "d")])
        c15_build(b, tier, ("r",)); N.c06_build(b, tier, ("d",)); c19_build(b, tier, ("d",)); Hi.c14_container(b, ("d",))
        for c in ("dp", "rp"):
            b.exe("hist", c, b.lib(c) + [b.obj(h("histeng.cpp"), c), b.obj(h("hist.cpp"), c)])
        c19_build(b, tier, ("dp",)); Hi.c14_container(b, ("dp",))
    def jobs(tier):
        q = tier == "quick"
        o = [dict(exe="c01-d", n=300 if q else 20000), dict(exe="c15-r", n=600 if q else 40000), dict(exe="c15-r", n=300 if q else 10000, opts={"misuse": 1}), dict(exe="c06-d", n=1500 if q else 100000),
             dict(exe="c19-d", n=1024 if q else 100000), dict(exe="c14-d", n=2000 if q else 100000)]
        v = [dict(exe="hist-dp", n=120 if q else 4000, opts={"prop": 16}), dict(exe="hist-rp", n=120 if q else 4000, base=10000000, opts={"prop": 16}),
             dict(exe="c19-dp", n=256 if q else 6000), dict(exe="c14-dp", n=120 if q else 4000)]
        return cj(tier) + [dict(j, crash_only=True) for j in o] + [dict(j, crash_only=True, wrap=VG, hang=300) for j in v]
    return dict(C16, build=build, jobs=jobs, technique=C16["technique"].replace("compiler sanitizers (ASan, LSan, UBSan)", "compiler sanitizers (ASan, LSan, UBSan) and Valgrind memcheck"),
                rule=C16["rule"] + "; the workloads of C01, C06, C14, C15 and C19 run again for their memory errors only; a part of the histories, algorithms and container sequences runs under memcheck (uninitialised reads)")
