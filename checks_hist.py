"""Checks over random histories of public calls: C07-C11, C13, C16, C18."""
import os
from buildlib import H, typename
def h(x): return os.path.join(H, x)

HCFG = ("d", "r", "ra")
def hist_build(b, tier):
    for c in HCFG:
        b.exe("hist", c, b.lib(c) + [b.obj(h("histeng.cpp"), c), b.obj(h("hist.cpp"), c)])
def hist_jobs(num, quick, thorough):
    return lambda tier: [dict(exe="hist-" + c, n=quick if tier == "quick" else thorough, base=i * 10000000, opts={"prop": num}) for i, c in enumerate(HCFG)]
RULE = ("random valid histories of public calls (%s) on up to 14 variables, two vectors and one tape of AReal<double>, AReal<float>, AReal<FReal<double>> or AReal<AReal<double>>; every observation (values, registration, adjoints, "
        "counters, positions, exceptions, callback invocations) is compared with an identity-based reference model; non-trivial = at least one sweep and a non-zero predicted adjoint; distinct = by operation sequence")
ASSUME = ["adjoint deviations below 1e-12 (double) / 2e-5 (float) of the accumulated magnitudes are not reported",
          "histories respect the documented preconditions listed in DESIGN.md (inputs registered before a recording starts, seeded variables alive until the sweep, callbacks do not throw)"]
TECH = "runtime monitoring: online monitor against an identity-based reference model over random call histories, ASan/UBSan builds"
def hist(num, quick, thorough, what, need, note):
    return dict(build=hist_build, level="exploration", technique=TECH, note=note, jobs=hist_jobs(num, quick, thorough), need=need, rule=RULE % what, assumptions=ASSUME)

C07 = hist(7, 1500, 60000, "all ways to construct, copy, move, swap, destroy and store variables, with ownership probes that write distinct adjoints to all live variables and read them back", {"ownership_probes": 1000, "nonzero_adjoints_predicted": 10000},
           "Thousands of random variable life histories per run are monitored; after every probe each live registered variable must have kept its own adjoint; held on everything explored.")
C08 = hist(8, 1500, 60000, "new recordings, full clears, derivative clears, repeated sweeps, further seeds, re-registrations", {"op_NEWREC": 2000, "op_CLEARALL": 100, "op_CLEARDER": 2000, "nonzero_adjoints_predicted": 10000},
           "Random sequences of recordings, clears and sweeps on one tape are compared with a model that forgets everything at each new recording; held on everything explored.")
C09 = hist(9, 1500, 60000, "positions, partial sweeps, resets, clears after a position and re-recording", {"op_SWEEPTO": 2000, "op_RESET": 1000, "op_CLRAFTER": 500, "nonzero_adjoints_predicted": 10000},
           "Random splittings, partial rollbacks, resets and re-recordings are compared with a model of the statement sequence; held on everything explored.")
C10 = hist(10, 1500, 60000, "checkpoint callbacks of three kinds (scoped and manual nested recordings, user-coded adjoints), nested up to three deep", {"callback_calls": 5000, "nonzero_adjoints_predicted": 10000},
           "Random recordings with many checkpoint callbacks are compared with a model that knows every segment's Jacobian and the exact call order; held on everything explored.")
C11 = hist(11, 1500, 30000, "valid calls mixed with every kind of misuse, each followed by all counters and later by full comparisons", {"op_M_ACTIVE": 500, "op_M_SWEEP": 500, "op_M_SLOT": 500, "op_M_NOTAPE": 300, "op_M_CBEMPTY": 300, "op_M_INCR": 300},
           "Misuse calls are mixed into random histories; the exception type and the unchanged state afterwards are compared with the model; held on everything explored.")
C13 = hist(13, 1500, 20000, "move construction and assignment of the tape between all other calls", {"op_TMOVE": 2000, "op_TMASG": 2000, "callback_calls": 300, "nonzero_adjoints_predicted": 5000},
           "Tapes are moved and move-assigned at random points of random histories which must continue as if nothing had happened; held on everything explored.")
C18 = hist(18, 1500, 60000, "registered and unregistered operands mixed in every operation, deactivation and re-activation, counters after most operations", {"op_COUNTS": 5000, "op_DEACT": 500, "nonzero_adjoints_predicted": 8000},
           "Random histories mixing active and passive operands; registration of results and exact statement/operation counts are compared with the model after most operations; held on everything explored.")

def c17_build(b, tier):
    n = "-Dxad=xad_n -DENGINE=makeEngine_n"; r = "-Dxad=xad_r -DENGINE=makeEngine_r"
    import glob
    from buildlib import REPO
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    b.exe("c17", "d", [b.obj(s, "d", defs=n) for s in src + [h("histeng.cpp")]] + [b.obj(s, "ra", defs=r) for s in src + [h("histeng.cpp")]] + [b.obj(h("c17.cpp"), "d")])
C17 = dict(build=c17_build, level="exploration", technique="runtime monitoring: lock-step differential execution of both slot configurations with an online slot-map monitor, ASan/UBSan builds",
    note="Every random history is executed step by step on both configurations linked into one program; all values, adjoints and counters are compared bit for bit, and the reuse map with the live slots after every operation; held on everything explored.",
    jobs=lambda tier: [dict(exe="c17-d", n=3000 if tier == "quick" else 100000)],
    need={"steps_compared": 50000, "slot_checks": 50000, "steps_with_different_slots": 5000, "nonzero_adjoints_predicted": 5000},
    rule=RULE % "all operations incl. partial sweeps, checkpoints and tape moves, executed in lock step on the library compiled with and without slot reuse", assumptions=ASSUME[1:])

def c16_build(b, tier):
    for c in ("d", "dn", "r", "ra"):
        b.exe("c16", c, b.lib(c) + [b.obj(h("histeng.cpp"), c), b.obj(h("c16.cpp"), c, defs="-DREUSE" if c[0] == "r" else "")])
    import glob
    from buildlib import REPO
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    for c in ("d", "r"):  # tapes with tiny chunks
        b.exe("c16s", c, [b.obj(s, c, defs="-include " + h("smallchunks.hpp")) for s in src + [h("histeng.cpp")]] + [b.obj(h("c16.cpp"), c, defs="-DREUSE" if c == "r" else "")])
C16 = dict(build=c16_build, level="exploration", technique="compiler sanitizers (ASan, LSan, UBSan) on random call histories plus an allocation-balance and growth monitor",
    note="Sanitizers watch thousands of random histories over every operation; allocations are balanced around each engine life and repeated bounded recordings must not grow; held on everything explored.", jobs=lambda tier: [dict(exe="c16-" + c, n=1000 if tier == "quick" else 30000, base=i * 10000000) for i, c in enumerate(("d", "dn", "r", "ra"))] +
        [dict(exe="c16s-" + c, n=100 if tier == "quick" else 4000, base=50000000 + i * 10000000, opts={"repeat": 1}) for i, c in enumerate("dr")],
    need={"growth_measurements": 100, "allocation_balances": 500, "repeated_recordings": 5000, "histories": 2000},
    rule=RULE % "all operations", assumptions=ASSUME[1:])

def c14_container(b, cfgs):
    for c in cfgs: b.exe("c14", c, [b.obj(h("c14.cpp"), c)])
def c14_build(b, tier):
    c14_container(b, ("d", "dn"))
    import glob
    from buildlib import REPO
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    for c in ("d", "r"):
        b.exe("c14h", c, [b.obj(s, c, defs="-include " + h("smallchunks.hpp")) for s in src + [h("histeng.cpp")]] + [b.obj(h("hist.cpp"), c)])
    for c in ("dp", "rp"):
        b.exe("c14big", c, b.lib(c, "-O1") + [b.obj(h("c14big.cpp"), c, "-O1")])
C14 = dict(build=c14_build, level="exploration", technique="runtime monitoring: container monitor with element life tracking, histories on small-chunk and full-size tapes, ASan/UBSan builds",
    note="The chunk container is compared with std::vector after every operation with every element's life tracked; the history model runs on tapes compiled with 16-element chunks; full-size tapes cross the real 8M boundaries with exact integer adjoints; held on everything explored.",
    jobs=lambda tier: [dict(exe="c14-d", n=6000 if tier == "quick" else 300000), dict(exe="c14-dn", n=3000 if tier == "quick" else 100000, base=10000000),
                       dict(exe="c14h-d", n=1600 if tier == "quick" else 50000, opts={"prop": 9}), dict(exe="c14h-r", n=1600 if tier == "quick" else 50000, base=10000000, opts={"prop": 14}),
                       dict(exe="c14big-dp", n=4 if tier == "quick" else 60, shards=2), dict(exe="c14big-rp", n=4 if tier == "quick" else 60, shards=2, base=100)],
    need={"container_steps": 50000, "elements_iterated": 50000, "states_at_chunk_multiple": 5000, "histories": 2000, "big_partial_sweeps": 20, "big_resets": 5},
    rule="random operation sequences on ChunkContainer of trivial and non-trivial elements with chunk sizes 1 to 32, sizes around multiples of the chunk size preferred, compared with std::vector; random call histories on tapes with 16-element chunks against the reference model; "
         "recordings of 4M to 25M statements around the real chunk size with closed-form adjoints, partial sweeps and resets; non-trivial = a chunk boundary is crossed / a sweep with non-zero adjoints; distinct = by operation sequence",
    assumptions=ASSUME + ["appended ranges are not longer than a chunk (asserted precondition)"])

def c12_build(b, tier):
    for c in ("dt", "rt", "ra"):
        b.exe("c12", c, b.lib(c) + [b.obj(h("histeng.cpp"), c), b.obj(h("c12.cpp"), c), b.obj(h("c12vis.cpp"), c)])
TS = {"TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1"}
C12 = dict(build=c12_build, level="exploration", technique="ThreadSanitizer plus the history monitor on concurrent, handed-over and interleaved tapes with injected delays",
    note="Random histories run concurrently on 2-8 threads, on tapes passed through a pool of threads, and interleaved on one thread under ThreadSanitizer (and ASan); every observation must equal the single-threaded model; held on the interleavings observed.",
    jobs=lambda tier: [dict(exe="c12-dt", n=240 if tier == "quick" else 1800, env=TS, shards=4), dict(exe="c12-rt", n=240 if tier == "quick" else 1800, base=10000000, env=TS, shards=4), dict(exe="c12-ra", n=240 if tier == "quick" else 1800, base=20000000, shards=4)],
    need={"parallel": 50, "hand-over": 50, "hand_overs": 500, "interleaved": 30, "tape_switches": 200, "visibility_probes": 300, "context_switches_observed": 5000},
    rule="random histories (all operations) executed concurrently on 2-8 threads with injected yields, sleeps and busy loops; tapes handed between threads after every few operations; several tapes of equal and different scalar types alternated on one thread; "
         "getActive probed on every thread; non-trivial = non-zero adjoints predicted; distinct = by operation sequence and observed interleaving",
    assumptions=ASSUME + ["a tape is deactivated on its thread before it is handed over (documented)", "ThreadSanitizer reports races of the interleavings that occurred"])
