"""Numeric catalogue checks: C01, C02, C03."""
import os
from buildlib import H, typename
def h(x): return os.path.join(H, x)

def c01_build(b, tier):
    for c in ("d", "r"):
        b.exe("c01", c, b.lib(c) + b.insts(c, ["AD", "AF", "R"]) + [b.obj(h("c01.cpp"), c), b.obj(h("forms_names.cpp"), c)])
C01 = dict(
    build=c01_build, level="exploration", technique="runtime monitoring: differential oracle over random programs, ASan/UBSan builds",
    note="Every registered input's adjoint of thousands of random programs per run is compared with an independent long-double differentiation; held on everything explored, not proved.",
    jobs=lambda tier: [dict(exe="c01-" + c, n=1200 if tier == "quick" else 40000) for c in ("d", "r")],
    need={"derivatives_compared": 10000, "form": 5000},
    rule="random straight-line active programs (1-5 inputs, up to 80 instructions from 27 operation kinds and 450 expression forms, "
         "incl. self-assignment, compound ops, input modification, copies, moves, temporaries), twelve after another on one tape; the adjoint gradient of a random "
         "output combination is compared with long-double multi-dual arithmetic; non-trivial = some exact derivative is non-zero; "
         "distinct = by program text",
    assumptions=["deviations below 5e5 rounding units of the accumulated magnitudes are not reported", "long double libm is trusted"])

def c02_build(b, tier):
    c = "d"
    b.exe("c02", c, b.lib(c) + b.insts(c, ["AD", "AF", "FD", "FF", "R"]) + [b.obj(h("c02.cpp"), c), b.obj(h("forms_names.cpp"), c)])
C02 = dict(
    build=c02_build, level="exploration", technique="runtime monitoring: differential oracle over random programs, ASan/UBSan builds",
    note="Tangents of all variables of thousands of random programs per run are compared with an independent long-double differentiation and with adjoint mode; held on everything explored.",
    jobs=lambda tier: [dict(exe="c02-d", n=1600 if tier == "quick" else 60000)],
    need={"tangents_compared": 20000, "contractions_compared": 5000},
    rule="random programs as for C01 over FReal<double|float> with random directions; every live variable's tangent is compared with long-double multi-dual "
         "arithmetic, and one output with the contracted adjoint gradient; non-trivial = some exact tangent is non-zero; distinct = by program text",
    assumptions=["deviations below 5e5 rounding units of the accumulated magnitudes are not reported", "long double libm is trusted"])

T2 = ["AAD", "AFD", "FAD", "FFD"]
T3 = ["AAAD", "AAFD", "AFAD", "AFFD", "FAAD", "FAFD", "FFAD", "FFFD"]
TS = ["AAS", "AFS", "FAS", "FFS"]
def c03_build(b, tier):
    for c, ts in (("d", T2 + T3), ("r", ["AAD", "AFD", "FAD", "AAAD"]) , ("dn", TS)):
        tl = "'-DTYPES=%s'" % " ".join("T1(%s)" % typename(t) for t in ts)
        b.exe("c03", c, b.lib(c) + sum([b.insts(c, [t], only=o) for t in ts for o in (1, 2, 4, 8)], []) + b.insts(c, ["R"]) +
              [b.obj(h("c03.cpp"), c, defs=tl), b.obj(h("forms_names.cpp"), c)])
C03 = dict(
    build=c03_build, level="exploration", technique="runtime monitoring: differential oracle over random programs in every nesting, ASan/UBSan builds",
    note="Mixed second and third derivatives of thousands of random programs per run in all 12 double and 4 float nestings are compared with an independent long-double differentiation; held on everything explored.",
    jobs=lambda tier: [dict(exe="c03-d", n=1200 if tier == "quick" else 60000), dict(exe="c03-r", n=400 if tier == "quick" else 20000), dict(exe="c03-dn", n=200 if tier == "quick" else 10000)],
    need={"mixed_derivatives_compared": 10000, "order_2": 3000, "order_3": 2000, "exact_zero_derivative": 100},
    rule="random programs as for C01 (inputs not overwritten), half of them at points with exact zeros and ones, differentiated in a random nesting of "
         "FReal/AReal of order 2 or 3 with respect to random inputs; non-trivial = the exact mixed derivative is non-zero; distinct = by program, type and indices",
    assumptions=["deviations below 1e6 rounding units of the accumulated magnitudes are not reported", "long double libm is trusted"])

def c04_build(b, tier):
    for c in ("d", "rp"):
        b.exe("c04", c, b.lib(c) + b.insts(c, ["D", "F", "AD", "AF", "FD", "FF", "FFD", "FAD", "AFD", "R"]) + [b.obj(h("c04.cpp"), c), b.obj(h("forms_names.cpp"), c)])
C04 = dict(
    build=c04_build, level="exploration", technique="runtime monitoring: bit-for-bit differential oracle against plain floating point, ASan/UBSan builds",
    note="Results, predicates, conversions and out parameters of every operator and function form are compared bit for bit with the same source expression over plain double/float; held on everything explored.",
    jobs=lambda tier: [dict(exe="c04-d", n=10000 if tier == "quick" else 300000), dict(exe="c04-rp", n=10000 if tier == "quick" else 300000)],
    need={"compared_bitwise": 50000, "predicates_compared": 100000, "out_parameters": 500, "compound_compared": 10000},
    rule="a random form of the catalogue (450 operator/function/overload shapes), random operands drawn from signed zeros, subnormals, extremes, integers, half-integers and random exponents; "
         "evaluated over AReal (no tape / unregistered / registered / partly registered), FReal and nested types and compared with plain floating point; every case is non-trivial; distinct = by form and operands",
    assumptions=["smooth_* and degrees/radians are compared within 64 rounding units with the documented formula", "mixed float/int calls of std functions that promote to double are compared for double only"])

def c05_build(b, tier):
    for c in ("d", "rp"):
        b.exe("c05", c, b.lib(c) + b.insts(c, ["AD", "AF", "FD", "FF", "R"], only=7) + [b.obj(h("c05.cpp"), c, defs="-DNO_DEEP")] + b.insts(c, ["AD", "AF", "FD", "FF", "R"], only=8) + [b.obj(h("forms_names.cpp"), c)])
C05 = dict(
    build=c05_build, level="exploration", technique="runtime monitoring: per-function derivative oracle over the whole domain, ASan/UBSan builds",
    note="Every overload of every function is evaluated at many thousands of points over its domain, forward and adjoint, double and float, against long-double partial derivatives, and at a table of documented conventions; held on everything explored.",
    jobs=lambda tier: [dict(exe="c05-d", n=12000 if tier == "quick" else 300000), dict(exe="c05-rp", n=12000 if tier == "quick" else 300000)],
    need={"partials_compared": 100000, "conventions_checked": 500},
    rule="every single-function form of the catalogue in turn, operands from log-uniform magnitudes, neighbourhoods of +-1, integers, half-integers and of branch points; compared with the exact partial derivative "
         "relative to its own magnitude and conditioning; non-trivial = some exact partial is non-zero; distinct = by form and operands",
    assumptions=["an error of up to 64 (pow: 500) rounding units of the conditioned derivative is accepted (plus one rounding unit of 1 for tanh, erf, erfc)", "for division, atan2, asinh, acosh and the smoothed functions: magnitudes whose squares and cubes are representable"])

def c06_build(b, tier, cfgs=("d", "r")):
    for c in cfgs:
        o = [b.obj(h("c06inst.cpp"), c, defs="'-DTT=%s' '-DSS=%s'" % ts) for ts in
             (("long double", "long double"), ("xad::AReal<double>", "double"), ("xad::FReal<double>", "double"), ("xad::AReal<float>", "float"), ("xad::FReal<float>", "float"))]
        b.exe("c06", c, b.lib(c) + o + [b.obj(h("c06inst.cpp"), c, defs="-DNAMES"), b.obj(h("c06.cpp"), c)])
C06 = dict(
    build=c06_build, level="exploration", technique="runtime monitoring: differential oracle against std::complex<long double>, ASan/UBSan builds",
    note="370 complex forms (operators in all operand-kind combinations, aliasing compound assignments, functions, compositions) are evaluated in all quadrants and on the axes, forward and adjoint, double and float; values and all partial derivatives are compared with std::complex<long double>; held on everything explored.",
    jobs=lambda tier: [dict(exe="c06-" + c, n=5000 if tier == "quick" else 200000) for c in ("d", "r")],
    need={"values_compared": 5000, "derivatives_compared": 50000, "predicates_compared": 5000, "streams_compared": 1000},
    rule="every complex form in turn at random operands (all quadrants, one quarter on the axes with signed zeros, some large/small); derivatives of both parts with respect to the parts of both complex operands and two real operands "
         "compared with extrapolated central differences of the same expression over std::complex<long double>; non-trivial = differentiable point with a non-zero derivative; distinct = by form and operands",
    assumptions=["derivative deviations below 1e-7 (double) / 2e-3 (float) of the magnitudes involved are not reported", "points within about 1e-3 of a branch cut or pole are compared in value only"])
