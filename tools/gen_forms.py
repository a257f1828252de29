#!/usr/bin/env python3
"""Generates harness/forms_*.inc: the catalogue of expression forms. One F(...) per line; the
line number is the form's id inside its file. a,b,c: active variables (const T&); s: a constant of
the nested floating type S; i: a small int constant; io/fo: int / S out parameters."""
import os
D = os.path.join(os.path.dirname(__file__), "..", "harness")
unary = "cos sin log log10 log2 asin acos atan sinh cosh expm1 exp2 log1p asinh acosh atanh abs fabs floor ceil trunc round exp tanh sqrt cbrt tan erf erfc".split()
xonly = "degrees radians".split()
def out(name, lines):
    with open(os.path.join(D, name), "w") as f:
        f.write("// generated by tools/gen_forms.py\n")
        for l in lines: f.write("F(%s)\n" % l)
# --- unary functions: variable, unary expression, binary expression, nested function
U = []
for f in unary:
    U += [f"{f}(a)", f"{f}(-a)", f"{f}(a * b)", f"{f}(a + s)", f"s * {f}(a - b * c) + a"]
for f in xonly:
    U += [f"X::{f}(a)", f"X::{f}(a * b)"]
U += ["X::smooth_abs(a)", "X::smooth_abs(a * b)", "X::smooth_abs(a - b)"]
U += ["-a", "+a", "-(a * b)", "+(a * b)", "-(-a)"]
U += ["pown_(a, i)", "pown_(a * b, i)", "ldexp(a, i)", "ldexp(a * b, i)", "frexp(a, io)", "frexp(a * b, io)", "modf(a, fo)", "modf(a + b, fo)",
      "scalbn(a, i)", "scalbn(a * b, i)", "frexp(a, io) + frexp(b, io)", "frexp(a * b, io) - frexp(c, io) * modf(b, fo)"]
out("forms_unary.inc", U)
# --- binary operators and functions in every operand-kind combination
B1 = []
for op in "+-*/":
    B1 += [f"a {op} b", f"a {op} a", f"a {op} s", f"s {op} a", f"a {op} i", f"i {op} a",
           f"(a * b) {op} c", f"a {op} (b + c)", f"(a - b) {op} (c * a)", f"(a * b) {op} s", f"s {op} (a * b)",
           f"(a + b) {op} i", f"i {op} (a + b)", f"a {op} T(s)", f"T(s) {op} a", f"(a * b) {op} T(s)", f"T(s) {op} (a * b)",
           f"sin(a) {op} cos(b)", f"(-a) {op} (-b)", f"a {op} (long)(i)", f"(unsigned)(7) {op} a"]
out("forms_arith.inc", B1)
B2 = []
for f in "pow fmod atan2 hypot X::smooth_abs remainder nextafter".split():
    ints = f in ("pow", "fmod", "atan2", "remainder", "X::smooth_abs", "hypot")
    B2 += [f"{f}(a, b)", f"{f}(a * b, c)", f"{f}(a, b + s)", f"{f}(a - s, b * c)", f"{f}(a, s)", f"{f}(s, a)",
           f"{f}(a * b, s)", f"{f}(s, a * b)", f"{f}(a, T(s))", f"{f}(T(s), a)", f"{f}(a * b, T(s))", f"{f}(T(s), a + b)"]
    B2 += [f"{f}(-a, +b)", f"{f}(-a, s)", f"{f}(s, -a)", f"{f}(a, -b)"]
    if ints: B2 += [f"{f}(-a, i)", f"{f}(i, -a)", f"{f}(a, i)", f"{f}(i, a)", f"{f}(a * b, i)", f"{f}(i, a + b)"]
for f in "fmax fmin".split():
    B2 += [f"{f}(a, b)", f"{f}(a * b, c)", f"{f}(a, b + s)", f"{f}(a - s, b * c)", f"{f}(a, s)", f"{f}(s, a)", f"{f}(a * b, s)", f"{f}(s, a * b)", f"{f}(a, i)", f"{f}(i, a * b)"]
for f in "max min".split():
    B2 += [f"{f}(a, b)", f"{f}(a * b, b + c)", f"{f}(a, b + s)", f"{f}(a - s, b)", f"{f}(a, s)", f"{f}(s, a)", f"{f}(a * b, s)", f"{f}(s, a * b)"]
B2 += ["remquo(a, b, io)", "remquo(a * b, c + s, io)", "remquo(a, s, io)", "remquo(s, a, io)", "remquo(a * b, s, io)", "remquo(s, a * b, io)", "remquo(a, T(s), io)",
       "remquo(T(s), a * b, io)", "remquo(a * b, T(s), io)", "remquo(a, i, io)", "remquo(i, a, io)"]
for f in ("X::smooth_max", "X::smooth_min"):
    B2 += [f"{f}(a, b)", f"{f}(a, b, s)", f"{f}(a * b, c, s)", f"{f}(a, s, s)"]
B2 += ["remquo(-a, +b, io)", "remquo(-a, s, io)", "remquo(s, -a, io)", "fmax(-a, b)", "fmin(-a, b)", "max(-a, -b)", "min(-a, -b)", "fmax(-a, s)", "fmin(s, -a)",
       "max(s, -a)", "min(-a, s)", "copysign(-a, b)", "copysign(a, s)", "copysign(s, a)", "copysign(a, -b)", "X::smooth_max(a, b, T(s))", "X::smooth_min(-a, b, s)"]
B2 += ["copysign(a, b)", "copysign(a * b, s)", "copysign(a, b * c)"]
out("forms_func.inc", B2)
# --- larger shapes
N = ["a * b + c * a - b / (s + c * c)", "(a + b) * (b + c) * (c + a)", "exp(sin(a) * b) + log(s * s + a * a + T(1))",
     "sqrt(a * a + b * b + T(1)) / (s * s + T(1))", "sin(a * sin(b * sin(c)))", "((a + s) * (b - s)) / (c * c + T(1)) - a * a * a",
     "a * a", "a * a * a * a", "a - a", "(a * b) - (a * b)", "a + a * a + a * a * a", "tanh(a + b) * tanh(a - b) + T(s) * c",
     "max(a, b) * min(a, b)", "fabs(a - b) + fabs(b - c)", "pow(a * a + T(1), b)", "atan2(a + T(s), b - c) * hypot(a, b)",
     "-((-a) * (-(b - (-c))))", "1 / (1 / (a * a + 2) + 1 / (b * b + 3))", "(a * 2 + b * 3 - c * 4) / 5", "exp(-a * a) * erf(b) + erfc(c)",
     "a > b ? T(a * c) : T(b * c)", "s + (s - (s * (s / (a * a + T(2)))))", "2 * a - a * 2", "a / b / c", "a - b - c", "a - (b - c)", "a / (b / c)",
     "fmod(a * 3, b * b + T(1)) * c", "cbrt(a * a + 1) * exp2(b / 4) * log2(c * c + 2)", "log1p(a * a) + expm1(b / 3) * log10(c * c + 1.5f)",
     "asinh(a) * acosh(b * b + 2) * atanh(sin(c) / 2)", "asin(sin(a) / 2) + acos(cos(b) / 2) - atan(c)", "sinh(a / 3) + cosh(b / 3) * tan(c / 4)",
     "hypot(a * b, c) / hypot(b, T(3))", "pow(a * a + T(1), s) + pow(T(2), b)", "X::smooth_max(a, b * c) - X::smooth_min(a * b, c)"]
out("forms_deep.inc", N)
print(len(U), len(B1), len(B2), len(N))
