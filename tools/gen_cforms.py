#!/usr/bin/env python3
"""Generates harness/cforms.inc: complex-number forms. z,w: std::complex<T>; cz: std::complex<S> (passive);
x,y: T; s: S; i: int. F(expr) yields a result; B(stmts) modifies t, a copy of z."""
import os
L = []
F = lambda e: L.append("F(%s)" % e)
B = lambda e: L.append("B(%s)" % e)
for op in "+-*/":
    for p in ("z,w z,cz cz,z z,x x,z z,s s,z z,x*y x*y,z x,cz cz,x x*y,cz cz,x*y z,-x -x,z cz,-x -x,cz z,z z*w,z z,w*z z,(x+s) (x+s),z z,sin(x) cos(y),z "
              "(z+w),(z-w) (z+x),s s,(w*x) cz,sin(x) sin(x),cz").split():
        a, b = p.split(",", 1); F("%s %s %s" % (a, op, b))
for op in "+-*/":
    for b in "w cz x s t t.real() t.imag() real(t) x*y w*z (t+w) -x".split(): B("t %s= %s" % (op, b))
F("+z"); F("-z"); F("-(z * w)"); F("+(z + x)")
for f in "exp log log10 sqrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh conj proj".split():
    for a in ("z", "z * w", "z + cz", "z - x"): F("%s(%s)" % (f, a))
for f in "abs arg norm real imag".split():
    for a in ("z", "z * w", "z / w", "cz * z"): F("%s(%s)" % (f, a))
for f in "norm arg conj proj".split():
    F("%s(x)" % f); F("%s(x * y)" % f); F("%s(-x)" % f)
F("real(x)"); F("imag(x)"); F("z.real()"); F("z.imag()"); F("z.real() * z.imag()"); F("real(x * y)"); F("imag(-x)")
for a, b in [("z","w"),("z","x"),("x","z"),("z","cz"),("cz","z"),("z","s"),("s","z"),("z","x * y"),("x * y","z"),("z * w","z"),("z","-x"),("-x","z"),("z","z")]: F("pow(%s, %s)" % (a, b))
for t in ("int", "short", "long", "(long long)", "unsigned", "(unsigned short)", "(unsigned long)", "(unsigned long long)"):
    c = t if t[0] == "(" else "(%s)" % t
    F("pow(z, %s(i))" % c); F("pow(%s(i), z)" % c)
for a, b in [("x","y"),("x","s"),("s","x"),("x * y","s"),("x * y","y"),("x","y * s"),("-x","y"),("x","-y"),("x * y","x + y"),("x * y","-y"),("-x","x * y"),("s","x * y"),("s","-x"),("-x","s")]:
    F("polar(%s, %s)" % (a, b))
F("std::complex<T>(x, y)"); F("std::complex<T>(x)"); F("std::complex<T>(x * y, y)"); F("std::complex<T>(x, s)"); F("std::complex<T>(s, x)"); F("std::complex<T>(s)"); F("std::complex<T>(cz)"); F("std::complex<T>(z)"); F("std::complex<T>(x, -y)"); F("std::complex<T>()")
F("std::complex<T>(z.imag(), z.real())")
B("t = x"); B("t = s"); B("t = cz"); B("t = w"); B("t = z * t"); B("t = x * y"); B("t = t"); B("t.real(x)"); B("t.imag(y)"); B("t.real(t.imag())"); B("t.imag(x * y)"); B("t.real(s)")
B("std::swap(t, (u = w)); t *= u"); B("t = std::move(u)"); B("u = t; u *= t; t += u"); B("t *= t; t *= t"); B("t /= t; t += z"); B("t += t; t -= w; t *= t.imag()"); B("t = conj(t); t *= z")
B("std::vector<std::complex<T>> v(3, t); v.push_back(w); v[0] *= v[3]; v.erase(v.begin() + 1); t = v[0] + v[1] * v[2]")
B("t = t.real()"); B("t = t.imag() * t")
F("exp(z) * w + pow(z, 2) / (w * w + s)"); F("sqrt(z * z + w * w) - log(z) * cz"); F("norm(z) * z / abs(w)"); F("polar(abs(z), arg(z)) - z"); F("sin(z) * sin(z) + cos(z) * cos(z)"); F("tan(z) - sin(z) / cos(z)")
F("exp(log(z))"); F("z * conj(z) - norm(z)"); F("acos(z) + asin(z)"); F("atan(z) + atan(w)"); F("sinh(asinh(z)) * tanh(w)")
open(os.path.join(os.path.dirname(__file__), "..", "harness", "cforms.inc"), "w").write("// generated by tools/gen_cforms.py\n" + "\n".join(L) + "\n")
print(len(L))
