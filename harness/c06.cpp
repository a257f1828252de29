// C06: complex AD arithmetic vs. std::complex in values and (numerically differentiated) derivatives.
#include "c06.hpp"
#include <limits>
#include <map>
#include <sstream>
using namespace h;
typedef long double LD;

static const int NV = 6;  // zr zi wr wi x y
struct Pt { LD v[NV]; std::complex<LD> cz; LD s; int i; };

static bool refEval(int id, const Pt& p, LD* out)
{
    std::complex<LD> z(p.v[0], p.v[1]), w(p.v[2], p.v[3]), cz = p.cz;
    LD x = p.v[4], y = p.v[5];
    CArgs<LD, LD> a = {z, w, cz, x, y, p.s, p.i};
    CRes<LD> k;
    if (!cform<LD, LD>(id, a, k)) { harnessError("form"); return false; }
    out[0] = *k.re;
    out[1] = *k.im;
    return std::isfinite(double(out[0])) && std::isfinite(double(out[1]));
}
// central differences with Richardson extrapolation; false if they do not agree (branch cut near)
static bool refDeriv(int id, const Pt& p, int v, LD* d)
{
    LD e[3][2], f0[2], g[3][2];
    if (!refEval(id, p, f0)) return false;
    for (int l = 0; l < 3; ++l)
    {
        LD hh = 4e-4L / (1 << l) , a[2], b[2], a2[2], b2[2];
        Pt q = p;
        q.v[v] = p.v[v] + hh; if (!refEval(id, q, a)) return false;
        q.v[v] = p.v[v] - hh; if (!refEval(id, q, b)) return false;
        q.v[v] = p.v[v] + 2 * hh; if (!refEval(id, q, a2)) return false;
        q.v[v] = p.v[v] - 2 * hh; if (!refEval(id, q, b2)) return false;
        for (int c = 0; c < 2; ++c) g[l][c] = fabsl(a[c] - 2 * f0[c] + b[c]) / hh;
        for (int c = 0; c < 2; ++c) e[l][c] = (8 * (a[c] - b[c]) - (a2[c] - b2[c])) / (12 * hh);
    }
    for (int c = 0; c < 2; ++c)
    {
        LD r1 = (16 * e[1][c] - e[0][c]) / 15, r2 = (16 * e[2][c] - e[1][c]) / 15;
        d[c] = r2;
        if (!(g[2][c] <= 0.4L * g[0][c] + 1e-8L)) return false;  // kink at the point itself
        if (!(fabsl(r1 - r2) <= 1e-9L * (1 + fabsl(r2))) || !(fabsl(e[2][c] - r2) <= 1e-7L * (1 + fabsl(r2)))) return false;
    }
    return true;
}

template <class D> struct Nm;
template <> struct Nm<double> { static const char* n() { return "double"; } };
template <> struct Nm<float> { static const char* n() { return "float"; } };

static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

template <class D>
struct World
{
    xad::Tape<D> tape;
    // values within this many units, derivatives relative
    double vtol() { return sizeof(D) == 8 ? 2e-11 : 2e-4; }
    double dtol() { return sizeof(D) == 8 ? 1e-7 : 2e-3; }

    void one(const CName& f_, Rng& r, bool show)
    {
        const CName& f = f_;
        Pt p;
        D v[NV], s;
        for (int k = 0; k < NV; ++k) v[k] = D(float(r.uni(-2, 2)));
        std::complex<D> cz(D(float(r.uni(-2, 2))), D(float(r.uni(-2, 2))));
        s = D(float(r.uni(-2, 2)));
        bool axis = r.chance(0.25);
        if (axis)
            for (int k = 0; k < NV; ++k)
            {
                if (r.chance(0.4)) v[k] = r.chance(0.5) ? D(0) : D(-0.0);
                else if (r.chance(0.2)) v[k] = D(r.range(-2, 2));
            }
        else if (r.chance(0.15))
            {
            // sin^2+cos^2 cancels numbers of the size exp(2|im|)
            const D f = D(r.chance(0.5) ? (has(f_.name, "* sin(z)") || has(f_.name, "sin(z) /") ? 2 : 30) : 0.03);
            for (int k = 0; k < NV; ++k) v[k] *= f;
        }
        const bool powi = f.name[0] == 'p' && has(f.name, "(i)");
        int i = powi ? r.range(0, 5) : r.range(-3, 5);
        if (has(f.name, "pow(int(i)") || has(f.name, "(i), z")) i = r.range(1, 5);
        if (r.chance(0.3) && (has(f.name, "int(i)") || has(f.name, "long(i)")) && !has(f.name, "unsigned") && has(f.name, "pow(z")) i = -i;
        if (has(f.name, "polar") && f.name[0] == 'p') { v[4] = std::fabs(v[4]) + D(0.1); }
        if (has(f.name, "polar(s")) s = std::fabs(s) + D(0.1);
        if (has(f.name, "polar(x * y")) v[5] = std::fabs(v[5]) + D(0.1);
        bool negPolar = has(f.name, "polar(-x");
        if (negPolar) v[4] = -v[4];
        for (int k = 0; k < NV; ++k) p.v[k] = v[k];
        p.cz = std::complex<LD>(cz.real(), cz.imag());
        p.s = s;
        p.i = i;
        LD rv[2], rd[NV][2];
        if (!refEval(f.id, p, rv)) { count("skipped_nonfinite"); return; }
        bool dOk = true, any = false;
        // compositions passing through a singularity of an inner function: no derivative by the chain rule
        if (!simple(f.name) && !powi)
        {
            static const char* tok[] = {"log", "sqrt", "abs", "arg", "pow", "asin", "acos", "atan", "polar"};
            auto sing = [](D re, D im) { return (re == 0 && (im == 0 || std::fabs(im) == 1)) || (im == 0 && std::fabs(re) == 1); };
            if (sing(v[0], v[1]) || sing(v[2], v[3]) || v[4] * v[5] == 0)
                for (auto t : tok) dOk = dOk && !has(f.name, t);
        }
        LD scale = 1 + fabsl(rv[0]) + fabsl(rv[1]);
        for (int k = 0; k < NV && dOk; ++k)
        {
            dOk = refDeriv(f.id, p, k, rd[k]);
            if (!dOk) break;
            scale = fmaxl(scale, (1 + fabsl(p.v[k])) * (fabsl(rd[k][0]) + fabsl(rd[k][1])));
            if (rd[k][0] != 0 || rd[k][1] != 0) any = true;
        }
        if (has(f.name, "sin(z) / cos(z)")) scale += 10 / std::norm(std::cos(std::complex<LD>(p.v[0], p.v[1])));  // cancelling terms
        if (scale > 1e4) { count("skipped_conditioning"); return; }
        std::string at = fmt("z=(%.9g,%.9g) w=(%.9g,%.9g) cz=(%.9g,%.9g) x=%.9g y=%.9g s=%.9g i=%d", double(v[0]), double(v[1]), double(v[2]), double(v[3]), double(cz.real()), double(cz.imag()), double(v[4]), double(v[5]), double(s), i);
        evaluated(hashStr(f.name + at), any && dOk);
        if (show) sample(std::string(f.name) + " at " + at);
        count(dOk ? "points_with_derivatives" : "points_value_only");
        // near a branch cut the rounding of intermediate results selects the side: no value check there
        // (axis points themselves are compared with std::complex of the same precision)
        auto value = [&](const char* type, D re, D im) {
            if (!dOk && !simple(f.name)) return;
            LD e = fmaxl(fabsl(re - rv[0]), fabsl(im - rv[1]));
            if (!(e <= vtol() * scale))
                violation(fmt("complex-value:%s:%s<%s>", std::string(f.name).substr(0, 40).c_str(), type, Nm<D>::n()), fmt("(%.17g,%.17g) instead of (%.17Lg,%.17Lg) at %s", double(re), double(im), rv[0], rv[1], at.c_str()));
            count("values_compared");
        };
        auto deriv = [&](const char* type, int k, int c, D got) {
            LD e = fabsl(got - rd[k][c]);
            if (!(e <= dtol() * scale))
                violation(fmt("complex-derivative:%s:%s<%s>", std::string(f.name).substr(0, 40).c_str(), type, Nm<D>::n()),
                          fmt("d %s / d %s = %.17g instead of %.17Lg at %s", c ? "imag" : "real", (const char*[]){"zr", "zi", "wr", "wi", "x", "y"}[k], double(got), rd[k][c], at.c_str()));
            count("derivatives_compared");
        };
        where(std::string("FReal ") + f.name);
        for (int k = 0; k < NV; ++k)
        {
            typedef xad::FReal<D> T;
            T u[NV];
            for (int q = 0; q < NV; ++q) u[q] = v[q];
            xad::derivative(u[k]) = D(1);
            std::complex<T> z(u[0], u[1]), w(u[2], u[3]);
            CArgs<T, D> a = {z, w, cz, u[4], u[5], s, i};
            CRes<T> res;
            cform<T, D>(f.id, a, res);
            if (k == 0) value("FReal", xad::value(*res.re), xad::value(*res.im));
            if (dOk) { deriv("FReal", k, 0, xad::derivative(*res.re)); deriv("FReal", k, 1, xad::derivative(*res.im)); }
            if (!dOk) break;
        }
        where(std::string("AReal ") + f.name);
        {
            typedef xad::AReal<D> T;
            std::complex<T> z(v[0], v[1]), w(v[2], v[3]);
            T x = v[4], y = v[5];
            bool reg = r.chance(0.95);
            if (reg)
            {
                if (r.chance(0.5)) { tape.registerInput(z); tape.registerInput(w); }
                else { tape.registerInput(z.real()); tape.registerInput(z.imag()); tape.registerInput(w.real()); tape.registerInput(w.imag()); }
                tape.registerInput(x); tape.registerInput(y);
                tape.newRecording();
            }
            CArgs<T, D> a = {z, w, cz, x, y, s, i};
            CRes<T> res;
            cform<T, D>(f.id, a, res);
            value("AReal", xad::value(*res.re), xad::value(*res.im));
            if (dOk && reg)
            {
                std::complex<T> o(*res.re, *res.im);
                tape.registerOutput(o);
                for (int c = 0; c < 2; ++c)
                {
                    if (r.chance(0.5)) o.setAdjoint(D(c == 0), D(c));
                    else if (r.chance(0.5)) { xad::derivative(o.real()) = D(c == 0); xad::derivative(o.imag()) = D(c); }
                    else o.setDerivative(D(c == 0), D(c));
                    tape.computeAdjoints();
                    std::complex<D> dz = xad::derivative(z), dw = w.getAdjoint();
                    if (dw == dw && w.getDerivative() != dw) violation("complex-accessor", "getDerivative != getAdjoint");
                    deriv("AReal", 0, c, dz.real()); deriv("AReal", 1, c, dz.imag()); deriv("AReal", 2, c, dw.real()); deriv("AReal", 3, c, dw.imag());
                    deriv("AReal", 4, c, xad::derivative(x)); deriv("AReal", 5, c, xad::derivative(y));
                    tape.clearDerivatives();
                }
            }
            // operands are not modified
            if (xad::value(z) != std::complex<D>(v[0], v[1]) || xad::value(w) != std::complex<D>(v[2], v[3]) || xad::value(x) != v[4])
                violation("complex-operand-modified:" + std::string(f.name), at);
        }
        tape.clearAll();
    }
    // value on the axes: no rounding before the branch decision
    static bool simple(const std::string& n)
    {
        static const char* ok[] = {"exp(z)", "log(z)", "log10(z)", "sqrt(z)", "sin(z)", "cos(z)", "tan(z)", "asin(z)", "acos(z)", "atan(z)", "sinh(z)", "cosh(z)", "tanh(z)", "asinh(z)",
                                   "acosh(z)", "atanh(z)", "conj(z)", "proj(z)", "abs(z)", "arg(z)", "norm(z)", "real(z)", "imag(z)"};
        for (auto o : ok) if (n == o) return true;
        return false;
    }

    template <class T>
    void predicates(Rng& r)
    {
        auto pickv = [&]() { return r.chance(0.6) ? D(r.range(-1, 1)) : D(float(r.uni(-2, 2))); };
        std::complex<D> z0(pickv(), pickv()), w0 = r.chance(0.4) ? z0 : std::complex<D>(pickv(), pickv());
        D x0 = r.chance(0.5) ? z0.real() : pickv();
        std::complex<T> z(z0), w(w0);
        T x(x0);
        where("complex predicates");
        const bool want[] = {z0 == w0, z0 != w0, z0 == x0, z0 != x0, x0 == z0, x0 != z0};
        const bool g1[] = {z == w, z != w, z == x, z != x, x == z, x != z};
        const bool g2[] = {z == w, z != w, z == x0, z != x0, x0 == z, x0 != z};
        const bool g3[] = {z == w, z != w, z == x * T(1), z != x * T(1), x * T(1) == z, x * T(1) != z};
        for (int k = 0; k < 6; ++k)
            if (g1[k] != want[k] || g2[k] != want[k] || g3[k] != want[k])
                violation("complex-predicate", fmt("entry %d: z=(%g,%g) w=(%g,%g) x=%g: %d %d %d instead of %d", k, double(z0.real()), double(z0.imag()), double(w0.real()), double(w0.imag()), double(x0), g1[k], g2[k], g3[k], want[k]));
        count("predicates_compared", 6);
        std::ostringstream a, b;
        a.precision(12); b.precision(12);
        a << z << " " << w; b << z0 << " " << w0;
        if (a.str() != b.str()) violation("complex-output", a.str() + " instead of " + b.str());
        const char* txt[] = {"(1.5,-2)", "(3)", "4.25", " ( 1 , 2 ) ", "(x", "nonsense", "(1,", "(1;2)", ""};
        const char* t = txt[r.below(9)];
        std::istringstream ia(t), ib(t);
        std::complex<T> q(z0);
        std::complex<D> q0(z0);
        ia >> q; ib >> q0;
        if (bool(ia) != bool(ib) || xad::value(q) != q0) violation("complex-input", fmt("'%s': (%g,%g) %d instead of (%g,%g) %d", t, double(xad::value(q).real()), double(xad::value(q).imag()), int(bool(ia)), double(q0.real()), double(q0.imag()), int(bool(ib))));
        count("streams_compared");
    }
};

static void oneCase(long k, Rng& r)
{
    static World<double> wd;
    static World<float> wf;
    auto& n = cformNames();
    for (int q = 0; q < 24; ++q)
    {
        const CName& f = n[size_t(k * 24 + q) % n.size()];
        if (r.chance(0.25)) wf.one(f, r, k < 2 && q < 2);
        else wd.one(f, r, k < 2 && q < 2);
    }
    wd.predicates<xad::AReal<double>>(r);
    wd.predicates<xad::FReal<double>>(r);
    wf.predicates<xad::AReal<float>>(r);
    wf.predicates<xad::FReal<float>>(r);
}
int main(int argc, char** argv) { return run(argc, argv, oneCase); }
