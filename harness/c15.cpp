// C15: computeJacobian / computeHessian on random functions, in every mode, interface and container, against
// the reference derivatives; inputs, active tape and pre-existing variables are probed after every call.
// --misuse 1: wrongly sized iterator ranges (C11).
#include "prog.hpp"
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <deque>
#include <list>
#include <array>
using namespace h;

template <class T> struct Info;
template <> struct Info<double> { typedef double D; static std::string n() { return "double"; } static double eps() { return 2.2e-16; } };
template <> struct Info<float> { typedef float D; static std::string n() { return "float"; } static double eps() { return 1.2e-7; } };
template <class I> struct Info<xad::FReal<I>> { typedef typename Info<I>::D D; static std::string n() { return "FReal<" + Info<I>::n() + ">"; } static double eps() { return Info<I>::eps(); } };
template <class I> struct Info<xad::AReal<I>> { typedef typename Info<I>::D D; static std::string n() { return "AReal<" + Info<I>::n() + ">"; } static double eps() { return Info<I>::eps(); } };

static const double LIMIT = 1e6;

enum ArgMode { ARG_COPY, ARG_SWAPOUT, ARG_MOVEOUT, ARG_INPLACE, ARG_CLEAR, ARG_GROW, ARG_PERMUTE, N_ARG };
static const char* argName[] = {"reads", "swaps_out", "moves_out", "in_place", "clears", "grows", "permutes"};

struct Thrown {};

struct Fn
{
    Program P;
    int n = 0;
    int argMode = 0;
    bool returnsArg = false;        // returns the (modified) argument vector itself
    std::vector<int> outs;          // register, input or -1 (a constant)
    int throwAt = 0;                // > 0: throw at that call
    mutable int calls = 0;
    int m() const { return int(outs.size()); }
    std::string str() const
    {
        std::string s = fmt("n=%d m=%d %s%s outs", n, m(), argName[argMode], returnsArg ? " returns-arg" : "");
        for (int o : outs) s += fmt(" %d", o);
        return s + " | " + P.str();
    }
    template <class T>
    std::vector<T> operator()(std::vector<T>& v) const
    {
        typedef typename NestedF<T>::type S;
        ++calls;
        State<T> st;
        if (n == 0) for (double c : P.x0) st.x.push_back(T(S(c)));
        else
            switch (argMode)
            {
                case ARG_SWAPOUT: case ARG_INPLACE: st.x.swap(v); break;
                case ARG_MOVEOUT:
                    for (auto& e : v) { st.x.push_back(std::move(e)); e = S(4); }
                    break;
                case ARG_CLEAR: st.x = v; v.clear(); break;
                case ARG_GROW: st.x = v; v.push_back(T(S(3))); std::reverse(v.begin(), v.end()); break;
                case ARG_PERMUTE:
                    std::rotate(v.begin(), v.begin() + 1, v.end());
                    for (size_t i = 0; i < v.size(); ++i) st.x.push_back(v[(i + v.size() - 1) % v.size()]);
                    std::swap(v[0], v[v.size() - 1]);
                    break;
                default: st.x = v;
            }
        execAll(st, P);
        if (throwAt && calls == throwAt) throw Thrown();
        std::vector<T> y;
        if (returnsArg) { y.swap(st.x); if (argMode == ARG_INPLACE) v = y; return y; }
        for (size_t k = 0; k < outs.size(); ++k)
        {
            if (outs[k] < 0) y.push_back(T(S(1.5)));
            else if (k % 3 == 2) y.push_back(st.get(outs[k]) * S(0.5) + S(1));
            else y.push_back(st.get(outs[k]));
        }
        if (argMode == ARG_INPLACE && n) v.swap(st.x);
        return y;
    }
};

static Fn genFn(Rng& r, bool fl, bool nested)
{
    GenLimits L;
    L.maxLen = nested ? 14 : 24;
    L.maxMajorant = 1e6;
    if (fl) { L.minKink = 5e-2; L.maxMag = 20; L.maxMajorant = 1e3; L.maxLen = 8; }
    else { L.minKink = 1e-2; L.maxMag = 60; }
    L.specialPoints = r.chance(0.4);
    L.maxIn = r.chance(0.15) ? 12 : 5;
    L.noInputMod = r.chance(0.5);
    Fn f;
    f.P = genProgram(r, L);
    f.n = f.P.nIn;
    if (r.chance(0.06)) f.n = 0;
    f.argMode = r.chance(0.35) ? ARG_COPY : int(r.below(N_ARG));
    int m = r.chance(0.06) ? 0 : r.chance(0.2) ? 1 : r.range(1, r.chance(0.1) ? 12 : 5);
    std::set<int> written;
    std::vector<int> live;
    {
        State<ref::R> st = runRef(f.P, {});
        for (int k = 0; k < NREG; ++k) if (st.reg[k]) live.push_back(k);
    }
    for (int k = 0; k < m; ++k)
    {
        if (r.chance(0.08)) f.outs.push_back(-1);
        else if (r.chance(0.15)) f.outs.push_back(INPUT_BASE + int(r.below(f.P.nIn)));
        else if (r.chance(0.6)) f.outs.push_back(f.P.outs[r.below(f.P.outs.size())]);
        else f.outs.push_back(live[r.below(live.size())]);
    }
    if (f.n && r.chance(0.07)) { f.returnsArg = true; f.outs.assign(f.P.nIn, 0); for (int k = 0; k < f.P.nIn; ++k) f.outs[k] = INPUT_BASE + k; }
    return f;
}

// exact first (and second) derivatives: D1[i][j], M majorants; D2 along one direction, or all of output 0
struct Exact
{
    std::vector<std::vector<double>> d, m;
    std::vector<std::vector<double>> d2, m2;
};
template <class T> static T scalar(const Fn& f, std::vector<T>& v);
template <bool Sc> struct Eval { template <class T> static std::vector<T> run(const Fn& f, std::vector<T>& x) { return f(x); } };
template <> struct Eval<true> { template <class T> static T run(const Fn& f, std::vector<T>& x) { return scalar(f, x); } };
template <bool Sc = false>
static auto refRun(const Fn& f, const std::vector<std::vector<double>>& dir)
{
    std::vector<ref::R> x;
    for (int k = 0; k < f.n; ++k)
    {
        ref::R X(f.P.x0[k]);
        for (size_t b = 0; b < dir.size(); ++b) { X.c[1 << b] = dir[b][k]; X.m[1 << b] = std::fabs(dir[b][k]); }
        x.push_back(X);
    }
    int t = f.throwAt; const_cast<Fn&>(f).throwAt = 0;
    auto y = Eval<Sc>::run(f, x);
    const_cast<Fn&>(f).throwAt = t;
    return y;
}
static double maj(const ref::R& v) { double m = 0; for (int i = 0; i < 8; ++i) m = std::max(m, double(v.m[i])); return m; }
// d: Jacobian; d2: its derivative along dir
static Exact exactJac(const Fn& f, const std::vector<double>& dir)
{
    Exact e;
    int n = f.n, m = f.m();
    e.d.assign(m, std::vector<double>(n)); e.m = e.d2 = e.d;
    for (int j = 0; j < n; ++j)
    {
        auto y = refRun(f, {unitDir(n, j), dir});
        for (int i = 0; i < m; ++i) { e.d[i][j] = double(y[i].c[1]); e.d2[i][j] = double(y[i].c[3]); e.m[i][j] = maj(y[i]); }
    }
    return e;
}
// scalar function for Hessians
template <class T>
static T scalar(const Fn& f, std::vector<T>& v)
{
    auto y = f(v);
    T s = y[0];
    for (size_t k = 1; k < y.size(); ++k)
    {
        if (k & 1) s = s * y[k];
        else s += y[k] * y[k];
    }
    return s;
}
static Exact exactHess(const Fn& f)
{
    Exact e;
    int n = f.n;
    e.d.assign(n, std::vector<double>(n)); e.m = e.d;
    for (int j = 0; j < n; ++j)
        for (int k = 0; k <= j; ++k)
        {
            auto y = refRun<true>(f, {unitDir(n, j), unitDir(n, k)});
            e.d[j][k] = e.d[k][j] = double(y.c[3]); e.m[j][k] = e.m[k][j] = maj(y);
        }
    return e;
}

template <class M>
static double cmp(const char* what, const std::string& tn, const Fn& f, const M& got, const std::vector<std::vector<double>>& ex, const std::vector<std::vector<double>>& maj, double eps)
{
    double worst = 0;
    if (got.size() != ex.size()) { violation(std::string(what) + ":rows:" + tn, fmt("%zu rows instead of %zu; %s", got.size(), ex.size(), f.str().substr(0, 2500).c_str())); return 0; }
    for (size_t i = 0; i < ex.size(); ++i)
    {
        if (got[i].size() != ex[i].size()) { violation(std::string(what) + ":columns:" + tn, fmt("%zu columns instead of %zu; %s", got[i].size(), ex[i].size(), f.str().substr(0, 2500).c_str())); return 0; }
        for (size_t j = 0; j < ex[i].size(); ++j)
        {
            double e = std::fabs(double(got[i][j]) - ex[i][j]) / (eps * (1 + maj[i][j]));
            if (!(e <= LIMIT))
                violation(std::string(what) + ":" + tn, fmt("entry (%zu,%zu) = %.17g, exact %.17g (%.3g units); %s", i, j, double(got[i][j]), ex[i][j], e, f.str().substr(0, 3000).c_str()));
            else worst = std::max(worst, e);
            count(what + std::string("_entries"));
            if (ex[i][j] != 0) count(what + std::string("_nonzero"));
        }
    }
    maxi(std::string("max_err_units_") + what + "_" + (eps > 1e-10 ? "float" : "double"), worst);
    return worst;
}

// ---- row containers ----------------------------------------------------------------------------------------
template <class X> static double leaf(const xad::FReal<X>& x);
template <class X> static double leaf(const xad::AReal<X>& x);
template <class X> static double leaf(const X& x) { return double(x); }
template <class X> static double leaf(const xad::FReal<X>& x) { return leaf(x.value()); }
template <class X> static double leaf(const xad::AReal<X>& x) { return leaf(x.value()); }

// calls go(first, last) with a range of `rows` rows of `cols` columns of container kind k inside a guarded container; returns the entries
template <class E, class Outer, class MakeRow, class Go>
static std::vector<std::vector<E>> ranged(int rows, int cols, int before, int after, MakeRow mk, Go go, bool untouched, const std::string& key)
{
    Outer o;
    for (int i = 0; i < before + rows + after; ++i) o.push_back(mk());
    for (auto& row : o) for (auto& e : row) e = E(77.0);
    auto first = o.begin(); std::advance(first, before);
    auto last = first; std::advance(last, rows);
    go(first, last);
    std::vector<std::vector<E>> res;
    int i = 0;
    for (auto& row : o)
    {
        bool inside = i >= before && i < before + rows;
        ++i;
        if (!inside || untouched)
            for (auto& e : row)
                if (leaf(e) != 77.0) violation("outside_written:" + key, fmt("an element outside of the given rows was overwritten with %g", leaf(e)));
        if (inside) { res.emplace_back(); for (auto& e : row) res.back().push_back(e); }
    }
    return res;
}
static const int N_CONT = 7;
template <class E, class Go>
static std::vector<std::vector<E>> withRange(int kind, int rows, int cols, int before, int after, Go go, bool untouched, const std::string& key)
{
    auto vec = [&] { return std::vector<E>(cols); };
    auto lst = [&] { return std::list<E>(cols); };
    auto deq = [&] { return std::deque<E>(cols); };
    switch (kind)
    {
        case 1: return ranged<E, std::list<std::vector<E>>>(rows, cols, before, after, vec, go, untouched, key);
        case 2: return ranged<E, std::deque<std::list<E>>>(rows, cols, before, after, lst, go, untouched, key);
        case 3: return ranged<E, std::vector<std::deque<E>>>(rows, cols, before, after, deq, go, untouched, key);
        case 4:
            if (cols == 3) return ranged<E, std::vector<std::array<E, 3>>>(rows, cols, before, after, [] { return std::array<E, 3>(); }, go, untouched, key);
            if (cols == 1) return ranged<E, std::list<std::array<E, 1>>>(rows, cols, before, after, [] { return std::array<E, 1>(); }, go, untouched, key);
            return ranged<E, std::list<std::list<E>>>(rows, cols, before, after, lst, go, untouched, key);
        case 5:  // pointers as row iterators
            return ranged<E, std::vector<std::vector<E>>>(rows, cols, before, after, vec, [&](typename std::vector<std::vector<E>>::iterator a, typename std::vector<std::vector<E>>::iterator b) { if (a == b) go(a, b); else go(&*a, &*a + (b - a)); }, untouched, key);
        default: return ranged<E, std::vector<std::vector<E>>>(rows, cols, before, after, vec, go, untouched, key);
    }
}

// ---- tape situations ---------------------------------------------------------------------------------------
enum { TP_NONE, TP_NULL, TP_DEFAULT, TP_EXPLICIT, TP_USED, TP_USED_DEFAULT, N_TP };
static const char* tpName[] = {"own tape", "null tape", "active tape by default", "active tape given", "used tape given", "used active tape by default"};

template <class T, bool adj>
struct TapeEnv  // forward mode
{
    std::string tn;
    TapeEnv(int, Rng&, std::vector<T>&, const std::string&) {}
    std::nullptr_t tape() { return nullptr; }
    bool given() const { return false; }
    void after(std::vector<T>&, const std::string&) {}
};
template <class I>
struct TapeEnv<xad::AReal<I>, true>
{
    typedef xad::AReal<I> T;
    std::unique_ptr<xad::Tape<I>> t;
    std::vector<T> other;
    int mode;
    bool regd = false;
    TapeEnv(int mode_, Rng& r, std::vector<T>& vec, const std::string&) : mode(mode_)
    {
        typedef typename Info<T>::D D;
        if (mode >= TP_DEFAULT) t.reset(new xad::Tape<I>());
        if (mode >= TP_USED)
        {
            for (int k = 0; k < 3; ++k) other.push_back(T(D(k + 1)));
            regd = r.chance(0.7);
            if (r.chance(0.5)) t->registerInputs(other);
            if (regd) t->registerInputs(vec);
            t->registerInputs(other);
            t->newRecording();
            T y = other[0] * other[1];
            for (auto& v : vec) y += v * other[2];
            other.push_back(y);
            if (r.chance(0.7)) { derivative(y) = D(1); if (r.chance(0.7)) t->computeAdjoints(); }
            count("used_tapes");
        }
    }
    xad::Tape<I>* tape() { return t.get(); }
    bool given() const { return mode == TP_EXPLICIT || mode == TP_USED || mode == TP_NULL; }
    ~TapeEnv()
    {
        other.clear();
    }
    void after(std::vector<T>& vec, const std::string& key)
    {
        typedef typename Info<T>::D D;
        if (xad::Tape<I>::getActive() != t.get()) violation("active_tape:" + key, fmt("another tape is active after the call (%s)", tpName[mode]));
        if (!t) return;
        if (!t->isActive()) violation("active_tape:" + key, "the given tape is no longer active");
        if (mode >= TP_USED && regd)
            for (auto& v : vec) if (!v.shouldRecord()) violation("registration:" + key, "an input registered before the call is no longer registered");
        // the tape still works and every variable still owns its adjoint
        std::vector<T> in(3, T(D(2)));
        std::vector<T*> all;
        t->registerInputs(in);
        for (auto& v : in) all.push_back(&v);
        if (mode >= TP_USED && regd) for (auto& v : vec) all.push_back(&v);
        for (auto& v : other) if (v.shouldRecord()) all.push_back(&v);
        t->newRecording();
        for (size_t k = 0; k < all.size(); ++k) all[k]->setAdjoint(I(D(k + 1)));
        for (size_t k = 0; k < all.size(); ++k)
            if (leaf(all[k]->getAdjoint()) != double(k + 1)) violation("ownership:" + key, fmt("variable %zu of %zu lost its adjoint slot", k, all.size()));
        t->newRecording();
        T y = in[0] * in[1] + in[2];
        derivative(y) = D(3);
        t->computeAdjoints();
        if (leaf(in[0].getAdjoint()) != 6 || leaf(in[1].getAdjoint()) != 6 || leaf(in[2].getAdjoint()) != 3) violation("tape_after:" + key, fmt("a small recording after the call gives adjoints %g %g %g", leaf(in[0].getAdjoint()), leaf(in[1].getAdjoint()), leaf(in[2].getAdjoint())));
        count("tapes_probed_after");
    }
};

// ---- calling the drivers -----------------------------------------------------------------------------------
template <class T> struct Mode;  // value type of the matrix and calls
template <class I>
struct Mode<xad::FReal<I>>
{
    typedef xad::FReal<I> T;
    typedef I E;
    static const bool adj = false;
    template <class F> static std::vector<std::vector<E>> jac(const std::vector<T>& v, F f, std::nullptr_t, bool) { return xad::computeJacobian<I>(v, f); }
    template <class It, class F> static void jac(const std::vector<T>& v, F f, It a, It b, std::nullptr_t, bool) { xad::computeJacobian<It, I>(v, f, a, b); }
};
template <class I>
struct Mode<xad::AReal<I>>
{
    typedef xad::AReal<I> T;
    typedef I E;
    static const bool adj = true;
    template <class F> static std::vector<std::vector<E>> jac(const std::vector<T>& v, F f, xad::Tape<I>* t, bool given) { return given ? xad::computeJacobian<I>(v, f, t) : xad::computeJacobian<I>(v, f); }
    template <class It, class F> static void jac(const std::vector<T>& v, F f, It a, It b, xad::Tape<I>* t, bool given)
    {
        if (given) xad::computeJacobian<It, I>(v, f, a, b, t);
        else xad::computeJacobian<It, I>(v, f, a, b);
    }
};
template <class T> struct HMode;
template <class D>
struct HMode<xad::FReal<xad::FReal<D>>>
{
    typedef xad::FReal<xad::FReal<D>> T;
    typedef D E;
    template <class F> static std::vector<std::vector<E>> hess(const std::vector<T>& v, F f, std::nullptr_t, bool) { return xad::computeHessian<D>(v, f); }
    template <class It, class F> static void hess(const std::vector<T>& v, F f, It a, It b, std::nullptr_t, bool) { xad::computeHessian<It, D>(v, f, a, b); }
};
template <class D>
struct HMode<xad::AReal<xad::FReal<D>>>
{
    typedef xad::AReal<xad::FReal<D>> T;
    typedef D E;
    template <class F> static std::vector<std::vector<E>> hess(const std::vector<T>& v, F f, xad::Tape<xad::FReal<D>>* t, bool given) { return given ? xad::computeHessian<D>(v, f, t) : xad::computeHessian<D>(v, f); }
    template <class It, class F> static void hess(const std::vector<T>& v, F f, It a, It b, xad::Tape<xad::FReal<D>>* t, bool given)
    {
        if (given) xad::computeHessian<It, D>(v, f, a, b, t);
        else xad::computeHessian<It, D>(v, f, a, b);
    }
};

template <class X> static void bitsOf(const xad::FReal<X>& x, std::vector<double>& o);
template <class X> static void bitsOf(const xad::AReal<X>& x, std::vector<double>& o);
// the bits of all components of a vector of AD numbers (to see that inputs are not modified)
template <class X> static void bitsOf(const X& x, std::vector<double>& o) { o.push_back(double(x)); }
template <class X> static void bitsOf(const xad::FReal<X>& x, std::vector<double>& o) { bitsOf(x.value(), o); bitsOf(x.derivative(), o); }
template <class X> static void bitsOf(const xad::AReal<X>& x, std::vector<double>& o) { bitsOf(x.value(), o); o.push_back(x.shouldRecord()); }
template <class X> static std::vector<double> bits(const std::vector<X>& v) { std::vector<double> o; for (auto& x : v) bitsOf(x, o); return o; }
static bool sameBits(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }

// the inner level: directions (forward) or an inner tape (adjoint)
template <class I> struct Inner
{
    static const bool second = false;
    void prepare(std::vector<I*>, const std::vector<double>&) {}
    double deriv(I&, std::vector<I*>, const std::vector<double>&) { return 0; }
};
template <class D> struct Inner<xad::FReal<D>>
{
    static const bool second = true;
    void prepare(std::vector<xad::FReal<D>*> x, const std::vector<double>& dir) { for (size_t k = 0; k < x.size(); ++k) x[k]->setDerivative(D(dir[k])); }
    double deriv(xad::FReal<D>& e, std::vector<xad::FReal<D>*>, const std::vector<double>&) { return double(e.getDerivative()); }
};
template <class D> struct Inner<xad::AReal<D>>
{
    static const bool second = true;
    xad::Tape<D> t;
    void prepare(std::vector<xad::AReal<D>*> x, const std::vector<double>&) { for (auto p : x) t.registerInput(*p); t.newRecording(); }
    double deriv(xad::AReal<D>& e, std::vector<xad::AReal<D>*> x, const std::vector<double>& dir)
    {
        t.clearDerivatives();
        t.registerOutput(e);
        derivative(e) = D(1);
        t.computeAdjoints();
        double s = 0;
        for (size_t k = 0; k < x.size(); ++k) s += dir[k] * double(derivative(*x[k]));
        return s;
    }
};

template <class E> static std::vector<std::vector<double>> leaves(const std::vector<std::vector<E>>& m)
{
    std::vector<std::vector<double>> r;
    for (auto& row : m) { r.emplace_back(); for (auto& e : row) r.back().push_back(leaf(e)); }
    return r;
}
static bool sameM(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!sameBits(a[i], b[i])) return false;
    return true;
}

template <class T>
static void jacobian(Rng& r, bool show)
{
    typedef Mode<T> Mo;
    typedef typename Mo::E I;
    typedef typename Info<T>::D D;
    const std::string tn = "jacobian:" + Info<T>::n();
    Fn f = genFn(r, sizeof(D) == 4, Inner<I>::second);
    const int n = f.n, m = f.m();
    std::vector<double> dir(n);
    for (auto& d : dir) d = r.chance(0.3) ? 0.0 : r.range(-2, 2);
    Exact ex = exactJac(f, dir);
    Inner<I> inner;
    std::vector<T> vec;
    for (int k = 0; k < n; ++k) vec.push_back(T(D(f.P.x0[k])));
    std::vector<I*> in;
    for (auto& v : vec) in.push_back(&xad::value(v));
    inner.prepare(in, dir);
    const int mode = int(r.below(N_TP));
    where(tn + ":" + tpName[Mo::adj ? mode : 0]);
    {
        TapeEnv<T, Mo::adj> env(mode, r, vec, tn);
        std::function<std::vector<T>(std::vector<T>&)> foo = [&f](std::vector<T>& v) { return f(v); };
        auto before = bits(vec);
        auto unchanged = [&](const char* w) { if (!sameBits(before, bits(vec))) violation("inputs_changed:" + tn, std::string(w) + ": the inputs were changed; " + f.str().substr(0, 2000)); };
        if (r.chance(0.1))  // the function throws: nothing may stay behind
        {
            f.throwAt = f.calls + r.range(1, 3);
            bool got = false;
            try { auto M = Mo::jac(vec, foo, env.tape(), env.given()); } catch (Thrown&) { got = true; count("throwing_functions"); }
            f.throwAt = 0;
            unchanged("throwing function");
            env.after(vec, tn);
        }
        auto J = Mo::jac(vec, foo, env.tape(), env.given());
        unchanged("vector interface");
        if (Inner<I>::second)
        {
            // second order through the entries
            auto first = leaves(J);
            cmp("jacobian", tn, f, first, ex.d, ex.m, Info<T>::eps());
            std::vector<std::vector<double>> s(J.size());
            for (size_t i = 0; i < J.size(); ++i) for (auto& e : J[i]) s[i].push_back(inner.deriv(e, in, dir));
            std::vector<std::vector<double>> mm = ex.m;
            cmp("jacobian_second", tn, f, s, ex.d2, mm, Info<T>::eps() * 3);
        }
        else cmp("jacobian", tn, f, leaves(J), ex.d, ex.m, Info<T>::eps());
        env.after(vec, tn);
        auto J0 = leaves(J);
        int kinds = r.range(1, 3);
        for (int q = 0; q < kinds; ++q)
        {
            int kind = int(r.below(N_CONT)), bef = r.range(0, 2), aft = r.range(0, 2);
            where(fmt("%s:container %d", tn.c_str(), kind));
            std::vector<std::vector<double>> G;
            auto res = withRange<I>(kind, m, n, bef, aft, [&](auto a, auto b) { Mo::jac(vec, foo, a, b, env.tape(), env.given()); }, false, tn);
            G = leaves(res);
            if (!sameM(G, J0)) { cmp("jacobian_iter", tn, f, G, ex.d, ex.m, Info<T>::eps()); violation("interfaces_differ:" + tn, "iterator and vector interface (or repeated calls) give different matrices; " + f.str().substr(0, 2500)); }
            count("iterator_calls");
            unchanged("iterator interface");
            if (r.chance(0.3)) env.after(vec, tn);
        }
        if (r.chance(0.3) && !sameM(leaves(Mo::jac(vec, foo, env.tape(), env.given())), J0)) violation("repeated_call:" + tn, "a repeated call gives another matrix; " + f.str().substr(0, 2500));
        env.after(vec, tn);
        count("calls");
        count(std::string("arg_") + argName[f.argMode]);
        if (f.returnsArg) count("returns_argument");
        if (n == 0) count("no_inputs");
        if (m == 0) count("no_outputs");
        if (Mo::adj) count(std::string("tape: ") + tpName[mode]);
    }
    bool nz = false;
    for (auto& row : ex.d) for (double v : row) nz |= v != 0;
    evaluated(hashStr(f.str() + tn) + mode, nz);
    count("type " + tn);
    if (show) sample(tn + ": " + f.str().substr(0, 600));
}

template <class T>
static void hessian(Rng& r, bool show)
{
    typedef HMode<T> Mo;
    typedef typename Mo::E D;
    const bool adj = Mode<T>::adj;
    const std::string tn = "hessian:" + Info<T>::n();
    Fn f = genFn(r, sizeof(D) == 4, true);
    if (f.outs.empty()) f.outs.push_back(-1);
    if (r.chance(0.8)) f.outs[0] = f.P.outs[0];
    if (f.outs.size() > 4) f.outs.resize(4);
    if (f.returnsArg) f.returnsArg = false;
    const int n = f.n;
    Exact ex = exactHess(f);
    std::vector<T> vec;
    for (int k = 0; k < n; ++k) vec.push_back(T(D(f.P.x0[k])));
    const int mode = int(r.below(N_TP));
    if (r.chance(0.3)) for (auto& v : vec) xad::derivative(xad::value(v)) = D(r.range(-2, 2));  // tangents carried in are ignored
    where(tn + ":" + tpName[adj ? mode : 0]);
    {
        TapeEnv<T, adj> env(mode, r, vec, tn);
        std::function<T(std::vector<T>&)> foo = [&f](std::vector<T>& v) { return scalar(f, v); };
        auto before = bits(vec);
        auto unchanged = [&](const char* w) { if (!sameBits(before, bits(vec))) violation("inputs_changed:" + tn, std::string(w) + ": the inputs were changed; " + f.str().substr(0, 2000)); };
        if (n && r.chance(0.1))
        {
            f.throwAt = f.calls + r.range(1, n);
            bool got = false;
            try { auto M = Mo::hess(vec, foo, env.tape(), env.given()); } catch (Thrown&) { got = true; count("throwing_functions"); }
            f.throwAt = 0;
            if (!got) violation("throw_lost:" + tn, "an exception of the function did not come out");
            unchanged("throwing function");
            env.after(vec, tn);
        }
        auto H = Mo::hess(vec, foo, env.tape(), env.given());
        unchanged("vector interface");
        cmp("hessian", tn, f, leaves(H), ex.d, ex.m, Info<T>::eps());
        env.after(vec, tn);
        auto H0 = leaves(H);
        int kinds = r.range(1, 2);
        for (int q = 0; q < kinds; ++q)
        {
            int kind = int(r.below(N_CONT)), bef = r.range(0, 2), aft = r.range(0, 2);
            where(fmt("%s:container %d", tn.c_str(), kind));
            auto res = withRange<D>(kind, n, n, bef, aft, [&](auto a, auto b) { Mo::hess(vec, foo, a, b, env.tape(), env.given()); }, false, tn);
            auto G = leaves(res);
            if (!sameM(G, H0)) { cmp("hessian_iter", tn, f, G, ex.d, ex.m, Info<T>::eps()); violation("interfaces_differ:" + tn, "iterator and vector interface (or repeated calls) give different matrices; " + f.str().substr(0, 2500)); }
            count("iterator_calls");
            unchanged("iterator interface");
        }
        if (r.chance(0.3) && !sameM(leaves(Mo::hess(vec, foo, env.tape(), env.given())), H0)) violation("repeated_call:" + tn, "a repeated call gives another matrix; " + f.str().substr(0, 2500));
        env.after(vec, tn);
        count("calls");
        count(std::string("arg_") + argName[f.argMode]);
        if (n == 0) count("no_inputs");
        if (adj) count(std::string("tape: ") + tpName[mode]);
    }
    bool nz = false;
    for (auto& row : ex.d) for (double v : row) nz |= v != 0;
    evaluated(hashStr(f.str() + tn) + mode, nz);
    count("type " + tn);
    if (show) sample(tn + ": " + f.str().substr(0, 600));
}

// wrongly sized ranges throw OutOfRange, write nothing, and leave tape and inputs usable
template <class T, bool Hess, class Call, class Good>
static void misuse(Rng& r, const std::string& tn, std::vector<T>& vec, int rows, int cols, Call call, Good good, TapeEnv<T, Mode<T>::adj>& env)
{
    typedef typename Mode<T>::E I;
    typedef typename std::conditional<Hess, typename Info<T>::D, I>::type E;
    for (int q = 0; q < 3; ++q)
    {
        int dr = r.range(-2, 2), dc = r.range(-2, 2);
        if (rows + dr < 0) dr = 1;
        if (cols + dc < 0) dc = 1;
        // the driver looks at the columns of the first row only if there are rows to fill
        bool bad = dr != 0 || (dc != 0 && rows + dr > 0);
        if (!bad) continue;
        int kind = int(r.below(N_CONT));
        where(fmt("%s:misuse rows %d%+d columns %d%+d", tn.c_str(), rows, dr, cols, dc));
        auto before = bits(vec);
        bool thrown = false;
        withRange<E>(kind, rows + dr, cols + dc, 1, 1, [&](auto a, auto b) {
            try { call(a, b); }
            catch (const xad::OutOfRange&) { thrown = true; }
        }, true, tn);
        if (!thrown) violation("size_mismatch:" + tn, fmt("no OutOfRange for %d x %d instead of %d x %d", rows + dr, cols + dc, rows, cols));
        if (!sameBits(before, bits(vec))) violation("inputs_changed:" + tn, "inputs changed by a failed call");
        count("size_mismatches");
        env.after(vec, tn);
        if (r.chance(0.5)) good();
    }
}
template <class T>
static void jacMisuse(Rng& r)
{
    typedef Mode<T> Mo;
    typedef typename Info<T>::D D;
    const std::string tn = "jacobian:" + Info<T>::n();
    Fn f = genFn(r, sizeof(D) == 4, false);
    Exact ex = exactJac(f, std::vector<double>(f.n, 0.0));
    std::vector<T> vec;
    for (int k = 0; k < f.n; ++k) vec.push_back(T(D(f.P.x0[k])));
    TapeEnv<T, Mo::adj> env(int(r.below(N_TP)), r, vec, tn);
    std::function<std::vector<T>(std::vector<T>&)> foo = [&f](std::vector<T>& v) { return f(v); };
    misuse<T, false>(r, tn, vec, f.m(), f.n, [&](auto a, auto b) { Mo::jac(vec, foo, a, b, env.tape(), env.given()); },
                     [&] { cmp("jacobian", tn, f, leaves(Mo::jac(vec, foo, env.tape(), env.given())), ex.d, ex.m, Info<T>::eps()); }, env);
    evaluated(hashStr(f.str() + tn), true);
}
template <class T>
static void hessMisuse(Rng& r)
{
    typedef HMode<T> Mo;
    typedef typename Mo::E D;
    const std::string tn = "hessian:" + Info<T>::n();
    Fn f = genFn(r, sizeof(D) == 4, true);
    f.returnsArg = false;
    f.outs.assign(2, INPUT_BASE);
    Exact ex = exactHess(f);
    std::vector<T> vec;
    for (int k = 0; k < f.n; ++k) vec.push_back(T(D(f.P.x0[k])));
    TapeEnv<T, Mode<T>::adj> env(int(r.below(N_TP)), r, vec, tn);
    std::function<T(std::vector<T>&)> foo = [&f](std::vector<T>& v) { return scalar(f, v); };
    misuse<T, true>(r, tn, vec, f.n, f.n, [&](auto a, auto b) { Mo::hess(vec, foo, a, b, env.tape(), env.given()); },
                    [&] { cmp("hessian", tn, f, leaves(Mo::hess(vec, foo, env.tape(), env.given())), ex.d, ex.m, Info<T>::eps()); }, env);
    evaluated(hashStr(f.str() + tn), true);
}

using namespace xad;
static void oneCase(long k, Rng& r)
{
    static const bool mis = ctx().opts.count("--misuse") || ctx().opts.count("misuse");
    const bool show = k < 3;
    if (mis)
    {
        switch (k % 6)
        {
            case 0: jacMisuse<AReal<double>>(r); break;
            case 1: jacMisuse<FReal<double>>(r); break;
            case 2: hessMisuse<AReal<FReal<double>>>(r); break;
            case 3: hessMisuse<FReal<FReal<double>>>(r); break;
            case 4: jacMisuse<AReal<float>>(r); break;
            case 5: jacMisuse<FReal<float>>(r); break;
        }
        return;
    }
    switch (k % 12)
    {
        case 0: jacobian<AReal<double>>(r, show); break;
        case 1: jacobian<FReal<double>>(r, show); break;
        case 2: hessian<AReal<FReal<double>>>(r, show); break;
        case 3: hessian<FReal<FReal<double>>>(r, show); break;
        case 4: jacobian<AReal<float>>(r, show); break;
        case 5: jacobian<FReal<float>>(r, show); break;
        case 6: jacobian<AReal<FReal<double>>>(r, show); break;
        case 7: jacobian<FReal<FReal<double>>>(r, show); break;
        case 8: jacobian<AReal<AReal<double>>>(r, show); break;
        case 9: jacobian<FReal<AReal<double>>>(r, show); break;
        case 10: hessian<AReal<FReal<float>>>(r, show); break;
        case 11: hessian<FReal<FReal<float>>>(r, show); break;
    }
}
int main(int argc, char** argv) { return run(argc, argv, oneCase); }
