// Random straight-line/branching programs over a register file, interpretable with any number type.
#pragma once
#include "common.hpp"
#include "forms.hpp"
#include <numeric>

enum OpKind
{
    OP_FORM, OP_CMPD_VAR, OP_CMPD_SCALAR, OP_CMPD_INT, OP_CMPD_EXPR, OP_INCDEC, OP_COPYNEW, OP_COPYASSIGN, OP_MOVENEW,
    OP_MOVEASSIGN, OP_SWAP, OP_SETCONST, OP_NEWCONST, OP_DESTROY, OP_VECGROW, OP_BYVALUE, OP_ACCUM, OP_SORT, OP_AUTO,
    OP_BRANCH, OP_LOOP, OP_CHAIN, OP_SELFEXPR, OP_LOADINPUT, OP_INPUTMOD, OP_STRUCT, OP_TMPVEC, N_OPS
};
inline const char* opName(int k)
{
    static const char* n[] = {"form", "cmpd_var", "cmpd_scalar", "cmpd_int", "cmpd_expr", "incdec", "copynew", "copyassign", "movenew",
                              "moveassign", "swap", "setconst", "newconst", "destroy", "vecgrow", "byvalue", "accum", "sort", "auto",
                              "branch", "loop", "chain", "selfexpr", "loadinput", "inputmod", "struct", "tmpvec"};
    return n[k];
}

struct Instr
{
    int kind = 0, group = 0, form = 0, mode = 0, dst = 0, a = 0, b = 0, c = 0, i = 0, sub = 0;
    double s = 0;
    std::string str() const;
};

inline std::string Instr::str() const
{
    std::string f = opName(kind);
    if (kind == OP_FORM)
        for (auto& n : formNames(group))
            if (n.id == form) f = n.name;
    return h::fmt("r%d%s{%s}(a=%d b=%d c=%d s=%.9g i=%d/%d)", dst, mode == SK_NEW ? ":=" : "=", f.c_str(), a, b, c, s, i, sub);
}

struct Program
{
    int nIn = 1;
    std::vector<double> x0;
    std::vector<Instr> code;
    std::vector<int> outs;
    std::string str() const
    {
        std::string r = "in:";
        for (double v : x0) r += h::fmt(" %.17g", v);
        for (auto& c : code) r += "; " + c.str();
        r += "; out:";
        for (int o : outs) r += h::fmt(" r%d", o);
        return r;
    }
};

const int NREG = 8;
const int INPUT_BASE = 100;

template <class T>
struct PairS
{
    T first, second;
};

// compound assignment with scalars and ++/-- do not compile for nested AD types: use the type itself there
template <class T, bool = std::is_same<typename NestedF<T>::type, typename xad::ExprTraits<T>::scalar_type>::value || !xad::ExprTraits<T>::isExpr>
struct Sc
{
    typedef typename NestedF<T>::type S;
    static S sc(S s) { return s; }
    static int sc(int i) { return i; }
    static void inc(T& x) { ++x; }
    static void dec(T& x) { --x; }
    static T pinc(T& x) { return x++; }
    static T pdec(T& x) { return x--; }
};
template <class T>
struct Sc<T, false>
{
    typedef typename NestedF<T>::type S;
    static T sc(S s) { return T(s); }
    static T sc(int s) { return T(S(s)); }
    static void inc(T& x) { x = x + S(1); }
    static void dec(T& x) { x = x - S(1); }
    static T pinc(T& x) { T o = x; x = x + S(1); return o; }
    static T pdec(T& x) { T o = x; x = x - S(1); return o; }
};

template <class T>
T byValue(T x, typename NestedF<T>::type s)
{
    x *= Sc<T>::sc(s);
    x += x;
    return x;
}

template <class T>
struct State
{
    typedef typename NestedF<T>::type S;
    std::vector<std::unique_ptr<T>> reg;
    std::vector<T> x;
    int io = 0;
    S fo = 0;
    State() : reg(NREG) {}
    State(State&&) = default;
    State& operator=(State&&) = default;
    bool alive(int r) const { return r >= INPUT_BASE ? r - INPUT_BASE < int(x.size()) : bool(reg[r]); }
    const T& get(int r) const { return r >= INPUT_BASE ? x[r - INPUT_BASE] : *reg[r]; }
    T& mut(int r) { return r >= INPUT_BASE ? x[r - INPUT_BASE] : *reg[r]; }

    void exec(const Instr& in)
    {
        using namespace std;
        const S s = S(in.s);
        auto& D = reg[in.dst < NREG ? in.dst : 0];
        switch (in.kind)
        {
            case OP_FORM:
            {
                FormArgs<T> fa = {get(in.a), get(in.b), get(in.c), s, in.i, &io, &fo};
                NewSink<T> k = {&D, in.mode};
                if (!formDispatch<T>(in.group, in.form, fa, k)) h::harnessError("unknown form");
                break;
            }
            case OP_CMPD_VAR:
                if (in.sub == 0) *D += get(in.a);
                else if (in.sub == 1) *D -= get(in.a);
                else if (in.sub == 2) *D *= get(in.a);
                else *D /= get(in.a);
                break;
            case OP_CMPD_SCALAR:
                if (in.sub == 0) *D += Sc<T>::sc(s);
                else if (in.sub == 1) *D -= Sc<T>::sc(s);
                else if (in.sub == 2) *D *= Sc<T>::sc(s);
                else *D /= Sc<T>::sc(s);
                break;
            case OP_CMPD_INT:
                if (in.sub == 0) *D += Sc<T>::sc(in.i);
                else if (in.sub == 1) *D -= Sc<T>::sc(in.i);
                else if (in.sub == 2) *D *= Sc<T>::sc(in.i);
                else *D /= Sc<T>::sc(in.i);
                break;
            case OP_CMPD_EXPR:
                if (in.sub == 0) *D += get(in.a) * get(in.b);
                else if (in.sub == 1) *D -= sin(get(in.a)) + get(in.b);
                else if (in.sub == 2) *D *= get(in.a) - get(in.b) * s;
                else *D /= get(in.a) * get(in.a) + s * s + S(1);
                break;
            case OP_INCDEC:
                if (in.sub == 0) Sc<T>::inc(*D);
                else if (in.sub == 1) Sc<T>::dec(*D);
                else if (in.sub == 2) { T old = Sc<T>::pinc(*D); *D = *D * old; }
                else { T old = Sc<T>::pdec(*D); *D = *D - old * s; }
                break;
            case OP_COPYNEW: D.reset(new T(get(in.a))); break;
            case OP_COPYASSIGN: *D = get(in.a); break;
            case OP_MOVENEW:
                if (in.a != in.dst) { D.reset(new T(std::move(*reg[in.a]))); reg[in.a].reset(); }
                break;
            case OP_MOVEASSIGN:
                if (in.a != in.dst)
                {
                    *D = std::move(*reg[in.a]);
                    if (in.sub & 1) *reg[in.a] = s;
                    else reg[in.a].reset();
                }
                break;
            case OP_SWAP: std::swap(*D, *reg[in.a]); break;
            case OP_SETCONST: *D = s; break;
            case OP_NEWCONST: D.reset(new T(s)); break;
            case OP_DESTROY: D.reset(); break;
            case OP_VECGROW:
            {
                std::vector<T> v;
                for (int k = 0; k < 3 + in.i; ++k)
                {
                    v.push_back(get(k % 3 == 0 ? in.a : k % 3 == 1 ? in.b : in.c));
                    v.back() *= Sc<T>::sc(S(k + 1));
                }
                v.erase(v.begin() + (in.sub % int(v.size())));
                v.insert(v.begin() + 1, get(in.a) * s);
                T sum = v[0];
                for (size_t k = 1; k < v.size(); ++k) sum += v[k] * S(k);
                *D = sum;
                break;
            }
            case OP_BYVALUE: *D = byValue(get(in.a), s); break;
            case OP_ACCUM:
            {
                std::vector<T> v = {get(in.a), get(in.b), get(in.c)}, w = {get(in.c), get(in.a), get(in.a)};
                if (in.sub == 0) *D = std::accumulate(v.begin(), v.end(), T(s));
                else if (in.sub == 1) *D = std::inner_product(v.begin(), v.end(), w.begin(), T(S(0)));
                else
                {
                    std::partial_sum(v.begin(), v.end(), w.begin());
                    *D = w[2] * w[1] - w[0];
                }
                break;
            }
            case OP_SORT:
            {
                std::vector<T> v = {get(in.a), get(in.b), get(in.c), get(in.a) + s};
                std::sort(v.begin(), v.end());
                *D = v[0] + S(2) * v[1] + S(3) * v[2] - v[3];
                break;
            }
            case OP_AUTO:
            {
                auto e = get(in.a) * get(in.b) + s;
                auto f = e * get(in.c);
                if (in.sub & 1) *D = e + f;
                else D.reset(new T(f - e));
                break;
            }
            case OP_BRANCH:
                if (get(in.a) < get(in.b)) *D = get(in.a) * s;
                else if (get(in.b) >= s) *D = get(in.b) - get(in.a) * s;
                else *D = get(in.c) / S(2) + get(in.b);
                break;
            case OP_LOOP:
                for (int k = 0; k < in.i; ++k) *D = *D * S(0.5) + get(in.a) * s;
                break;
            case OP_CHAIN:
                if (in.a < NREG && in.a != in.dst) *D = *reg[in.a] = get(in.b) * s + get(in.c);
                break;
            case OP_SELFEXPR:
                if (in.sub == 0) *D = *D * *D + *D;
                else if (in.sub == 1) *D = get(in.a) - *D;
                else if (in.sub == 2) *D = -*D;
                else *D = *D / (*D * *D + S(1)) + get(in.a) * *D;
                break;
            case OP_LOADINPUT: *D = x[in.a - INPUT_BASE]; break;
            case OP_INPUTMOD:  // overwrite an input in place (never by move)
            {
                T& X = x[in.a - INPUT_BASE];
                if (in.sub == 0) X *= get(in.b);
                else if (in.sub == 1) X = X * s + get(in.b);
                else if (in.sub == 2) X += get(in.b) * s;
                else X = get(in.b) - X;
                break;
            }
            case OP_STRUCT:
            {
                PairS<T> p = {get(in.a), get(in.b)}, q = p;
                q.first *= p.second;
                p = q;
                std::swap(p.first, p.second);
                PairS<T> r2 = std::move(p);
                *D = r2.first - r2.second * s;
                break;
            }
            case OP_TMPVEC:
            {
                std::vector<T> v(3, get(in.a));
                v[1] = get(in.b);
                v.resize(4 + in.i, get(in.c));
                std::rotate(v.begin(), v.begin() + 1, v.end());
                std::reverse(v.begin(), v.end());
                std::vector<T> w(v);
                w[0] *= v[1];
                v = w;
                v.pop_back();
                *D = v[0] * s - v[1] + v.back();
                break;
            }
        }
    }
};

// ---- generation --------------------------------------------------------------------------------
struct GenLimits
{
    double minKink = 1e-3, maxMag = 200, maxMajorant = 1e7;
    int minLen = 3, maxLen = 30;
    int maxIn = 5;
    bool noKinks = false;   // reject piecewise forms' kink neighbourhood more strictly
    bool noInputMod = false;     // inputs are never overwritten in place
    bool specialPoints = false;  // exact zeros / ones among the inputs
};

inline State<ref::R> cloneR(const State<ref::R>& s)
{
    State<ref::R> r;
    for (int k = 0; k < NREG; ++k) if (s.reg[k]) r.reg[k].reset(new ref::R(*s.reg[k]));
    r.x = s.x;
    return r;
}

inline bool okR(const State<ref::R>& s, const GenLimits& L)
{
    auto chk = [&](const ref::R& v) {
        for (int i = 0; i < 8; ++i)
            if (!(std::fabs(double(v.c[i])) <= 1e12) || !(double(v.m[i]) <= L.maxMajorant)) return false;
        return std::fabs(double(v.c[0])) <= L.maxMag;
    };
    for (auto& p : s.reg) if (p && !chk(*p)) return false;
    for (auto& v : s.x) if (!chk(v)) return false;
    return true;
}

inline double pickConst(h::Rng& r)
{
    static const double nice[] = {0.5, 1, 2, 3, -1, -2, 0.25, 1.5, -0.75, 4, 10, 0.125};
    if (r.chance(0.5)) return nice[r.below(sizeof nice / sizeof *nice)];
    return double(float(r.uni(-4, 4)));
}

inline Instr randomInstr(h::Rng& r, const State<ref::R>& st, int nIn)
{
    Instr in;
    std::vector<int> live;
    for (int k = 0; k < NREG; ++k) if (st.reg[k]) live.push_back(k);
    auto operand = [&]() -> int {
        if (live.empty() || r.chance(0.25)) return INPUT_BASE + int(r.below(nIn));
        return live[r.below(live.size())];
    };
    auto liveReg = [&]() -> int { return live.empty() ? -1 : live[r.below(live.size())]; };
    static const int weights[N_OPS] = {40, 6, 3, 3, 5, 3, 4, 5, 3, 4, 3, 3, 2, 4, 3, 3, 3, 2, 3, 4, 2, 2, 5, 2, 3, 2, 3};
    int tot = 0;
    for (int w : weights) tot += w;
    int p = int(r.below(tot)), kind = 0;
    while (p >= weights[kind]) p -= weights[kind++];
    in.kind = kind;
    in.a = operand(); in.b = operand(); in.c = operand();
    in.s = pickConst(r);
    in.i = r.range(-3, 5);
    in.sub = int(r.below(4));
    in.mode = SK_ASSIGN;
    in.dst = int(r.below(NREG));
    bool dstLive = bool(st.reg[in.dst]);
    auto need = [&]() { if (!dstLive) { int l = liveReg(); if (l < 0) { in.kind = OP_COPYNEW; } else in.dst = l; } };
    switch (kind)
    {
        case OP_FORM:
        {
            in.group = int(r.below(N_GROUPS));
            auto& n = formNames(in.group);
            in.form = n[r.below(n.size())].id;
            in.mode = (!dstLive || r.chance(0.35)) ? SK_NEW : SK_ASSIGN;
            break;
        }
        case OP_COPYNEW: case OP_NEWCONST: break;
        case OP_AUTO: if (!dstLive) in.sub = 0; break;
        case OP_MOVENEW: case OP_MOVEASSIGN: case OP_SWAP:
        {
            if (kind != OP_MOVENEW) need();
            int l = liveReg();
            if (l < 0) { in.kind = OP_COPYNEW; break; }
            in.a = l;
            break;
        }
        case OP_LOADINPUT: need(); in.a = INPUT_BASE + int(r.below(nIn)); break;
        case OP_INPUTMOD: in.a = INPUT_BASE + int(r.below(nIn)); break;
        case OP_VECGROW: case OP_TMPVEC: need(); in.i = r.range(0, 6); in.sub = int(r.below(32)); break;
        case OP_LOOP: need(); in.i = r.range(1, 5); break;
        default: need(); break;
    }
    if (in.kind == OP_COPYNEW) in.a = operand();
    return in;
}

// generates a program that stays inside the limits at its evaluation point
inline Program genProgram(h::Rng& r, const GenLimits& L)
{
    Program P;
    P.nIn = r.range(1, L.maxIn);
    State<ref::R> st;
    for (int k = 0; k < P.nIn; ++k)
    {
        double v = double(float(r.uni(-2.5, 2.5)));
        if (L.specialPoints && r.chance(0.35)) v = r.chance(0.7) ? 0.0 : (r.chance(0.5) ? 1.0 : -1.0);
        P.x0.push_back(v);
        ref::R X(v);
        for (int b = 0; b < 3; ++b) { X.c[1 << b] = 1; X.m[1 << b] = 1; }
        st.x.push_back(X);
    }
    int len = r.range(L.minLen, L.maxLen), tries = 0;
    for (int k = 0, n = r.range(0, 4); k < n; ++k)
    {
        Instr in;
        in.kind = OP_COPYNEW;
        in.a = INPUT_BASE + int(r.below(P.nIn));
        in.dst = int(r.below(NREG));
        st.exec(in);
        P.code.push_back(in);
        ++len;
    }
    while (int(P.code.size()) < len && tries++ < len * 12)
    {
        Instr in = randomInstr(r, st, P.nIn);
        if (L.noInputMod && in.kind == OP_INPUTMOD) continue;
        State<ref::R> nx = cloneR(st);
        ref::reset();
        nx.exec(in);
        if (double(ref::kink()) < L.minKink || double(ref::big()) > L.maxMag * 5 || !(double(ref::big()) < 1e30)) continue;
        if (!okR(nx, L)) continue;
        st = std::move(nx);
        P.code.push_back(in);
    }
    std::vector<int> live;
    for (int k = 0; k < NREG; ++k) if (st.reg[k]) live.push_back(k);
    if (live.empty())
    {
        Instr in;
        in.kind = OP_COPYNEW;
        in.a = INPUT_BASE;
        in.dst = 0;
        st.exec(in);
        P.code.push_back(in);
        live.push_back(0);
    }
    if (r.chance(0.9))  // prefer outputs that depend on the inputs
    {
        std::vector<int> dep;
        for (int k : live)
            if (!ref::isConst(*st.reg[k])) dep.push_back(k);
        if (dep.empty())
        {
            Instr in;
            in.kind = OP_CMPD_EXPR;
            in.a = INPUT_BASE + int(r.below(P.nIn));
            in.dst = live[0];
            in.b = in.a;
            in.sub = 1;
            P.code.push_back(in);
        }
        else live = dep;
    }
    int nOut = r.range(1, 3);
    for (int k = 0; k < nOut; ++k) P.outs.push_back(live[r.below(live.size())]);
    std::sort(P.outs.begin(), P.outs.end());
    P.outs.erase(std::unique(P.outs.begin(), P.outs.end()), P.outs.end());
    return P;
}

template <class T>
void execAll(State<T>& st, const Program& P)
{
    for (auto& in : P.code) st.exec(in);
}

// reference run with input directions: dir[b][k] = component k of direction b
inline State<ref::R> runRef(const Program& P, const std::vector<std::vector<double>>& dir)
{
    State<ref::R> st;
    for (int k = 0; k < P.nIn; ++k)
    {
        ref::R X(P.x0[k]);
        for (size_t b = 0; b < dir.size(); ++b) { X.c[1 << b] = dir[b][k]; X.m[1 << b] = std::fabs(dir[b][k]); }
        st.x.push_back(X);
    }
    execAll(st, P);
    return st;
}
inline std::vector<double> unitDir(int n, int k)
{
    std::vector<double> d(n, 0.0);
    d[k] = 1;
    return d;
}
