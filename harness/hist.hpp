// Histories of public calls on variables and one tape: operations, reference model (identity based,
// no slots), generator of valid histories. The engine executing them on XAD is in histeng.cpp.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

namespace hist
{
#define HIST_CODES(X)                                                                                                                                     \
    X(NEW) X(NEWREG) X(REG) X(REGOUT) X(REGALL) X(COPYC) X(MOVEC) X(EXPRC) X(DEL) X(ASG) X(MASG) X(ASGK) X(ASGX) X(CMPK) X(CMPV) X(CMPX) X(INC) X(SWAP) X(FN) \
    X(VPUSH) X(VPUSHX) X(VINS) X(VERASE) X(VRESIZE) X(VCLEAR) X(VROT) X(VREV) X(VSORT) X(VSWAP) X(VCOPY) X(VSHRINK) X(WIPE)                                \
    X(NEWREC) X(CLEARALL) X(CLEARDER) X(SEED) X(SEEDADD) X(SWEEP) X(GETPOS) X(SWEEPTO) X(RESET) X(CLRAFTER) X(DEACT) X(ACT) X(TMOVE) X(TMASG)               \
    X(READ) X(READALL) X(COUNTS) X(PROBE) X(CKPT) X(PUSHCB) X(POPCB) X(M_ACTIVE) X(M_SWEEP) X(M_SLOT) X(M_INCR) X(M_CBEMPTY) X(M_NOTAPE)
enum Code {
#define X(a) a,
    HIST_CODES(X)
#undef X
    NCODES
};
inline const char* codeName(int c)
{
    static const char* n[] = {
#define X(a) #a,
        HIST_CODES(X)
#undef X
    };
    return n[c];
}

struct Seg;
typedef std::shared_ptr<Seg> SegP;
struct SInstr { int form, a, b; double k; int dst; SegP seg; std::vector<int> ins; };
struct Seg { int id = 0, kind = 0, nin = 0, nout = 0; bool owned = false; std::vector<SInstr> prog; };

struct Op
{
    Code c = NEW;
    int a = 0, b = 0, s = 0;  // references / indices
    int form = 0;
    double k = 0;
    std::vector<int> ins, outs;  // checkpoint inputs (references) and output cells
    SegP seg;
    std::string str() const
    {
        std::string o = std::string(codeName(c)) + h::fmt("(a=%d b=%d s=%d f=%d k=%g", a, b, s, form, k);
        for (int i : ins) o += h::fmt(" i%d", i);
        for (int i : outs) o += h::fmt(" o%d", i);
        return o + (seg ? h::fmt(" seg%d kind%d%s)", seg->id, seg->kind, seg->owned ? " owned" : "") : std::string(")"));
    }
};

enum Kind { VALUE, REGD, ADJ, NVARS, NSTMT, NOPS, POS, EXC, ACTIVE, NCB, CBCALL, OUTADJ, LASTCB };
inline const char* kindName(int k)
{
    static const char* n[] = {"value", "registered", "adjoint", "variable-count", "statement-count", "operation-count", "position", "exception", "active", "callback-count", "callback-call", "output-adjoint", "last-callback"};
    return n[k];
}
enum Exc { NOEXC, EX_ACTIVE, EX_NOINIT, EX_RANGE, EX_NOTAPE, EX_OTHER };

struct Obs { int op, kind, ref; double v, tol; };
struct Log
{
    std::vector<Obs> o;
    std::vector<std::pair<std::string, std::string>> fails;  // direct violations: key, detail
    int op = 0;
    long slotChecks = 0, probes = 0;
    void add(int kind, int ref, double v, double tol = 0) { o.push_back({op, kind, ref, v, tol}); }
    void fail(const std::string& k, const std::string& d) { fails.push_back({k, h::fmt("op %d: ", op) + d}); }
};

// ---------------------------------------------------------------- expression forms
template <class D>
struct Du
{
    D v, d;
    Du(D a = 0, D b = 0) : v(a), d(b) {}
    friend Du operator+(Du a, Du b) { return Du(a.v + b.v, a.d + b.d); }
    friend Du operator-(Du a, Du b) { return Du(a.v - b.v, a.d - b.d); }
    friend Du operator*(Du a, Du b) { return Du(a.v * b.v, a.d * b.v + a.v * b.d); }
    friend Du operator/(Du a, Du b) { return Du(a.v / b.v, (a.d - a.v / b.v * b.d) / b.v); }
    friend Du operator-(Du a) { return Du(-a.v, -a.d); }
    friend Du sin(Du a) { return Du(std::sin(a.v), a.d * std::cos(a.v)); }
    friend Du tanh(Du a) { D t = std::tanh(a.v); return Du(t, a.d * (1 - t * t)); }
    friend Du exp(Du a) { D t = std::exp(a.v); return Du(t, a.d * t); }
    friend Du sqrt(Du a) { D t = std::sqrt(a.v); return Du(t, a.d / (2 * t)); }
};
static const int NFORMS = 16;
// number of occurrences of a and b
inline void formUses(int f, int& na, int& nb)
{
    static const int u[NFORMS][2] = {{1, 1}, {1, 1}, {1, 1}, {1, 0}, {1, 0}, {1, 2}, {1, 1}, {2, 0}, {2, 0}, {2, 2}, {2, 2}, {2, 0}, {1, 1}, {1, 0}, {1, 1}, {1, 1}};
    na = u[f][0];
    nb = u[f][1];
}
template <class T, class K, class U>
void form(int f, const T& a, const T& b, K k, U&& use)
{
    using std::exp; using std::sin; using std::sqrt; using std::tanh;
    switch (f)
    {
        case 0: use(a + b); break;
        case 1: use(a - b); break;
        case 2: use(a * b * K(0.25)); break;
        case 3: use(a * k); break;
        case 4: use(k - a); break;
        case 5: use(a / (b * b + K(2))); break;
        case 6: use(sin(a) + b); break;
        case 7: use(exp(-(a * a))); break;
        case 8: use(a * a); break;
        case 9: use(a * k + b * K(0.5) - a * b * K(0.125)); break;
        case 10: use((a + b) * (a - b) * K(0.125)); break;
        case 11: use(sqrt(a * a + K(1))); break;
        case 12: use(tanh(a) * b); break;
        case 13: use(-a); break;
        case 14: use(b * K(0) + a); break;
        case 15: use(K(0.5) * (a + b)); break;
    }
}

// run a segment: l holds the inputs and receives the locals; the outputs are the last nout ones
template <class T, class K, class Inner>
void segRun(const Seg& s, std::vector<T>& l, Inner&& inner)
{
    for (auto& in : s.prog)
    {
        if (in.seg) { inner(*in.seg, l, in.ins); continue; }
        if (in.dst < 0)
            form(in.form, l[in.a], l[in.b], K(in.k), [&](const auto& e) { T t(e); l.push_back(t); });
        else
            form(in.form, l[in.a], l[in.b], K(in.k), [&](const auto& e) { l[in.dst] = e; });
    }
}
// plain evaluation, nested segments inlined
template <class T, class K>
void segEval(const Seg& s, std::vector<T>& l)
{
    segRun<T, K>(s, l, [](const Seg& in, std::vector<T>& l, const std::vector<int>& ins) {
        std::vector<T> m;
        for (int i : ins) m.push_back(l[i]);
        segEval<T, K>(in, m);
        for (int q = 0; q < in.nout; ++q) l.push_back(m[m.size() - in.nout + q]);
    });
}

static const int NCELL = 14;
// ---------------------------------------------------------------- model
template <class D>
struct Model
{
    struct V { bool live = false, reg = false, moved = false; long id = -1; D val = 0; };
    struct Id { long regPos; bool alive, stale; D adj, maj; long deathPos; bool oor; };  // oor: not accessible after clearDerivativesAfter until the next sweep
    struct Rhs { long id; D p; };
    struct Stmt { long lhs; std::vector<Rhs> rhs; int nops; int cb; };
    struct Cb { SegP seg; std::vector<long> ins, outs; std::vector<std::vector<D>> J; int kill; };
    V cell[NCELL];
    std::vector<V> vec[2];
    std::vector<Id> ids;
    std::vector<Stmt> st;
    std::vector<Cb> cbs;
    std::vector<long> pos;      // usable positions
    std::vector<int> owned;     // segment ids on the tape's stack
    std::vector<int> loose;     // popped or never pushed
    bool init = false, active = true;
    bool plain = true;  // element type is a plain floating-point number
    int nreg = 0, peak = 0, regsEver = 0, regsEver0 = 0;  // regsEver0: total number of registrations
    long minSwept = 1L << 60;
    Log log;
    long sweeps = 0, nonzeroAdj = 0, cbCalls = 0, cbKills = 0, recorded = 0, passiveOps = 0;

    Model() { st.push_back({-1, {}, 0, -1}); }
    static D atol() { return 0; }
    static double rel() { return sizeof(D) == 8 ? 1e-12 : 2e-5; }

    V& at(int r) { return r < 100 ? cell[r] : vec[r / 100 - 1][r % 100]; }
    std::vector<int> refs()
    {
        std::vector<int> o;
        for (int i = 0; i < NCELL; ++i) if (cell[i].live) o.push_back(i);
        for (int q = 0; q < 2; ++q) for (size_t i = 0; i < vec[q].size(); ++i) o.push_back(100 * (q + 1) + int(i));
        return o;
    }
    bool stale(const V& v) { return v.reg && ids[v.id].stale; }
    bool usable(int r) { V& v = at(r); return v.live && !v.moved && !stale(v); }
    bool pendingDead() { for (auto& i : ids) if (!i.alive && i.maj != 0) return true; return false; }
    bool canRecord() { return active && !pendingDead(); }
    bool noCallbacks() { for (auto& s : st) if (s.cb >= 0) return false; return true; }
    bool canSweep()
    {
        if (!init) return false;
        for (auto& i : ids) if (!i.alive && i.maj != 0 && i.deathPos < long(st.size()) - 1) return false;
        return true;
    }
    bool readable(int r)
    {
        V& v = at(r);
        if (!usable(r)) return false;
        return !v.reg || (!ids[v.id].oor && (ids[v.id].regPos <= minSwept || !pendingDead()));
    }
    void give(V& v)  // new identity
    {
        v.reg = true;
        v.id = long(ids.size());
        ids.push_back({long(st.size()), true, false, 0, 0, -1, false});
        ++nreg; ++regsEver; ++regsEver0;
        peak = std::max(peak, nreg);
    }
    void kill(V& v)
    {
        if (v.live && v.reg) { ids[v.id].alive = false; ids[v.id].deathPos = long(st.size()) - 1; --nreg; }
        v = V();
    }
    void push(V& lhs, const std::vector<std::pair<const V*, D>>& rhs, int nops)
    {
        if (!lhs.reg) give(lhs);
        else ids[lhs.id].stale ? (ids[lhs.id].stale = false, ids[lhs.id].regPos = long(st.size()), 0) : 0;
        Stmt s{lhs.id, {}, nops, -1};
        for (auto& r : rhs) if (r.first->reg) s.rhs.push_back({r.first->id, r.second});
        st.push_back(s);
        ++recorded;
    }
    struct Ev { D v, da, db; int na, nb; };
    Ev ev(int f, D a, D b, double k)
    {
        Ev e;
        form(f, a, b, D(k), [&](D x) { e.v = x; });
        form(f, Du<D>(a, 1), Du<D>(b, 0), D(k), [&](Du<D> x) { e.da = x.d; });
        form(f, Du<D>(a, 0), Du<D>(b, 1), D(k), [&](Du<D> x) { e.db = x.d; });
        formUses(f, e.na, e.nb);
        return e;
    }
    // dst = form(x, y), also if dst is one of them
    void assign(V& dst, const V& x0, const V& y0, int f, double k)
    {
        V x = x0, y = y0;
        Ev e = ev(f, x.val, y.val, k);
        int n = (x.reg ? e.na : 0) + (y.reg ? e.nb : 0);
        if (n || dst.reg) push(dst, {{&x, e.na ? e.da : D(0)}, {&y, e.nb ? e.db : D(0)}}, n);
        else ++passiveOps;
        dst.val = e.v;
        dst.moved = false;
        dst.live = true;
    }
    void setK(V& dst, D v)
    {
        if (dst.reg) push(dst, {}, 0);
        dst.val = v;
        dst.moved = false;
        dst.live = true;
    }
    V copyOf(const V& x)
    {
        V n;
        n.live = true;
        n.val = x.val;
        if (x.reg) push(n, {{&x, D(1)}}, 1);
        return n;
    }
    void truncate(long p)
    {
        if (p >= long(st.size()) - 1) return;
        st.resize(p + 1);
        for (auto& i : ids)
        {
            if (i.alive && i.regPos > p) i.stale = true;
            if (!i.alive) i.deathPos = std::min(i.deathPos, p);
        }
        while (!pos.empty() && pos.back() > p) pos.pop_back();
    }
    // compound assignment: which = 0..3 for + - * /
    Ev compound(int which, D a, D b)
    {
        Ev e;
        e.na = e.nb = 1;
        switch (which)
        {
            case 0: e.v = a + b; e.da = 1; e.db = 1; break;
            case 1: e.v = a - b; e.da = 1; e.db = -1; break;
            case 2: e.v = a * b; e.da = b; e.db = a; break;
            default: e.v = a / b; e.da = 1 / b; e.db = -a / (b * b); break;
        }
        return e;
    }
    void cmpK(V& x, int which, D k)
    {
        V o = x;
        Ev e = compound(which, x.val, k);
        if (x.reg && !(plain && which < 2)) push(x, {{&o, e.da}}, 1);  // adding a constant records nothing
        x.val = e.v;
    }
    void inc(V& x, int f)
    {
        V o = x;
        if (plain && f >= 2) { V t = copyOf(x); x.val += f & 1 ? -1 : 1; if (x.reg) push(x, {{&o, D(1)}}, 1); kill(t); return; }
        x.val += f & 1 ? -1 : 1;
        if (x.reg) push(x, {{&o, D(1)}}, 1);
    }
    void cmpV(V& x, int which, const V& y0)
    {
        V o = x, y = y0;
        Ev e = compound(which, x.val, y.val);
        int n = (o.reg ? 1 : 0) + (y.reg ? 1 : 0);
        if (n) push(x, {{&o, e.da}, {&y, e.db}}, n);
        x.val = e.v;
    }
    // x op= form(y, z)
    void cmpX(V& x, int which, const V& y0, const V& z0, int f, double k)
    {
        V o = x, y = y0, z = z0;
        Ev g = ev(f, y.val, z.val, k);
        Ev e = compound(which, x.val, g.v);
        int n = (o.reg ? 1 : 0) + (y.reg ? g.na : 0) + (z.reg ? g.nb : 0);
        if (n) push(x, {{&o, e.da}, {&y, g.na ? D(e.db * g.da) : D(0)}, {&z, g.nb ? D(e.db * g.db) : D(0)}}, n);
        x.val = e.v;
    }
    void observeVar(int r)
    {
        V& v = at(r);
        if (v.moved) return;
        log.add(VALUE, r, double(v.val), rel() * (1 + std::fabs(double(v.val))));
        log.add(REGD, r, v.reg);
    }
    void observeAdj(int r)
    {
        V& v = at(r);
        if (v.reg) init = true;
        D a = v.reg ? ids[v.id].adj : D(0), m = v.reg ? ids[v.id].maj : D(0);
        if (a != 0) ++nonzeroAdj;
        log.add(ADJ, r, double(a), rel() * double(m));
    }
    void counts()
    {
        log.add(NVARS, -1, nreg);
        long o = 0;
        for (auto& s : st) o += s.nops;
        log.add(NSTMT, -1, double(st.size() - 1));
        log.add(NOPS, -1, double(o));
        log.add(POS, -1, double(st.size() - 1));
        log.add(ACTIVE, -1, active);
        log.add(NCB, -1, double(owned.size()));
    }
    void add(long id, D x) { ids[id].adj += x; ids[id].maj += std::fabs(x); }
    void sweepTo(long p)
    {
        ++sweeps;
        for (auto& i : ids) i.oor = false;
        for (long i = long(st.size()) - 1; i > p; --i)
        {
            if (st[i].cb >= 0)
            {
                Cb& c = cbs[st[i].cb];
                ++cbCalls;
                log.add(CBCALL, c.seg->id, 0);
                std::vector<D> a;
                std::vector<D> m;
                for (long o : c.outs)
                {
                    a.push_back(ids[o].adj);
                    m.push_back(ids[o].maj);
                    log.add(OUTADJ, c.seg->id, double(ids[o].adj), rel() * double(ids[o].maj));
                    ids[o].adj = ids[o].maj = 0;
                }
                for (size_t q = 0; q < c.outs.size(); ++q)
                    for (size_t j = 0; j < c.ins.size(); ++j)
                    {
                        ids[c.ins[j]].adj += c.J[q][j] * a[q];
                        ids[c.ins[j]].maj += 4 * std::fabs(c.J[q][j]) * m[q] + std::fabs(a[q]);
                    }
                truncate(i - 1);
                if (c.kill >= 0) { if (cell[c.kill].live) ++cbKills; kill(cell[c.kill]); }
                continue;
            }
            if (st[i].lhs < 0) continue;
            D a = ids[st[i].lhs].adj, m = ids[st[i].lhs].maj;
            ids[st[i].lhs].adj = ids[st[i].lhs].maj = 0;
            for (auto& r : st[i].rhs)
            {
                ids[r.id].adj += r.p * a;
                ids[r.id].maj += (std::fabs(r.p) + D(0.05)) * m;
            }
        }
        minSwept = std::min(minSwept, p);
    }
    void clearAdj()
    {
        for (auto& i : ids) i.adj = i.maj = 0;
        init = false;
        minSwept = 1L << 60;
    }
    void newRec()
    {
        st.clear();
        st.push_back({-1, {}, 0, -1});
        pos.clear();
        clearAdj();
        for (auto& i : ids) { i.regPos = 0; i.stale = i.oor = false; i.deathPos = 0; }
    }
    D maxAdj() { D m = 0; for (auto& i : ids) m = std::max(m, i.maj); return m; }

    void apply(const Op& o, int opIdx)
    {
        log.op = opIdx;
        switch (o.c)
        {
            case NEW: { V v; v.live = true; v.val = D(o.k); cell[o.a] = v; break; }
            case NEWREG: { V v; v.live = true; v.val = D(o.k); push(v, {}, 0); cell[o.a] = v; break; }
            case REG: case REGOUT: { V& v = at(o.a); if (!v.reg) push(v, {}, 0); break; }
            case REGALL: for (auto& v : vec[o.a]) if (!v.reg) push(v, {}, 0); break;
            case COPYC: { V n = copyOf(at(o.b)); cell[o.a] = n; break; }
            case MOVEC: { V& s = at(o.b); cell[o.a] = s; s.reg = false; s.id = -1; s.moved = true; break; }
            case EXPRC: { V n; assign(n, at(o.b), at(o.s), o.form, o.k); cell[o.a] = n; break; }
            case DEL: kill(cell[o.a]); break;
            case ASG: { V& d = at(o.a); V s = at(o.b); if (d.reg || s.reg) push(d, {{&s, D(1)}}, s.reg ? 1 : 0); d.val = s.val; d.moved = false; break; }
            case MASG: { V &d = at(o.a), &s = at(o.b); if (&d == &s) break; V t = d; d = s; s = t; s.moved = true; break; }
            case ASGK: setK(at(o.a), D(o.k)); break;
            case ASGX: assign(at(o.a), at(o.b), at(o.s), o.form, o.k); break;
            case CMPK: cmpK(at(o.a), o.form, D(o.k)); break;
            case CMPV: cmpV(at(o.a), o.form, at(o.b)); break;
            case CMPX: cmpX(at(o.a), o.form % 4, at(o.b), at(o.s), o.form / 4, o.k); break;
            case INC: inc(at(o.a), o.form); break;
            case SWAP: { V t = at(o.a); at(o.a) = at(o.b); at(o.b) = t; break; }
            case FN:
            {
                V a = copyOf(at(o.b)), b = copyOf(at(o.s)), t;
                assign(t, a, b, 2, 0);
                cmpV(t, 0, a);
                kill(a); kill(b);
                cell[o.a] = t;
                break;
            }
            case VPUSH: { V n = copyOf(at(o.b)); vec[o.a].push_back(n); break; }
            case VPUSHX: { V n; assign(n, at(o.b), at(o.s), o.form, o.k); vec[o.a].push_back(n); break; }
            case VINS: { V n = copyOf(at(o.b)); vec[o.a].insert(vec[o.a].begin() + o.s, n); break; }
            case VERASE: kill(vec[o.a][o.s]); vec[o.a].erase(vec[o.a].begin() + o.s); break;
            case VRESIZE:
                while (int(vec[o.a].size()) > o.s) { kill(vec[o.a].back()); vec[o.a].pop_back(); }
                while (int(vec[o.a].size()) < o.s) { V v; v.live = true; vec[o.a].push_back(v); }
                break;
            case VCLEAR: for (auto& v : vec[o.a]) kill(v); vec[o.a].clear(); break;
            case VROT: std::rotate(vec[o.a].begin(), vec[o.a].begin() + o.s, vec[o.a].end()); break;
            case VREV: std::reverse(vec[o.a].begin(), vec[o.a].end()); break;
            case VSORT: std::stable_sort(vec[o.a].begin(), vec[o.a].end(), [](const V& x, const V& y) { return x.val < y.val; }); break;
            case VSWAP: vec[0].swap(vec[1]); break;
            case VCOPY:
            {
                std::vector<V> n;
                for (auto& v : vec[1 - o.a]) n.push_back(copyOf(v));
                for (auto& v : vec[o.a]) kill(v);
                vec[o.a] = n;
                break;
            }
            case VSHRINK: break;
            case WIPE:
                for (auto& v : cell) kill(v);
                for (auto& q : vec) { for (auto& v : q) kill(v); q.clear(); }
                break;
            case NEWREC: newRec(); break;
            case CLEARALL: newRec(); ids.clear(); peak = regsEver = nreg; break;
            case CLEARDER: clearAdj(); break;
            case SEED: case SEEDADD:
            {
                V& v = at(o.a);
                if (!v.reg) push(v, {}, 0);
                Id& i = ids[v.id];
                i.adj = o.c == SEED ? D(o.k) : i.adj + D(o.k);
                i.maj = o.c == SEED ? std::fabs(D(o.k)) : i.maj + std::fabs(D(o.k));
                init = true;
                break;
            }
            case SWEEP: sweepTo(0); break;
            case GETPOS: pos.push_back(long(st.size()) - 1); log.add(POS, -1, double(pos.back())); break;
            case SWEEPTO: init = true; sweepTo(pos[o.a]); break;
            case RESET: truncate(pos[o.a]); break;
            case CLRAFTER: for (auto& i : ids) if (i.regPos > pos[o.a] || i.stale) { i.adj = i.maj = 0; i.oor = true; } break;
            case DEACT: active = false; log.add(ACTIVE, -1, 0); break;
            case ACT: active = true; log.add(ACTIVE, -1, 1); break;
            case TMOVE: case TMASG: log.add(ACTIVE, -1, active); break;
            case READ: observeVar(o.a); observeAdj(o.a); break;
            case READALL:
                for (int r : o.ins) observeVar(r);
                for (int r : o.outs) observeAdj(r);
                break;
            case COUNTS: counts(); break;
            case PROBE: clearAdj(); break;
            case CKPT:
            {
                Cb c;
                c.seg = o.seg;
                c.kill = o.a;
                std::vector<D> l;
                for (int r : o.ins) { c.ins.push_back(at(r).id); l.push_back(at(r).val); }
                const std::vector<D> in = l;
                segEval<D, D>(*o.seg, l);
                std::vector<D> out(l.end() - o.seg->nout, l.end());
                c.J.assign(out.size(), std::vector<D>(in.size()));
                for (size_t j = 0; j < in.size(); ++j)
                {
                    std::vector<Du<D>> m;
                    for (size_t q = 0; q < in.size(); ++q) m.push_back(Du<D>(in[q], q == j));
                    segEval<Du<D>, D>(*o.seg, m);
                    for (size_t q = 0; q < out.size(); ++q) c.J[q][j] = m[m.size() - out.size() + q].d;
                }
                for (size_t q = 0; q < out.size(); ++q)
                {
                    V v;
                    v.live = true;
                    v.val = out[q];
                    push(v, {}, 0);
                    c.outs.push_back(v.id);
                    cell[o.outs[q]] = v;
                }
                cbs.push_back(c);
                st.push_back({-1, {}, 0, int(cbs.size()) - 1});
                if (o.seg->owned) owned.push_back(o.seg->id);
                break;
            }
            case PUSHCB: owned.push_back(o.seg->id); break;
            case POPCB: log.add(LASTCB, -1, owned.back()); owned.pop_back(); break;
            case M_ACTIVE: log.add(EXC, -1, EX_ACTIVE); counts(); break;
            case M_SWEEP: log.add(EXC, -1, EX_NOINIT); counts(); break;
            case M_SLOT: case M_INCR: case M_CBEMPTY: log.add(EXC, -1, EX_RANGE); counts(); break;
            case M_NOTAPE: log.add(EXC, -1, EX_NOTAPE); counts(); break;
            case NCODES: break;
        }
    }
};

// ---------------------------------------------------------------- generator
struct Profile
{
    double w[NCODES];
    Profile() { for (auto& x : w) x = 0; }
    Profile& set(std::initializer_list<std::pair<int, double>> l) { for (auto& p : l) w[p.first] = p.second; return *this; }
    static Profile base()
    {
        Profile p;
        p.set({{NEW, 2}, {NEWREG, 4}, {REG, 2}, {REGOUT, 1}, {REGALL, 0.5}, {COPYC, 4}, {MOVEC, 2}, {EXPRC, 12}, {DEL, 7}, {ASG, 4}, {MASG, 2}, {ASGK, 2}, {ASGX, 9}, {CMPK, 3}, {CMPV, 4}, {CMPX, 4}, {INC, 1},
               {SWAP, 2}, {FN, 3}, {VPUSH, 4}, {VPUSHX, 4}, {VINS, 2}, {VERASE, 3}, {VRESIZE, 1}, {VCLEAR, 0.4}, {VROT, 1}, {VREV, 0.5}, {VSORT, 0.5}, {VSWAP, 0.5}, {VCOPY, 0.7}, {VSHRINK, 0.5},
               {NEWREC, 1.5}, {CLEARDER, 1.5}, {SEED, 6}, {SEEDADD, 1.5}, {SWEEP, 3}, {READ, 3}, {READALL, 2}, {COUNTS, 1}, {PROBE, 1}, {WIPE, 0.15}, {CLEARALL, 0.3}});
        return p;
    }
};

template <class D>
struct Gen
{
    Model<D> m;
    std::vector<Op> ops;
    std::vector<int> peaks;  // highest number of live registered variables so far, after each operation
    h::Rng& r;
    Profile p;
    int segId = 1;
    int maxRegs = 40;
    Gen(h::Rng& rr, const Profile& pp, int type) : r(rr), p(pp) { m.plain = type < 2; }

    double val() { return r.chance(0.3) ? r.range(-2, 2) : double(float(r.uni(-1.5, 1.5))); }
    double seedVal() { return r.chance(0.7) ? r.range(1, 3) * (r.chance(0.3) ? -1 : 1) : double(float(r.uni(-2, 2))); }
    int freeCell()
    {
        std::vector<int> f;
        for (int i = 0; i < NCELL; ++i) if (!m.cell[i].live) f.push_back(i);
        return f.empty() ? -1 : f[r.below(uint32_t(f.size()))];
    }
    int any() { auto v = m.refs(); return v.empty() ? -1 : v[r.below(uint32_t(v.size()))]; }
    // usable operand; when the tape is inactive only unregistered ones
    int operand()
    {
        std::vector<int> v;
        for (int x : m.refs()) if (m.usable(x) && (m.active || !m.at(x).reg)) v.push_back(x);
        return v.empty() ? -1 : v[r.below(uint32_t(v.size()))];
    }
    int target()
    {
        int x = any();
        if (x < 0 || (!m.active && m.at(x).reg)) return -1;
        return x;
    }
    bool fine(D v) { return std::isfinite(double(v)) && std::fabs(double(v)) < 50; }
    bool fineEv(const typename Model<D>::Ev& e) { return fine(e.v) && fine(e.da) && fine(e.db); }
    bool vecUsable(int q, bool needReg = false)
    {
        for (auto& v : m.vec[q]) if (v.moved || m.stale(v) || (!m.active && v.reg)) return false;
        (void)needReg;
        return true;
    }
    bool vecReg(int q) { for (auto& v : m.vec[q]) if (v.reg) return true; return false; }
    SegP makeSeg(int nin, int depth)
    {
        auto s = std::make_shared<Seg>();
        s->id = segId++;
        s->nin = nin;
        s->kind = r.range(0, 3);  // 0 scoped nested recording, 1 manual one, 2 adjoints coded by hand, 3 one nested recording after the other
        int n = nin, len = r.range(1, 6);
        for (int i = 0; i < len; ++i)
        {
            SInstr in;
            in.form = r.below(NFORMS);
            in.a = r.below(n);
            in.b = r.below(n);
            in.k = double(float(r.uni(-1, 1)));
            in.dst = i + 1 < len && r.chance(0.2) ? int(r.below(n)) : -1;
            if (depth > 0 && s->kind != 2 && r.chance(0.3))
            {
                int k = r.range(1, 2);
                for (int q = 0; q < k; ++q) in.ins.push_back(r.below(n));
                in.seg = makeSeg(k, depth - 1);
                n += in.seg->nout;
            }
            else if (in.dst < 0) ++n;
            s->prog.push_back(in);
        }
        s->nout = r.range(1, std::min(3, std::max(1, n - nin)));
        s->owned = r.chance(0.5);
        return s;
    }

    bool make(Op& o)
    {
        const bool rec = m.canRecord();      // recording allowed
        const bool act = m.active;
        if (act && !rec)
        {
            // adjoints of destroyed variables are pending: only operations that do not register anything
            switch (o.c)
            {
                case CLEARDER: case NEWREC: case READ: case READALL: case COUNTS: case SWEEP: case SWEEPTO: case RESET: case DEL: case PROBE: case SWAP: case VROT: case VREV: case TMOVE: case TMASG: break;
                default: return false;
            }
        }
        auto fin = [&](D v) { return fine(v); };
        o.k = val();
        switch (o.c)
        {
            case NEW: return (o.a = freeCell()) >= 0;
            case NEWREG: return act && m.nreg < maxRegs && (o.a = freeCell()) >= 0;
            case REG: case REGOUT: o.a = operand(); return act && o.a >= 0 && m.nreg < maxRegs;
            case REGALL: o.a = r.below(2); o.b = r.below(4); return act && vecUsable(o.a);
            case COPYC: o.b = operand(); return o.b >= 0 && (o.a = freeCell()) >= 0;
            case MOVEC: { int x = any(); if (x < 0 || x >= 100) return false; o.b = x; return !m.at(x).moved && (o.a = freeCell()) >= 0; }
            case EXPRC: o.b = operand(); o.s = operand(); o.form = r.below(NFORMS); return o.b >= 0 && fineEv(m.ev(o.form, m.at(o.b).val, m.at(o.s).val, o.k)) && (o.a = freeCell()) >= 0;
            case DEL: { int x = any(); if (x < 0 || x >= 100 || (!act && m.at(x).reg)) return false; o.a = x; return true; }
            case ASG: o.a = target(); o.b = r.chance(0.15) && o.a >= 0 && m.usable(o.a) ? o.a : operand(); return o.a >= 0 && o.b >= 0 && (act || !m.at(o.b).reg);
            case MASG:
                o.a = any(); o.b = any();
                if (o.a < 0 || (o.b >= 100 && o.a != o.b) || m.at(o.b).moved || m.at(o.a).moved) return false;
                return true;
            case ASGK: return (o.a = target()) >= 0;
            case ASGX:
                o.a = target(); o.b = r.chance(0.3) && o.a >= 0 && m.usable(o.a) ? o.a : operand(); o.s = operand(); o.form = r.below(NFORMS);
                return o.a >= 0 && o.b >= 0 && fineEv(m.ev(o.form, m.at(o.b).val, m.at(o.s).val, o.k));
            case CMPK: o.a = operand(); o.form = r.below(4); if (o.form == 3 && std::fabs(o.k) < 0.2) return false; return o.a >= 0 && fineEv(m.compound(o.form, m.at(o.a).val, D(o.k)));
            case CMPV:
                o.a = operand(); o.b = r.chance(0.2) ? o.a : operand(); o.form = r.below(4);
                return o.a >= 0 && o.b >= 0 && !(o.form == 3 && std::fabs(double(m.at(o.b).val)) < 0.2) && fineEv(m.compound(o.form, m.at(o.a).val, m.at(o.b).val));
            case CMPX:
            {
                o.a = operand(); o.b = r.chance(0.3) ? o.a : operand(); o.s = operand(); o.form = r.below(NFORMS * 4);
                if (o.a < 0 || o.b < 0) return false;
                auto g = m.ev(o.form / 4, m.at(o.b).val, m.at(o.s).val, o.k);
                if (!fineEv(g) || (o.form % 4 == 3 && std::fabs(double(g.v)) < 0.2)) return false;
                return fineEv(m.compound(o.form % 4, m.at(o.a).val, g.v));
            }
            case INC: o.a = operand(); o.form = r.below(4); return o.a >= 0 && fin(m.at(o.a).val);
            case SWAP: o.a = any(); o.b = r.chance(0.1) ? o.a : any(); return o.a >= 0 && (o.a < 100 || !m.at(o.b).moved) && (o.b < 100 || !m.at(o.a).moved);
            case FN: o.b = operand(); o.s = operand(); return o.b >= 0 && (o.a = freeCell()) >= 0 && fin(m.at(o.b).val * m.at(o.s).val);
            case VPUSH: o.a = r.below(2); o.b = operand(); return o.b >= 0 && m.vec[o.a].size() < 30 && m.nreg < maxRegs;
            case VPUSHX: o.a = r.below(2); o.b = operand(); o.s = operand(); o.form = r.below(NFORMS); return o.b >= 0 && m.vec[o.a].size() < 30 && m.nreg < maxRegs && fineEv(m.ev(o.form, m.at(o.b).val, m.at(o.s).val, o.k));
            case VINS: o.a = r.below(2); o.b = operand(); o.s = r.below(uint32_t(m.vec[o.a].size() + 1)); return o.b >= 0 && m.vec[o.a].size() < 30 && (act || vecUsable(o.a)) && m.nreg < maxRegs;
            case VERASE: o.a = r.below(2); if (m.vec[o.a].empty()) return false; o.s = r.below(uint32_t(m.vec[o.a].size())); return act || vecUsable(o.a);
            case VRESIZE: o.a = r.below(2); o.s = r.below(uint32_t(m.vec[o.a].size() + 4)); return o.s < 30 && (act || vecUsable(o.a));
            case VCLEAR: o.a = r.below(2); return act || vecUsable(o.a);
            case VROT: o.a = r.below(2); if (m.vec[o.a].empty()) return false; o.s = r.below(uint32_t(m.vec[o.a].size())); return true;
            case VREV: o.a = r.below(2); return true;
            case VSORT: o.a = r.below(2); o.form = 0; return m.vec[o.a].size() < 2 || vecUsable(o.a);
            case VSWAP: return true;
            case VCOPY: o.a = r.below(2); return vecUsable(1 - o.a) && (act || vecUsable(o.a)) && m.nreg + int(m.vec[1 - o.a].size()) < maxRegs;
            case VSHRINK: o.a = r.below(2); return true;
            case WIPE: o.form = r.below(1000000); return act;
            case NEWREC: o.form = 0; return act || r.chance(0.3);
            case CLEARALL: return m.nreg == 0;
            case CLEARDER: return true;
            case SEED: case SEEDADD: o.a = operand(); o.form = r.below(5); o.k = seedVal(); return act && o.a >= 0 && m.readable(o.a) && std::fabs(double(m.maxAdj())) < 1e4;
            case SWEEP: o.form = 0; return (act || (m.noCallbacks() && r.chance(0.2))) && m.canSweep();
            case GETPOS: return m.pos.size() < 8;
            case SWEEPTO: if (m.pos.empty() || !m.canSweep()) return false; o.a = r.below(uint32_t(m.pos.size())); return act;
            case RESET:
            {
                if (m.pos.empty()) return false;
                o.a = r.below(uint32_t(m.pos.size()));
                for (auto& i : m.ids) if (i.regPos > m.pos[o.a] && i.maj != 0) return false;
                return act;
            }
            case CLRAFTER:
            {
                if (m.pos.empty()) return false;
                o.a = r.below(uint32_t(m.pos.size()));
                // slots of variables destroyed since may have been taken over by variables after the position
                bool dead = false;
                for (auto& i : m.ids) dead = dead || (!i.alive && i.regPos <= m.pos[o.a]);
                for (auto& i : m.ids) if (((dead && i.regPos > m.pos[o.a]) || i.stale) && i.maj != 0) return false;
                for (auto& i : m.ids) if (!i.alive && i.maj != 0) return false;
                return act;
            }
            case DEACT: o.form = r.below(2); return act;
            case ACT: return !act;
            case TMOVE: case TMASG: o.form = r.below(4); return true;
            case READ: o.a = any(); o.form = r.below(6); return act && o.a >= 0 && m.readable(o.a);
            case READALL:
                o.ins.clear(); o.outs.clear();
                for (int x : m.refs()) if (!m.at(x).moved) o.ins.push_back(x);
                for (int x : m.refs()) if (act && m.readable(x)) o.outs.push_back(x);
                o.form = r.below(6);
                return true;
            case COUNTS: o.form = r.below(8); return true;
            case PROBE: for (auto& i : m.ids) if (i.alive && i.oor) return false; return act;
            case CKPT:
            {
                if (!act || m.nreg >= maxRegs) return false;
                std::vector<int> c;
                for (int x : m.refs()) if (m.usable(x) && m.at(x).reg) c.push_back(x);
                if (c.empty()) return false;
                int n = r.range(1, 3);
                o.ins.clear(); o.outs.clear();
                for (int i = 0; i < n; ++i) o.ins.push_back(c[r.below(uint32_t(c.size()))]);
                o.seg = makeSeg(n, 2);
                o.a = r.chance(0.12) ? int(r.below(NCELL)) : -1;
                o.s = r.below(3);
                std::vector<int> f;
                for (int i = 0; i < NCELL; ++i) if (!m.cell[i].live) f.push_back(i);
                if (int(f.size()) < o.seg->nout) return false;
                for (int i = 0; i < o.seg->nout; ++i) o.outs.push_back(f[i]);
                std::vector<Du<D>> t;
                for (size_t q = 0; q < o.ins.size(); ++q) t.push_back(Du<D>(m.at(o.ins[q]).val, 1));
                segEval<Du<D>, D>(*o.seg, t);
                for (auto& x : t) if (!fin(x.v) || !fin(x.d)) return false;
                return true;
            }
            case PUSHCB: o.seg = makeSeg(1, 0); o.seg->owned = true; return m.owned.size() < 6;
            case POPCB: return !m.owned.empty();
            case M_ACTIVE: o.form = r.below(4); return act;
            case M_SWEEP: o.form = r.below(2); return !m.init;
            case M_SLOT: o.form = r.below(4); o.k = double(m.regsEver + 3 + int(r.below(5))); return true;
            case M_INCR: o.form = r.below(2); o.k = double(m.regsEver + 3 + int(r.below(5))); return true;
            case M_CBEMPTY: o.form = r.below(2); return m.owned.empty();
            case M_NOTAPE: o.a = any(); o.form = r.below(5); return !act && o.a >= 0 && !m.at(o.a).moved;
            case NCODES: return false;
        }
        return false;
    }
    void emit(const Op& o)
    {
        m.apply(o, int(ops.size()));
        ops.push_back(o);
        peaks.push_back(m.peak);
    }
    bool tryEmit(Code c)
    {
        Op o;
        o.c = c;
        if (!make(o)) return false;
        if (c == VINS && o.b >= 100) { /* source inside the same vector is allowed by the standard */ }
        emit(o);
        return true;
    }
    bool must(Code c, int tries = 30)
    {
        for (int i = 0; i < tries; ++i) if (tryEmit(c)) return true;
        return false;
    }
    void random(int n)
    {
        double tot = 0;
        for (double x : p.w) tot += x;
        for (int done = 0, guard = 0; done < n && guard < n * 30; ++guard)
        {
            double u = r.uni() * tot;
            int c = 0;
            while (c + 1 < NCODES && (u -= p.w[c]) >= 0) ++c;
            if (p.w[c] > 0 && tryEmit(Code(c))) ++done;
        }
    }
    // seeds a variable that something was computed from
    void seedLate()
    {
        int best = -1;
        long bp = -1;
        for (int i = 0; i < 6; ++i)
        {
            int x = any();
            if (x < 0 || !m.at(x).reg || !m.readable(x)) continue;
            long lp = -1;
            for (long q = long(m.st.size()) - 1; q > 0 && lp < 0; --q) if (m.st[q].lhs == m.at(x).id && !m.st[q].rhs.empty()) lp = q;
            if (lp > bp) bp = lp, best = x;
        }
        Op o;
        o.c = SEED;
        if (best < 0 || !make(o)) { must(SEED); return; }
        o.a = best;
        emit(o);
    }
    // phases of random operations, each followed by an evaluation most of the time
    void mixed(int phases, int n)
    {
        for (int i = 0; i < phases; ++i)
        {
            if (m.pendingDead() && r.chance(0.5)) must(r.chance(0.5) ? CLEARDER : NEWREC);
            random(r.range(n / 2, n));
            if (r.chance(0.85)) evaluate();
        }
        evaluate();
    }
    // a complete evaluation of the current recording
    void evaluate()
    {
        if (!m.active) must(ACT);
        if (m.pendingDead() || !m.canSweep()) must(CLEARDER);
        int want = r.range(1, 4);
        for (int i = 0; i < want; ++i) { if (i == 0) seedLate(); else must(SEED); }
        must(SWEEP);
        must(READALL);
    }
};

inline std::string opsStr(const std::vector<Op>& ops, int upto)
{
    std::string s;
    int from = std::max(0, upto - 60);
    for (int i = from; i <= upto && i < int(ops.size()); ++i) s += h::fmt("%d:", i) + ops[i].str() + " ";
    return s;
}

// ---------------------------------------------------------------- engine interface
struct EngineBase
{
    virtual ~EngineBase() {}
    virtual void step(const Op& o, Log& l) = 0;
    virtual void finish(Log& l) = 0;     // destroys everything, checks callback destruction
    virtual void attach() = 0;           // activate if it was active before detach
    virtual void detach() = 0;           // deactivate (other tape's turn, other thread)
    virtual int highestSlot() = 0;       // highest slot of a live registered variable
    virtual double memory() = 0;
    virtual void checkSlots(Log& l) = 0;      // compares the reusable sections with the live slots
    virtual bool slotExists(unsigned s) = 0;  // whether the adjoint of the slot is accessible
};
static const int NTYPES = 4;  // AReal<double>, AReal<float>, AReal<FReal<double>>, AReal<AReal<double>>

// compares the logs; returns the number of compared observations
inline long compareLogs(const Log& exp, const Log& got, const std::vector<Op>& ops, const std::string& tag, double scale = 1)
{
    long n = 0;
    for (auto& f : got.fails) { h::violation(f.first, f.second + " history: " + opsStr(ops, got.op)); return n; }
    for (size_t i = 0; i < exp.o.size() || i < got.o.size(); ++i)
    {
        if (i >= exp.o.size() || i >= got.o.size() || exp.o[i].op != got.o[i].op || exp.o[i].kind != got.o[i].kind || exp.o[i].ref != got.o[i].ref)
        {
            std::string a = i < exp.o.size() ? h::fmt("%s (ref %d) in op %d", kindName(exp.o[i].kind), exp.o[i].ref, exp.o[i].op) : "end";
            std::string b = i < got.o.size() ? h::fmt("%s (ref %d) in op %d value %g", kindName(got.o[i].kind), got.o[i].ref, got.o[i].op, got.o[i].v) : "end";
            int op = i < got.o.size() ? got.o[i].op : exp.o.back().op;
            int k = i < got.o.size() ? got.o[i].kind : exp.o[i].kind;
            h::violation(tag + ":sequence:" + kindName(k) + ":" + codeName(ops[std::min(op, int(ops.size()) - 1)].c), "expected " + a + ", observed " + b + "; history: " + opsStr(ops, op));
            return n;
        }
        const Obs &e = exp.o[i], &g = got.o[i];
        ++n;
        if (!(std::fabs(e.v - g.v) <= e.tol * scale) && !(e.v == g.v))
        {
            h::violation(tag + ":" + kindName(e.kind) + ":" + codeName(ops[e.op].c),
                         h::fmt("%s of reference %d is %.17g instead of %.17g (tolerance %.3g) in op %d; history: ", kindName(e.kind), e.ref, g.v, e.v, e.tol, e.op) + opsStr(ops, e.op));
            return n;
        }
    }
    return n;
}
}  // namespace hist
