// Executes histories on XAD. Compiled once per configuration; -Dxad=... -DENGINE=... give several copies in one binary.
#include "hist.hpp"
#include <XAD/XAD.hpp>
#include <complex>
#include <list>
#include <set>
#include <sstream>
using namespace hist;
#ifndef ENGINE
#define ENGINE makeEngine
#endif
namespace
{
template <class X> struct Inner { typedef X type; static double get(const X& x) { return x; } static const bool plain = true; };
template <class X> struct Inner<xad::AReal<X>> { typedef typename Inner<X>::type type; static double get(const xad::AReal<X>& x) { return Inner<X>::get(x.getValue()); } static const bool plain = false; };
template <class X> struct Inner<xad::FReal<X>> { typedef typename Inner<X>::type type; static double get(const xad::FReal<X>& x) { return Inner<X>::get(x.getValue()); } static const bool plain = false; };

// scalar compound operations (the nested types only have those with AD operands)
template <class T, class S, bool plain> struct Sc
{
    static void op(T& x, int w, S k) { switch (w) { case 0: x += k; break; case 1: x -= k; break; case 2: x *= k; break; default: x /= k; } }
    static void inc(T& x, int f) { switch (f) { case 0: ++x; break; case 1: --x; break; case 2: x++; break; default: x--; } }
};
template <class T, class S> struct Sc<T, S, false>
{
    static void op(T& x, int w, S k) { switch (w) { case 0: x = x + k; break; case 1: x = x - k; break; case 2: x = x * k; break; default: x = x / k; } }
    static void inc(T& x, int f) { if (f & 1) x = x - S(1); else x = x + S(1); }
};

template <class I>
struct Engine : EngineBase
{
    typedef xad::AReal<I> T;
    typedef xad::Tape<I> Tape;
    typedef typename Inner<I>::type S;
    typedef typename Tape::slot_type Slot;
    struct CB;

    std::unique_ptr<T> cell[NCELL];
    std::vector<T> vec[2];
    std::unique_ptr<Tape> tape;
    std::vector<std::unique_ptr<Tape>> graveyard;
    std::vector<unsigned> pos;
    std::list<CB*> owned, loose;          // owned by the tape / by us
    std::list<int> destroyedCounters;
    std::vector<std::pair<int*, bool>> watch;  // counter, owned by tape
    std::vector<CB*> temps;
    Log* log = nullptr;
    bool attached = true;
    int peakLive = 0;

    struct CB : xad::CheckpointCallback<Tape>
    {
        Engine* e;
        SegP seg;
        const Seg* s;
        std::vector<S> in;
        std::vector<Slot> inSlots, outSlots;
        int depth = 0, calls = 0, killCell = -1, killWhen = 0;
        int* destroyed = nullptr;
        ~CB() override { if (destroyed) ++*destroyed; }
        void computeAdjoint(Tape* t) override { ++calls; e->callback(*this, t); }
    };

    Engine() : tape(new Tape(true)) {}
    ~Engine() override {}

    T& at(int r) { return r < 100 ? *cell[r] : vec[r / 100 - 1][r % 100]; }
    template <class F> void each(F f)
    {
        for (int i = 0; i < NCELL; ++i) if (cell[i]) f(i, *cell[i]);
        for (int q = 0; q < 2; ++q) for (size_t i = 0; i < vec[q].size(); ++i) f(100 * (q + 1) + int(i), vec[q][i]);
    }
    static T fn(T a, T b)
    {
        T t = a * b * S(0.25);
        t += a;
        return t;
    }
    void callback(CB& c, Tape* t)
    {
        if (t != tape.get()) log->fail("callback:tape", "callback called with another tape");
        if (c.depth == 0) log->add(CBCALL, c.s->id, 0);
        std::vector<I> oa;
        for (auto s : c.outSlots)
        {
            I a = t->getAndResetOutputAdjoint(s);
            if (c.depth == 0) log->add(OUTADJ, c.s->id, Inner<I>::get(a));
            oa.push_back(a);
        }
        if (c.killCell >= 0 && (c.killWhen == 0 || c.s->kind == 2)) cell[c.killCell].reset();
        if (c.s->kind == 2)
        {
            for (size_t j = 0; j < c.in.size(); ++j)
            {
                std::vector<Du<S>> m;
                for (size_t q = 0; q < c.in.size(); ++q) m.push_back(Du<S>(c.in[q], q == j));
                segEval<Du<S>, S>(*c.s, m);
                for (size_t q = 0; q < oa.size(); ++q) t->incrementAdjoint(c.inSlots[j], oa[q] * m[m.size() - oa.size() + q].d);
            }
            return;
        }
        if (c.s->kind == 3 && oa.size() > 1)
        {
            // one nested recording per output
            for (size_t q = 0; q < oa.size(); ++q)
            {
                std::vector<I> w(oa.size(), I());
                w[q] = oa[q];
                nested(c, t, w, q % 2 == 0);
            }
        }
        else
            nested(c, t, oa, c.s->kind != 1);
        if (c.killCell >= 0 && c.killWhen == 2) cell[c.killCell].reset();
    }
    void nested(CB& c, Tape* t, const std::vector<I>& oa, bool scoped)
    {
        std::vector<T> x;
        for (auto v : c.in) x.push_back(T(v));
        if (c.s->id % 2) t->registerInputs(x);
        else for (auto& v : x) t->registerInput(v);
        const unsigned stmts = t->getNumStatements(), nops = t->getNumOperations();
        auto body = [&]() {
            if (c.killCell >= 0 && c.killWhen == 1) cell[c.killCell].reset();
            std::vector<T> l(x.begin(), x.end());
            std::vector<CB*> inner;
            segRun<T, S>(*c.s, l, [&](const Seg& in, std::vector<T>& ll, const std::vector<int>& ins) {
                CB* k = new CB;
                k->e = this; k->s = &in; k->depth = c.depth + 1;
                std::vector<S> m;
                for (int i : ins) { S v = S(Inner<T>::get(ll[i])); m.push_back(v); k->in.push_back(v); k->inSlots.push_back(ll[i].getSlot()); }
                segEval<S, S>(in, m);
                for (int q = 0; q < in.nout; ++q)
                {
                    T o(m[m.size() - in.nout + q]);
                    t->registerOutput(o);
                    k->outSlots.push_back(o.getSlot());
                    ll.push_back(std::move(o));
                }
                t->insertCallback(k);
                inner.push_back(k);
                temps.push_back(k);
            });
            for (size_t q = 0; q < oa.size(); ++q) xad::derivative(l[l.size() - oa.size() + q]) = oa[q];
            return inner;
        };
        auto verify = [&](const std::vector<CB*>& inner) {
            for (auto k : inner) if (k->calls != 1) log->fail("callback:nested-calls", h::fmt("nested callback called %d times", k->calls));
        };
        if (scoped)
        {
            xad::ScopedNestedRecording<Tape> nested(t);
            if (nested.getTape() != t) log->fail("nested:tape", "getTape of the nested recording");
            auto inner = body();
            nested.computeAdjoints();
            verify(inner);
            for (size_t j = 0; j < x.size(); ++j) nested.incrementAdjoint(c.inSlots[j], x[j].getAdjoint());
        }
        else
        {
            t->newNestedRecording();
            auto inner = body();
            t->computeAdjoints();
            verify(inner);
            std::vector<I> d;
            for (auto& v : x) d.push_back(xad::derivative(static_cast<const T&>(v)));
            for (size_t j = 0; j < x.size(); ++j) t->incrementAdjoint(c.inSlots[j], d[j]);
            t->endNestedRecording();
        }
        if (t->getNumStatements() != stmts || t->getNumOperations() != nops)
            log->fail("nested:counters", h::fmt("%u statements, %u operations after a nested recording, %u, %u before", t->getNumStatements(), t->getNumOperations(), stmts, nops));
    }
    void seed(T& x, int f, I v, bool add)
    {
        if (add) { if (f & 1) xad::derivative(x) += v; else x.setDerivative(x.getDerivative() + v), 0; return; }
        if (f >= 3 && !x.shouldRecord()) f = 0;
        switch (f)
        {
            case 0: xad::derivative(x) = v; break;
            case 1: x.setDerivative(v); break;
            case 2: x.setAdjoint(v); break;
            case 3: tape->setDerivative(x.getSlot(), v); break;
            default: tape->derivative(x.getSlot()) = v; break;
        }
    }
    double read(const T& x, int f)
    {
        if (f >= 3 && !x.shouldRecord()) f = 0;
        switch (f)
        {
            case 0: return Inner<I>::get(xad::derivative(x));
            case 1: return Inner<I>::get(x.getDerivative());
            case 2: return Inner<I>::get(x.getAdjoint());
            case 3: return Inner<I>::get(tape->derivative(x.getSlot()));
            case 5: tape->derivative(x.getSlot()); return Inner<I>::get(x.getTape()->derivative(x.getSlot()));
            default: { tape->derivative(x.getSlot()); return Inner<I>::get(tape->getDerivative(x.getSlot())); }
        }
    }
    // memory covers at least what was recorded; the status is printed without side effects
    void status()
    {
        const double need = double(tape->getNumOperations()) * (sizeof(I) + sizeof(Slot)) + double(tape->getNumStatements()) * 2 * sizeof(Slot);
        if (double(tape->getMemory()) < need) log->fail("getMemory", h::fmt("%zu bytes for %u operations and %u statements", tape->getMemory(), tape->getNumOperations(), tape->getNumStatements()));
        tape->printStatus();
    }
    void counts()
    {
        log->add(NVARS, -1, tape->getNumVariables());
        log->add(NSTMT, -1, tape->getNumStatements());
        log->add(NOPS, -1, tape->getNumOperations());
        log->add(POS, -1, tape->getPosition());
        log->add(ACTIVE, -1, Tape::getActive() == tape.get() && tape->isActive());
        log->add(NCB, -1, tape->getNumCallbacks());
        if (tape->haveCallbacks() != (tape->getNumCallbacks() > 0)) log->fail("haveCallbacks", "disagrees with getNumCallbacks");
    }
    void slots()
    {
        std::set<long> used;
        long n = 0;
        each([&](int r, T& x) {
            if (!x.shouldRecord()) return;
            ++n;
            if (!used.insert(x.getSlot()).second) log->fail("slot-shared", h::fmt("two live variables share slot %u (ref %d)", x.getSlot(), r));
        });
        peakLive = std::max<int>(peakLive, int(n));
#ifdef XAD_TAPE_REUSE_SLOTS
        std::string want;
        long sections = 0, total = 0, prev = -1;
        for (long u : used)
        {
            if (u > prev + 1) { ++sections; total += u - prev - 1; want += h::fmt("[%ld, %ld), ", prev + 1, u); }
            prev = u;
        }
        ++log->slotChecks;
        if (long(tape->getNumReusableSlotSections()) != sections || long(tape->getNumReusableSlots()) != total || tape->getReusableSlotsString() != want)
            log->fail("reusable-slots", h::fmt("%u sections, %u slots: %s instead of ", tape->getNumReusableSlotSections(), tape->getNumReusableSlots(), tape->getReusableSlotsString().c_str()) + want);
#endif
    }
    std::set<long> liveSlots()
    {
        std::set<long> s;
        each([&](int, T& x) { if (x.shouldRecord()) s.insert(x.getSlot()); });
        return s;
    }
    void newSlot(const std::set<long>& before, T& x)
    {
#ifdef XAD_TAPE_REUSE_SLOTS
        if (!x.shouldRecord() || before.count(x.getSlot())) return;
        long hi = before.empty() ? -1 : *before.rbegin();
        if (long(before.size()) <= hi && long(x.getSlot()) > hi) log->fail("slot-not-reused", h::fmt("new slot %u although %ld of %ld are free", x.getSlot(), hi + 1 - long(before.size()), hi + 1));
        if (long(x.getSlot()) > hi + 1) log->fail("slot-gap", h::fmt("new slot %u above %ld", x.getSlot(), hi));
#else
        (void)before; (void)x;
#endif
    }
    void probe()
    {
        ++log->probes;
        std::vector<std::pair<int, T*>> v;
        each([&](int r, T& x) { if (x.shouldRecord()) v.push_back({r, &x}); });
        for (size_t i = 0; i < v.size(); ++i) xad::derivative(*v[i].second) = I(S(i + 1));
        auto check = [&](size_t except, const char* what) {
            for (size_t i = 0; i < v.size(); ++i)
                if (i != except && Inner<I>::get(xad::derivative(static_cast<const T&>(*v[i].second))) != double(i + 1))
                    log->fail("adjoint-shared", h::fmt("adjoint of ref %d (slot %u) is %g instead of %zu after %s", v[i].first, v[i].second->getSlot(), Inner<I>::get(xad::derivative(*v[i].second)), i + 1, what));
        };
        check(v.size(), "setting all");
        if (!v.empty())
        {
            size_t k = size_t(log->op) % v.size();
            xad::derivative(*v[k].second) = I(S(-1000));
            check(k, h::fmt("changing ref %d (slot %u)", v[k].first, v[k].second->getSlot()).c_str());
        }
        tape->clearDerivatives();
        for (auto& p : v)
            if (Inner<I>::get(xad::derivative(static_cast<const T&>(*p.second))) != 0) log->fail("clearDerivatives", h::fmt("adjoint of ref %d not zero", p.first));
        tape->clearDerivatives();
        slots();
    }
    CB* makeCB(const SegP& s)
    {
        CB* c = new CB;
        c->e = this; c->seg = s; c->s = s.get();
        destroyedCounters.push_back(0);
        c->destroyed = &destroyedCounters.back();
        return c;
    }
    template <class F> void expectExc(F f)
    {
        int r = NOEXC;
        std::string what;
        try { f(); }
        catch (const xad::TapeAlreadyActive&) { r = EX_ACTIVE; }
        catch (const xad::DerivativesNotInitialized&) { r = EX_NOINIT; }
        catch (const xad::OutOfRange&) { r = EX_RANGE; }
        catch (const xad::NoTapeException&) { r = EX_NOTAPE; }
        catch (...) { r = EX_OTHER; }
        log->add(EXC, -1, r);
    }
    void step(const Op& o, Log& l) override
    {
        log = &l;
        try { step1(o); }
        catch (const std::exception& e) { l.fail(std::string("unexpected-exception:") + codeName(o.c), std::string(e.what()) + " in " + o.str()); }
        for (auto k : temps) delete k;
        temps.clear();
    }
    void step1(const Op& o)
    {
        const S k = S(o.k);
        switch (o.c)
        {
            case NEW: cell[o.a].reset(new T(k)); break;
            case NEWREG: { auto b = liveSlots(); cell[o.a].reset(new T(k)); tape->registerInput(*cell[o.a]); newSlot(b, *cell[o.a]); break; }
            case REG: { auto b = liveSlots(); tape->registerInput(at(o.a)); newSlot(b, at(o.a)); break; }
            case REGOUT: tape->registerOutput(at(o.a)); break;
            case REGALL:
                if (o.b == 0) tape->registerInputs(vec[o.a]);
                else if (o.b == 1) tape->registerOutputs(vec[o.a]);
                else if (o.b == 2) tape->registerInputs(vec[o.a].begin(), vec[o.a].end());
                else tape->registerOutputs(vec[o.a].begin(), vec[o.a].end());
                break;
            case COPYC: { auto b = liveSlots(); cell[o.a].reset(new T(static_cast<const T&>(at(o.b)))); newSlot(b, *cell[o.a]); break; }
            case MOVEC: cell[o.a].reset(new T(std::move(at(o.b)))); break;
            case EXPRC: { auto b = liveSlots(); form(o.form, at(o.b), at(o.s), k, [&](const auto& e) { cell[o.a].reset(new T(e)); }); newSlot(b, *cell[o.a]); break; }
            case DEL: cell[o.a].reset(); break;
            case ASG: at(o.a) = static_cast<const T&>(at(o.b)); break;
            case MASG: at(o.a) = std::move(at(o.b)); break;
            case ASGK: at(o.a) = k; break;
            case ASGX: form(o.form, at(o.b), at(o.s), k, [&](const auto& e) { at(o.a) = e; }); break;
            case CMPK: Sc<T, S, Inner<I>::plain>::op(at(o.a), o.form, k); break;
            case CMPV:
                switch (o.form) { case 0: at(o.a) += at(o.b); break; case 1: at(o.a) -= at(o.b); break; case 2: at(o.a) *= at(o.b); break; default: at(o.a) /= at(o.b); }
                break;
            case CMPX:
                form(o.form / 4, at(o.b), at(o.s), k, [&](const auto& e) {
                    switch (o.form % 4) { case 0: at(o.a) += e; break; case 1: at(o.a) -= e; break; case 2: at(o.a) *= e; break; default: at(o.a) /= e; }
                });
                break;
            case INC: Sc<T, S, Inner<I>::plain>::inc(at(o.a), o.form); break;
            case SWAP: { using std::swap; swap(at(o.a), at(o.b)); break; }
            case FN: cell[o.a].reset(new T(fn(at(o.b), at(o.s)))); break;
            case VPUSH: vec[o.a].push_back(at(o.b)); break;
            case VPUSHX: form(o.form, at(o.b), at(o.s), k, [&](const auto& e) { vec[o.a].push_back(e); }); break;
            case VINS: vec[o.a].insert(vec[o.a].begin() + o.s, at(o.b)); break;
            case VERASE: vec[o.a].erase(vec[o.a].begin() + o.s); break;
            case VRESIZE: vec[o.a].resize(o.s); break;
            case VCLEAR: vec[o.a].clear(); break;
            case VROT: std::rotate(vec[o.a].begin(), vec[o.a].begin() + o.s, vec[o.a].end()); break;
            case VREV: std::reverse(vec[o.a].begin(), vec[o.a].end()); break;
            case VSORT: std::stable_sort(vec[o.a].begin(), vec[o.a].end()); break;
            case VSWAP: vec[0].swap(vec[1]); break;
            case VCOPY: vec[o.a] = std::vector<T>(vec[1 - o.a]); break;
            case VSHRINK: vec[o.a].shrink_to_fit(); break;
            case WIPE:
            {
                h::Rng r(o.form);
                std::vector<int> c;
                for (int i = 0; i < NCELL + 2; ++i) c.push_back(i);
                for (int i = NCELL + 1; i > 0; --i) std::swap(c[i], c[r.below(i + 1)]);
                for (int i : c) { if (i < NCELL) cell[i].reset(); else vec[i - NCELL].clear(); }
                break;
            }
            case NEWREC: tape->newRecording(); pos.clear(); slots(); break;
            case CLEARALL: tape->clearAll(); pos.clear(); peakLive = 0; break;
            case CLEARDER: tape->clearDerivatives(); break;
            case SEED: seed(at(o.a), o.form, I(k), false); break;
            case SEEDADD: seed(at(o.a), o.form, I(k), true); break;
            case SWEEP: tape->computeAdjoints(); trim(); break;
            case GETPOS: pos.push_back(tape->getPosition()); log->add(POS, -1, pos.back()); break;
            case SWEEPTO: tape->computeAdjointsTo(pos[o.a]); trim(); break;
            case RESET: tape->resetTo(pos[o.a]); trim(); break;
            case CLRAFTER: tape->clearDerivativesAfter(pos[o.a]); break;
            case DEACT: if (o.form == 0) tape->deactivate(); else Tape::deactivateAll(); log->add(ACTIVE, -1, tape->isActive() || Tape::getActive() != nullptr); break;
            case ACT: if (o.b == 0) tape->activate(); else Tape::setActive(tape.get()); log->add(ACTIVE, -1, tape->isActive() && Tape::getActive() == tape.get()); break;
            case TMOVE:
            {
                std::unique_ptr<Tape> n(new Tape(std::move(*tape)));
                tape.swap(n);
                if (o.form & 1) graveyard.push_back(std::move(n));
                n.reset();
                log->add(ACTIVE, -1, Tape::getActive() == tape.get());
                break;
            }
            case TMASG:
            {
                std::unique_ptr<Tape> n(new Tape(false));
                if (o.form & 2)
                {
                    // the target had a life of its own
                    CB* c = makeCB(SegP(new Seg));
                    n->pushCallback(c);
                    watch.push_back({c->destroyed, true});
                    Slot s = n->registerVariable(), s2 = n->registerVariable();
                    n->pushLhs(s);
                    n->pushRhs(I(S(2)), s);
                    n->pushLhs(s2);
                    n->derivative(s2) = I(S(1));
                    n->computeAdjoints();
                    n->unregisterVariable(s);
                    int* d = c->destroyed;
                    *n = std::move(*tape);
                    if (*d != 1) log->fail("callback-leaked", h::fmt("owned callback of the assigned tape destroyed %d times", *d));
                }
                else
                    *n = std::move(*tape);
                if (o.form & 1) { *tape = std::move(*n); n.reset(); }
                else { tape.swap(n); graveyard.push_back(std::move(n)); }
                log->add(ACTIVE, -1, Tape::getActive() == tape.get());
                break;
            }
            case READ: log->add(VALUE, o.a, Inner<T>::get(at(o.a))); log->add(REGD, o.a, at(o.a).shouldRecord()); log->add(ADJ, o.a, read(at(o.a), o.form)); break;
            case READALL:
                for (int r : o.ins) { log->add(VALUE, r, Inner<T>::get(at(r))); log->add(REGD, r, at(r).shouldRecord()); }
                for (int r : o.outs) log->add(ADJ, r, read(at(r), o.form));
                break;
            case COUNTS:
                if (o.form == 0) status();
                counts(); slots();
                break;
            case PROBE: probe(); break;
            case CKPT:
            {
                CB* c = makeCB(o.seg);
                std::vector<S> m;
                for (int r : o.ins) { S v = S(Inner<T>::get(at(r))); m.push_back(v); c->in.push_back(v); c->inSlots.push_back(at(r).getSlot()); }
                segEval<S, S>(*o.seg, m);
                for (int q = 0; q < o.seg->nout; ++q)
                {
                    cell[o.outs[q]].reset(new T(m[m.size() - o.seg->nout + q]));
                    tape->registerOutput(*cell[o.outs[q]]);
                    c->outSlots.push_back(cell[o.outs[q]]->getSlot());
                }
                c->killCell = o.a;
                c->killWhen = o.s;
                tape->insertCallback(c);
                if (o.seg->owned) { tape->pushCallback(c); owned.push_back(c); }
                else loose.push_back(c);
                break;
            }
            case PUSHCB: { CB* c = makeCB(o.seg); tape->pushCallback(c); owned.push_back(c); break; }
            case POPCB:
            {
                auto c = static_cast<CB*>(tape->getLastCallback());
                log->add(LASTCB, -1, c->s->id);
                tape->popCallback();
                if (owned.empty() || owned.back() != c) log->fail("callback-stack", "last callback is not the last one pushed");
                owned.remove(c);
                loose.push_back(c);
                break;
            }
            case M_ACTIVE:
                expectExc([&]() {
                    switch (o.form)
                    {
                        case 0: { Tape t(true); break; }
                        case 1: tape->activate(); break;
                        case 2: { Tape t(false); t.activate(); break; }
                        default: { Tape t(false); Tape::setActive(&t); break; }
                    }
                });
                counts();
                break;
            case M_SWEEP:
#ifndef NDEBUG
                if (o.form == 1)
                {
                    int hi = highestSlot();
                    const Tape& ct = *tape;
                    // a variable registered before clearDerivativesAfter may have no adjoint at all: out of range instead
                    if (hi >= 0)
                    {
                        expectExc([&]() {
                            try { hi & 1 ? ct.derivative(Slot(hi)) : ct.getDerivative(Slot(hi)); }
                            catch (const xad::OutOfRange&) { tape->computeAdjoints(); }
                        });
                        counts(); break;
                    }
                }
#endif
                expectExc([&]() { tape->computeAdjoints(); });
                counts();
                break;
            case M_SLOT:
            {
                Slot s = o.form == 3 ? Tape::INVALID_SLOT : Slot(o.k);
                expectExc([&]() { if (o.form == 0) tape->derivative(s) = I(S(1)); else if (o.form == 1) tape->setDerivative(s, I(S(1))); else tape->derivative(s); });
#ifndef NDEBUG
                try { static_cast<const Tape&>(*tape).getDerivative(s); log->fail("const-slot", "no exception from const access out of range"); }
                catch (const xad::OutOfRange&) {}
#endif
                counts();
                break;
            }
            case M_INCR:
                expectExc([&]() { if (o.form == 0) tape->incrementAdjoint(Slot(o.k), I(S(1))); else tape->getAndResetOutputAdjoint(Slot(o.k)); });
                counts();
                break;
            case M_CBEMPTY: expectExc([&]() { if (o.form == 0) tape->popCallback(); else tape->getLastCallback(); }); counts(); break;
            case M_NOTAPE:
                expectExc([&]() {
                    T& x = at(o.a);
                    const T& y = x;
                    switch (o.form)
                    {
                        case 0: xad::derivative(x) = I(S(1)); break;
                        case 1: xad::derivative(y); break;
                        case 2: x.setDerivative(I(S(1))); break;
                        case 3: y.getDerivative(); break;
                        default: y.getAdjoint(); break;
                    }
                });
                counts();
                break;
            case NCODES: break;
        }
    }
    void trim()
    {
        while (!pos.empty() && pos.back() > tape->getPosition()) pos.pop_back();
    }
    void attach() override { if (!attached) { tape->activate(); attached = true; } }
    void detach() override { if (attached && tape->isActive()) { tape->deactivate(); attached = false; } }
    int highestSlot() override { int m = -1; each([&](int, T& x) { if (x.shouldRecord()) m = std::max(m, int(x.getSlot())); }); return m; }
    void checkSlots(Log& l) override { log = &l; slots(); }
    bool slotExists(unsigned s) override
    {
        try { tape->derivative(s); return true; }
        catch (const xad::OutOfRange&) { return false; }
    }
    double memory() override { return double(tape->getMemory()); }
    void finish(Log& l) override
    {
        log = &l;
        if (!tape->isActive() && Tape::getActive() == nullptr) tape->activate();
        for (auto& c : cell) c.reset();
        for (auto& v : vec) v.clear();
        if (tape->getNumVariables() != 0) l.fail("variables-left", h::fmt("%u variables after all were destroyed", tape->getNumVariables()));
        std::vector<int*> ow, lo;
        for (auto c : owned) ow.push_back(c->destroyed);
        for (auto c : loose) lo.push_back(c->destroyed);
        for (auto p : ow) if (*p) l.fail("callback-destroyed", "owned callback destroyed before the tape");
        tape.reset();
        graveyard.clear();
        if (Tape::getActive() != nullptr) l.fail("tape-left-active", "tape still active after its destruction");
        for (auto p : ow) if (*p != 1) l.fail("callback-destroyed", h::fmt("owned callback destroyed %d times with the tape", *p));
        for (auto p : lo) if (*p) l.fail("callback-destroyed", "callback that the tape does not own was destroyed");
        for (auto& w : watch) if (*w.first != 1) l.fail("callback-destroyed", h::fmt("callback of an assigned tape destroyed %d times", *w.first));
        for (auto c : loose) delete c;
        loose.clear();
    }
};
}  // namespace

std::unique_ptr<EngineBase> ENGINE(int type)
{
    switch (type)
    {
        case 0: return std::unique_ptr<EngineBase>(new Engine<double>());
        case 1: return std::unique_ptr<EngineBase>(new Engine<float>());
        case 2: return std::unique_ptr<EngineBase>(new Engine<xad::FReal<double>>());
        default: return std::unique_ptr<EngineBase>(new Engine<xad::AReal<double>>());
    }
}
