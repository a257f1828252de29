// Memory behaviour: the sanitizers watch random histories over all operations; allocations before and after
// an engine's life are compared; repeated bounded recordings must keep memory and slots bounded.
#include "hmain.hpp"
#include "profiles.hpp"
#include <sanitizer/allocator_interface.h>
using namespace hist;
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
static long life(const Story& s)
{
    size_t before = allocated();
    {
        auto e = makeEngine(s.type);
        Log got;
        got.o.reserve(s.expected.o.size() + 100);
        runStory(s, *e, got);
        e->finish(got);
    }
    return long(allocated()) - long(before);
}
template <class D>
static void one(h::Rng& r, int type, bool show)
{
    Gen<D> g(r, profile(16, r), type);
    g.maxRegs = r.chance(0.3) ? 8 : 40;
    g.mixed(r.range(1, r.chance(0.2) ? 12 : 4), r.range(8, 50));
    Story s = tell(g, type);
    if (show) h::sample(opsStr(s.ops, 12));
    h::where("history");
    checkStory(s, "history");
    if (r.chance(0.3))
    {
        long d = life(s);
        if (d != 0) h::violation(h::fmt("leak<%d>", type), h::fmt("%ld bytes allocated more after the tape and all variables are gone; history: ", d) + opsStr(s.ops, int(s.ops.size())));
        h::count("allocation_balances");
    }
}
// the same bounded recording again and again on one tape
template <class D>
static void repeated(h::Rng& r, int type)
{
    Profile p = profile(7, r);
    p.set({{NEWREC, 0}, {CLEARALL, 0}, {SWEEP, 2}, {CKPT, r.chance(0.5) ? 4 : 0}, {GETPOS, 1}, {SWEEPTO, 1}, {RESET, 0.5}, {PROBE, 0}, {PUSHCB, 0}});
    Gen<D> g(r, p, type);
    std::vector<std::pair<size_t, size_t>> blocks;
    const bool all = r.chance(0.5);
#ifdef REUSE
    const bool reuse = true;
#else
    const bool reuse = false;
#endif
    // one block of operations that starts and ends with no live variable
    g.must(NEWREC);
    size_t from = g.ops.size();
    g.random(r.range(30, 120));
    g.evaluate();
    g.must(WIPE);
    if (g.m.nreg == 0 && (all || !reuse)) g.must(CLEARALL); else g.must(NEWREC);
    g.must(COUNTS);
    Story s = tell(g, type);
    for (auto& o : s.ops) if (o.seg) o.seg->owned = false;  // owned callbacks accumulate by contract
    auto e = makeEngine(s.type);
    double m0 = 0;
    size_t a0 = 0;
    bool callbacks = false;  // the engine keeps those until the end
    for (auto& o : s.ops) callbacks = callbacks || o.seg;
    int reps = h::ctx().thorough ? 300 : 60;
    for (int k = 0; k < reps; ++k)
    {
        Log l;
        for (size_t i = from; i < s.ops.size(); ++i)
        {
            l.op = int(i);
            h::where(h::fmt("repeated %s type %d", codeName(s.ops[i].c), type));
            e->step(s.ops[i], l);
            h::maxi("highest_slot_repeated", e->highestSlot());
        }
        for (auto& f : l.fails) { h::violation("repeated:" + f.first, f.second); return; }
        double m = e->memory();
        if (k == 3) m0 = m;
        if (k > 3 && m > m0) { h::violation(h::fmt("memory-grows<%d>", type), h::fmt("memory of the tape is %g after %d equal recordings and %g after 4; ", m, k + 1, m0) + opsStr(s.ops, int(s.ops.size()))); return; }
        if (e->slotExists(unsigned(g.m.regsEver0 + 200))) { h::violation(h::fmt("slots-grow<%d>", type), h::fmt("after %d equal recordings: ", k + 1) + opsStr(s.ops, int(s.ops.size()))); return; }
        h::count("repeated_recordings");
        // what the allocator has handed out must not grow either (chunks are used again)
        l = Log();
        if (k == reps / 2) a0 = allocated();
        if (k == reps - 1)
        {
            long d = long(allocated()) - long(a0);
            if (!callbacks) { h::maxi("bytes_more_in_2nd_half", double(d)); h::count("growth_measurements"); }
            if (d > 1024 && !callbacks) { h::violation(h::fmt("allocation-grows<%d>", type), h::fmt("%ld bytes more are allocated after %d equal recordings than after %d; ", d, reps, reps / 2 + 1) + opsStr(s.ops, int(s.ops.size()))); return; }
        }
    }
    Log l;
    e->finish(l);
    tally(s);
}
static void oneCase(long k, h::Rng& r)
{
    int type = int(k % 8);
    type = type < 5 ? 0 : type - 4;
    if (k % 16 == 15 || h::ctx().opts.count("--repeat")) { type == 1 ? repeated<float>(r, 1) : repeated<double>(r, k / 16 % 2 ? 0 : type); return; }
    if (type == 1) one<float>(r, 1, k < 2);
    else one<double>(r, type, k < 2);
}
int main(int argc, char** argv) { return h::run(argc, argv, oneCase); }
