// The same history on a tape with and without slot reuse: bitwise equal observations, bounded and exact slot use.
#include "hmain.hpp"
#include "profiles.hpp"
std::unique_ptr<hist::EngineBase> makeEngine_n(int type);
std::unique_ptr<hist::EngineBase> makeEngine_r(int type);
using namespace hist;
static void both(const Story& s)
{
    auto n = makeEngine_n(s.type), r = makeEngine_r(s.type);
    Log ln, lr;
    bool ck = false;
    for (size_t i = 0; i < s.ops.size() && ln.fails.empty() && lr.fails.empty(); ++i)
    {
        ln.op = lr.op = int(i);
        h::where(h::fmt("%s type %d", codeName(s.ops[i].c), s.type));
        n->step(s.ops[i], ln);
        r->step(s.ops[i], lr);
        r->checkSlots(lr);
        ck = ck || s.ops[i].c == CKPT;
        int hi = r->highestSlot();
        h::maxi("highest_slot_reuse", hi);
        h::maxi("highest_slot_default", n->highestSlot());
        if (hi >= s.peaks[i]) lr.fail("slot-bound", h::fmt("slot %d in use although at most %d variables were live at a time", hi, s.peaks[i]));
        if (!ck && r->slotExists(s.peaks[i] + 1)) lr.fail("adjoint-bound", h::fmt("adjoint of slot %d exists although at most %d variables were live at a time", s.peaks[i] + 1, s.peaks[i]));
        if (n->highestSlot() > hi) h::count("steps_with_different_slots");
        h::count("steps_compared");
    }
    h::where("finish");
    n->finish(ln);
    r->finish(lr);
    for (auto& o : ln.o) o.tol = 0;
    long c = compareLogs(ln, lr, s.ops, h::fmt("reuse<%d>", s.type));
    compareLogs(s.expected, ln, s.ops, h::fmt("default<%d>", s.type));
    h::count("observations_compared_bitwise", c);
    h::count("slot_checks", lr.slotChecks);
    tally(s);
}
template <class D>
static void one(h::Rng& r, int type, bool show)
{
    Gen<D> g(r, profile(17, r), type);
    g.maxRegs = r.chance(0.3) ? 8 : 40;
    g.mixed(r.range(1, r.chance(0.2) ? 12 : 4), r.range(8, 50));
    Story s = tell(g, type);
    if (show) h::sample(opsStr(s.ops, 12));
    both(s);
}
static void oneCase(long k, h::Rng& r)
{
    int type = int(k % 8);
    type = type < 5 ? 0 : type - 4;
    if (type == 1) one<float>(r, 1, k < 2);
    else one<double>(r, type, k < 2);
}
int main(int argc, char** argv) { return h::run(argc, argv, oneCase); }
