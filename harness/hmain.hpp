// Running a generated history on an engine and comparing with the model.
#pragma once
#include "hist.hpp"
std::unique_ptr<hist::EngineBase> makeEngine(int type);
namespace hist
{
struct Story { std::vector<Op> ops; std::vector<int> peaks; Log expected; int type; long sweeps, adj, cbs, recorded; uint64_t hash; };
inline uint64_t hashOps(const std::vector<Op>& ops)
{
    uint64_t x = 1469598103934665603ull;
    for (auto& o : ops) { int v[5] = {int(o.c), o.a, o.b, o.s, o.form}; x = h::hashBytes(v, sizeof v, x); x = h::hashBytes(&o.k, sizeof o.k, x); }
    return x;
}
template <class D>
Story tell(Gen<D>& g, int type)
{
    Story s;
    s.ops = g.ops;
    s.peaks = g.peaks;
    s.expected = g.m.log;
    s.type = type;
    s.sweeps = g.m.sweeps; s.adj = g.m.nonzeroAdj; s.cbs = g.m.cbCalls; s.recorded = g.m.recorded;
    s.hash = h::mix(hashOps(s.ops), type);
    return s;
}
inline void tally(const Story& s)
{
    h::evaluated(s.hash, s.sweeps > 0 && s.adj > 0);
    h::count("histories");
    h::count("operations", long(s.ops.size()));
    h::count("sweeps", s.sweeps);
    h::count("nonzero_adjoints_predicted", s.adj);
    h::count("statements_recorded", s.recorded);
    if (s.cbs) h::count("callback_calls", s.cbs);
    for (auto& o : s.ops) h::count(std::string("op_") + codeName(o.c));
}
inline void runStory(const Story& s, EngineBase& e, Log& got)
{
    for (size_t i = 0; i < s.ops.size() && got.fails.empty(); ++i)
    {
        got.op = int(i);
        h::where(h::fmt("%s type %d", codeName(s.ops[i].c), s.type));
        e.step(s.ops[i], got);
    }
}
inline void checkStory(const Story& s, const std::string& tag)
{
    auto e = makeEngine(s.type);
    Log got;
    runStory(s, *e, got);
    h::where("finish");
    e->finish(got);
    long n = compareLogs(s.expected, got, s.ops, tag + h::fmt("<%d>", s.type));
    h::count("observations_compared", n);
    h::count("slot_checks", got.slotChecks);
    h::count("ownership_probes", got.probes);
    tally(s);
}
}  // namespace hist
