// Random histories of public calls against the reference model; --prop selects the mix of operations (profiles.hpp).
#include "hmain.hpp"
#include "profiles.hpp"
using namespace hist;
template <class D>
static void one(h::Rng& r, int prop, int type, bool show)
{
    Gen<D> g(r, profile(prop, r), type);
    g.maxRegs = r.chance(0.3) ? 8 : 40;
    g.mixed(r.range(1, r.chance(0.2) ? 12 : 4), r.range(8, 50));
    g.must(COUNTS);
    if (r.chance(0.5)) g.must(PROBE);
    Story s = tell(g, type);
    if (show) h::sample(opsStr(s.ops, 12));
    checkStory(s, "history");
}
static void oneCase(long k, h::Rng& r)
{
    static const int prop = atoi(h::ctx().opts["--prop"].c_str());
    int type = int(k % 8);
    type = type < 5 ? 0 : type - 4;
    if (type == 1) one<float>(r, prop, 1, k < 2);
    else one<double>(r, prop, type, k < 2);
}
int main(int argc, char** argv) { return h::run(argc, argv, oneCase); }
