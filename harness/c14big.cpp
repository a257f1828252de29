// Recordings beyond the real chunk size (8M statements or operations), exact integer adjoints.
#include "common.hpp"
#include <XAD/XAD.hpp>
#include <array>
static const long CH = 8L * 1024 * 1024;
template <class S>
static void one(h::Rng& r, const char* name)
{
    typedef xad::AReal<S> T;
    typedef xad::Tape<S> Tape;
    Tape tape;
    std::string hist;
    for (int round = 0; round < 2; ++round)
    {
        // statements around a chunk multiple; operations per statement 2
        const bool byOps = r.chance(0.5);
        long total = byOps ? CH / 2 * r.range(1, 3) : CH * r.range(1, 2);
        total += r.chance(0.7) ? r.range(-3, 3) : r.range(-1000, 1000);
        const int NI = 5;
        T x[NI];
        for (int i = 0; i < NI; ++i) { x[i] = S(i); tape.registerInput(x[i]); }
        tape.newRecording();
        long base = tape.getNumStatements();
        T y = S(0) * x[0];           // active zero
        long cnt[NI] = {0};
        std::vector<std::pair<unsigned, long>> pos;  // position, statement index
        std::vector<std::array<long, NI>> at;
        long every = total / 4 + 1;
        uint32_t pat = uint32_t(r.next()) % 7 + 1;
        for (long k = 0; k < total; ++k)
        {
            int i = int((k * pat) % NI);
            // positions near the boundary and at a few other places
            long st = k + 1 + base;
            if ((st % CH < 2 || st % CH > CH - 2 || k % every == 0) && pos.size() < 40)
            {
                pos.push_back({tape.getPosition(), k});
                std::array<long, NI> a;
                for (int q = 0; q < NI; ++q) a[q] = cnt[q];
                at.push_back(a);
            }
            if (k % 1000 == 7) { y = y + x[i] * S(2); cnt[i] += 2; }
            else { y = y + x[i]; cnt[i] += 1; }
        }
        hist = h::fmt("%s %ld statements (pattern %u)", name, total + 1, pat);
        h::where(hist);
        if (long(tape.getNumStatements()) != base + total + 1) h::violation("big:statements", h::fmt("%u statements instead of %ld; ", tape.getNumStatements(), base + total + 1) + hist);
        if (long(tape.getNumOperations()) != 2 * total + 1) h::violation("big:operations", h::fmt("%u operations instead of %ld; ", tape.getNumOperations(), 2 * total + 1) + hist);
        if (long(tape.getPosition()) != base + total + 1) h::violation("big:position", h::fmt("position %u instead of %ld; ", tape.getPosition(), base + total + 1) + hist);
        // full sweep
        const S seed = S(1);
        xad::derivative(y) = seed;
        tape.computeAdjoints();
        // float cannot count beyond 2^24 exactly
        auto ok = [&](double got, double want) { return std::fabs(got - want) <= (sizeof(S) == 4 ? 1e-2 * std::fabs(want) : 0); };
        for (int i = 0; i < NI; ++i)
            if (!ok(xad::derivative(x[i]), double(cnt[i]))) h::violation(h::fmt("big:adjoint<%s>", name), h::fmt("adjoint of input %d is %.17g instead of %ld; ", i, double(xad::derivative(x[i])), cnt[i]) + hist);
        h::count("big_sweeps");
        // reset to a position near the boundary and record something else
        size_t p = r.below(uint32_t(pos.size()));
        tape.clearDerivatives();
        tape.resetTo(pos[p].first);
        if (long(tape.getPosition()) != long(pos[p].first)) h::violation("big:reset", h::fmt("position %u after a reset to %u; ", tape.getPosition(), pos[p].first) + hist);
        long extra = r.range(1, 2000);
        for (long k = 0; k < extra; ++k) y = y + x[k % NI] * S(3);
        xad::derivative(y) = seed;
        tape.computeAdjoints();
        std::array<long, NI> want0;
        for (int i = 0; i < NI; ++i)
        {
            long want = want0[i] = at[p][i] + 3 * (extra / NI + (i < extra % NI ? 1 : 0));
            if (!ok(xad::derivative(x[i]), double(want))) h::violation(h::fmt("big:reset-adjoint<%s>", name), h::fmt("adjoint of input %d is %.17g instead of %ld after a reset to %u; ", i, double(xad::derivative(x[i])), want, pos[p].first) + hist);
        }
        h::count("big_resets");
        // partial sweeps in segments, each followed by a reset
        tape.clearDerivatives();
        xad::derivative(y) = seed;
        std::array<long, NI> full = want0;
        for (size_t q = p + 1; q-- > 0;)
        {
            if (q && r.chance(0.3)) continue;
            tape.computeAdjointsTo(pos[q].first);
            for (int i = 0; i < NI; ++i)
                if (!ok(xad::derivative(x[i]), double(full[i] - at[q][i])))
                    h::violation(h::fmt("big:partial<%s>", name), h::fmt("after rolling back to position %u the adjoint of input %d is %.17g instead of %ld; ", pos[q].first, i, double(xad::derivative(x[i])), full[i] - at[q][i]) + hist);
            tape.resetTo(pos[q].first);
            h::count("big_partial_sweeps");
            h::evaluated(h::mix(h::mix(total, pat), q), true);
        }
    }
    h::sample(hist);
}
static void oneCase(long k, h::Rng& r)
{
    if (k % 3 == 2) one<float>(r, "float"); else one<double>(r, "double");
}
int main(int argc, char** argv) { return h::run(argc, argv, oneCase); }
