// Operation mixes per property.
#pragma once
#include "hist.hpp"
namespace hist
{
inline Profile profile(int prop, h::Rng& r)
{
    Profile p = Profile::base();
    switch (prop)
    {
        case 7: p.set({{PROBE, 2}, {COUNTS, 2}}); break;
        case 8: p.set({{NEWREC, 5}, {CLEARALL, 2}, {CLEARDER, 4}, {SWEEP, 5}, {SEEDADD, 4}, {SEED, 8}, {COUNTS, 4}, {REG, 4}, {REGALL, 1.5}, {WIPE, 0.6}, {PROBE, 0.3}, {DEACT, 0.3}, {ACT, 3}}); break;
        case 9: p.set({{GETPOS, 6}, {SWEEPTO, 6}, {RESET, 5}, {CLRAFTER, 4}, {READALL, 5}, {SEED, 10}, {NEWREC, 1}, {COUNTS, 2}, {PROBE, 0.2}, {WIPE, 0.05}, {CKPT, r.chance(0.3) ? 3 : 0}});
            if (r.chance(0.4)) p.set({{DEL, 0.1}, {VERASE, 0}, {VCLEAR, 0}, {FN, 0}, {WIPE, 0}, {VRESIZE, 0}, {INC, 0}, {CLRAFTER, 6}});
            break;
        case 10: p.set({{CKPT, 14}, {PUSHCB, 1}, {POPCB, 0.7}, {GETPOS, 3}, {SWEEPTO, 2.5}, {RESET, 1.5}, {SEED, 10}, {SWEEP, 4}, {READALL, 4}, {PROBE, 0.3}, {CLRAFTER, 0.5}}); break;
        case 11: p.set({{M_ACTIVE, 3}, {M_SWEEP, 6}, {M_SLOT, 5}, {M_INCR, 3}, {M_CBEMPTY, 3}, {M_NOTAPE, 8}, {DEACT, 2.5}, {ACT, 6}, {PUSHCB, 0.5}, {POPCB, 1}, {CKPT, 1}, {GETPOS, 1}, {SWEEPTO, 1}, {RESET, 0.7}, {READALL, 4}, {CLEARDER, 3}}); break;
        case 13: p.set({{TMOVE, 4}, {TMASG, 4}, {CKPT, 2}, {PUSHCB, 1}, {POPCB, 0.5}, {GETPOS, 2}, {SWEEPTO, 1.5}, {RESET, 1}, {CLRAFTER, 0.5}, {DEACT, 1}, {ACT, 5}, {M_ACTIVE, 0.5}, {M_SWEEP, 1}, {COUNTS, 3}, {READALL, 4}, {PROBE, 0.5}}); break;
        case 18: p.set({{NEW, 8}, {NEWREG, 2}, {ASGK, 5}, {COUNTS, 12}, {DEACT, 2.5}, {ACT, 5}, {M_NOTAPE, 1}, {READALL, 4}, {REG, 1.5}, {REGOUT, 0.5}, {SEED, 4}, {EXPRC, 16}, {CMPX, 8}, {CMPV, 8}}); break;
        default:
            for (int c = 0; c < NCODES; ++c) if (r.chance(0.15)) p.w[c] *= 5;
            p.set({{GETPOS, 2}, {SWEEPTO, 2}, {RESET, 1.5}, {CLRAFTER, 1}, {CKPT, 3}, {PUSHCB, 0.5}, {POPCB, 0.5}, {TMOVE, 0.7}, {TMASG, 0.7}, {DEACT, 0.7}, {ACT, 5}, {M_ACTIVE, 0.3}, {M_SWEEP, 0.6}, {M_SLOT, 0.5}, {M_INCR, 0.3}, {M_CBEMPTY, 0.3}, {M_NOTAPE, 0.5}});
    }
    return p;
}
}  // namespace hist
