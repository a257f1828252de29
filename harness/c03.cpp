// C03: mixed second and third derivatives of random programs in every nesting vs. the reference.
// Type list given by -DTYPES=... (names in checks.py); one case = one program in one nesting.
#include "prog.hpp"
#include "deriv.hpp"
using namespace h;

template <class T> struct Info;  // leaf and order
template <> struct Info<double> { typedef double D; static const int order = 0; static std::string n() { return "double"; } static double eps() { return 2.2e-16; } };
template <> struct Info<float> { typedef float D; static const int order = 0; static std::string n() { return "float"; } static double eps() { return 1.2e-7; } };
template <class I> struct Info<xad::FReal<I>> { typedef typename Info<I>::D D; static const int order = 1 + Info<I>::order; static std::string n() { return "FReal<" + Info<I>::n() + ">"; } static double eps() { return Info<I>::eps(); } };
template <class I> struct Info<xad::AReal<I>> { typedef typename Info<I>::D D; static const int order = 1 + Info<I>::order; static std::string n() { return "AReal<" + Info<I>::n() + ">"; } static double eps() { return Info<I>::eps(); } };

static const double LIMIT = 1e6;

// one persistent driver per type: the tapes of all levels are re-used between cases
template <class T>
static void program(Driver<T>& drv, Rng& r, bool show)
{
    typedef typename Info<T>::D D;
    const int N = Info<T>::order;
    const std::string tn = Info<T>::n();
    const bool fl = sizeof(D) == 4;
    GenLimits L;
    L.noInputMod = true;
    L.maxLen = 14;
    L.maxMajorant = 1e6;
    if (fl) { L.minKink = 5e-2; L.maxMag = 20; L.maxMajorant = 1e3; L.maxLen = 8; }
    else { L.minKink = 1e-2; L.maxMag = 60; }
    L.specialPoints = r.chance(0.5);
    L.maxIn = 3;
    Program P = genProgram(r, L);
    // reference with directions = the chosen inputs at each level
    for (int q = 0; q < 3; ++q)
    {
        int idx[4] = {-1, -1, -1, -1};
        std::vector<std::vector<double>> dirs;
        int used = 0, mask = 0;
        for (int l = 0; l < N; ++l)
        {
            idx[l] = (q && r.chance(0.15)) ? -1 : int(r.below(P.nIn));
            std::vector<double> d(P.nIn, 0.0);
            if (idx[l] >= 0) { d[idx[l]] = 1; mask |= 1 << l; ++used; }
            dirs.push_back(d);
        }
        auto ref = runRef(P, dirs);
        int o = P.outs[r.below(P.outs.size())];
        double ex = double(ref.reg[o]->c[mask]), m = double(ref.reg[o]->m[mask]);
        for (int i = 0; i < 8; ++i) m = std::max(m, double(ref.reg[o]->m[i]));
        where(tn);
        {
            State<T> st;
            st.x.resize(P.nIn);
            for (int k = 0; k < P.nIn; ++k) st.x[k] = D(P.x0[k]);
            std::vector<T*> xp;
            for (auto& v : st.x) xp.push_back(&v);
            drv.prepare(xp, idx);
            execAll(st, P);
            double got = double(drv.extract(*st.reg[o], xp, idx));
            double err = std::fabs(got - ex) / (Info<T>::eps() * (1 + m));
            if (!(err <= LIMIT))
                violation("mixed:" + tn, fmt("d^%d/d(%d,%d,%d) r%d = %.17g, exact %.17g (err %.3g units); program %s", used, idx[0], idx[1], idx[2], o, got, ex, err, P.str().substr(0, 3000).c_str()));
            else { maxi("max_err_units_" + std::string(fl ? "float" : "double"), err); maxi("max_err_units_" + tn, err); }
            count("mixed_derivatives_compared");
            count("order_" + std::to_string(used));
            if (ex == 0 && used > 1) count("exact_zero_derivative");
        }
        evaluated(hashStr(P.str() + tn) + mask * 77 + idx[0] + idx[1] * 5 + idx[2] * 25, ex != 0);
    }
    count("type_" + tn);
    for (auto& in : P.code) count(in.kind == OP_FORM ? std::string("form") : std::string("op_") + opName(in.kind));
    if (show) sample(tn + ": " + P.str().substr(0, 700));
}

template <class T>
static void one(Rng& r, bool show)
{
    Driver<T> drv;  // creates and activates the tapes of all adjoint levels
    for (int q = 0; q < 12; ++q) program<T>(drv, r, show && q == 0);
}

using namespace xad;
typedef double D0;
typedef float S0;
typedef void (*Fn)(Rng&, bool);
#define T1(X) one<X>,
static const Fn table[] = {TYPES};
static void oneCase(long k, Rng& r)
{
    table[k % (sizeof table / sizeof *table)](r, k < 3);
}
int main(int argc, char** argv) { return run(argc, argv, oneCase); }
