// C01: adjoint gradients of random programs vs. the reference multi-dual arithmetic.
#include "prog.hpp"
using namespace h;

template <class D>
struct Tol;
template <> struct Tol<double> { static const char* n() { return "double"; } static double eps() { return 2.2e-16; } };
template <> struct Tol<float> { static const char* n() { return "float"; } static double eps() { return 1.2e-7; } };

// ratio above which a deviation is reported, in units of eps*(1+majorant); the worst ratio seen on
// correct code is reported in the evidence
static const double LIMIT = 5e5;

template <class D>
static void checkAdjoint(xad::Tape<D>& tape, const Program& P, const std::vector<double>& seeds, const std::vector<std::vector<double>>& want,
                         const std::vector<std::vector<double>>& maj, Rng& r)
{
    typedef xad::AReal<D> T;
    std::string tn = Tol<D>::n();
    where("AReal<" + tn + ">");
    State<T> st;
    st.x.resize(P.nIn);
    for (int k = 0; k < P.nIn; ++k) st.x[k] = D(P.x0[k]);
    if (r.chance(0.5)) { tape.registerInputs(st.x); }
    else for (auto& v : st.x) tape.registerInput(v);
    tape.newRecording();
    execAll(st, P);
    for (int o : P.outs) tape.registerOutput(*st.reg[o]);
    for (size_t o = 0; o < P.outs.size(); ++o) xad::derivative(*st.reg[P.outs[o]]) += D(seeds[o]);
    tape.computeAdjoints();
    count("statements", tape.getNumStatements());
    count("operations", tape.getNumOperations());
    for (int k = 0; k < P.nIn; ++k)
    {
        double got = double(xad::derivative(st.x[k]));
        double w = 0, m = 0;
        for (size_t o = 0; o < P.outs.size(); ++o) { w += seeds[o] * want[k][o]; m += std::fabs(seeds[o]) * maj[k][o]; }
        double err = std::fabs(got - w) / (Tol<D>::eps() * (1 + m));
        if (!(err <= LIMIT))
            violation("gradient:AReal<" + tn + ">", fmt("input %d: adjoint %.17g, exact %.17g (err %.3g units); program %s", k, got, w, err, P.str().substr(0, 3000).c_str()));
        else maxi("max_err_units_" + tn, err);
        count("derivatives_compared");
    }
}

template <class D>
static void batch(long k, Rng& r)
{
    const bool fl = sizeof(D) == 4;
    xad::Tape<D> tape;
    const int nProg = 12;
    for (int q = 0; q < nProg; ++q)
    {
        if (q && r.chance(0.3)) tape.clearAll();
        GenLimits L;
        if (fl) { L.minKink = 2e-2; L.maxMag = 30; L.maxMajorant = 3e3; L.maxLen = 15; }
        else if (q % 4 == 1) L.maxLen = 80;
        L.specialPoints = q % 3 == 0;
        Program P = genProgram(r, L);
        std::vector<double> seeds;
        for (size_t o = 0; o < P.outs.size(); ++o) seeds.push_back(r.chance(0.5) ? 1.0 : double(float(r.uni(-3, 3))));
        std::vector<std::vector<double>> want(P.nIn), maj(P.nIn);
        for (int b = 0; b < P.nIn; b += 3)
        {
            std::vector<std::vector<double>> dirs;
            for (int i = b; i < P.nIn && i < b + 3; ++i) dirs.push_back(unitDir(P.nIn, i));
            auto st = runRef(P, dirs);
            for (size_t i = 0; i < dirs.size(); ++i)
                for (int o : P.outs)
                {
                    want[b + i].push_back(double(st.reg[o]->c[1 << i]));
                    maj[b + i].push_back(double(st.reg[o]->m[1 << i]) + std::fabs(want[b + i].back()));
                }
        }
        for (auto& in : P.code) count(in.kind == OP_FORM ? std::string("form") : std::string("op_") + opName(in.kind));
        bool nontrivial = false;
        for (auto& w : want) for (double v : w) if (v != 0) nontrivial = true;
        evaluated(hashStr(P.str()), nontrivial);
        if (k < 2 && q == 0) sample(P.str().substr(0, 900));
        checkAdjoint<D>(tape, P, seeds, want, maj, r);
    }
}

static void oneCase(long k, Rng& r)
{
    if (k % 4 == 3) batch<float>(k, r);
    else batch<double>(k, r);
}

int main(int argc, char** argv) { return run(argc, argv, oneCase); }
