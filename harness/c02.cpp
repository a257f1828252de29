// C02: tangents of every variable of random programs vs. reference multi-dual arithmetic.
#include "prog.hpp"
using namespace h;

template <class D> struct Tol;
template <> struct Tol<double> { static const char* n() { return "double"; } static double eps() { return 2.2e-16; } };
template <> struct Tol<float> { static const char* n() { return "float"; } static double eps() { return 1.2e-7; } };
static const double LIMIT = 5e5;

template <class D>
static void one(Rng& r, bool show)
{
    typedef xad::FReal<D> T;
    const std::string tn = std::string("FReal<") + Tol<D>::n() + ">";
    const bool fl = sizeof(D) == 4;
    GenLimits L;
    if (fl) { L.minKink = 2e-2; L.maxMag = 30; L.maxMajorant = 3e3; L.maxLen = 15; }
    else if (r.chance(0.2)) L.maxLen = 80;
    L.specialPoints = r.chance(0.3);
    Program P = genProgram(r, L);
    std::vector<double> dir(P.nIn);
    for (auto& d : dir) d = r.chance(0.2) ? 0.0 : r.chance(0.4) ? 1.0 : double(float(r.uni(-2, 2)));
    auto ref = runRef(P, {dir});
    bool nontrivial = false;
    where(tn);
    State<T> st;
    st.x.resize(P.nIn);
    int setter = int(r.below(3));
    for (int k = 0; k < P.nIn; ++k)
    {
        if (setter == 0) { st.x[k] = D(P.x0[k]); xad::derivative(st.x[k]) = D(dir[k]); }
        else if (setter == 1) { st.x[k] = T(D(P.x0[k]), D(dir[k])); }
        else { xad::value(st.x[k]) = D(P.x0[k]); st.x[k].setDerivative(D(dir[k])); }
    }
    execAll(st, P);
    auto cmp = [&](const T& v, const ref::R& w, const char* what, int idx) {
        double got = double(xad::derivative(v)), ex = double(w.c[1]), m = double(w.m[1]) + std::fabs(ex);
        if (ex != 0) nontrivial = true;
        double err = std::fabs(got - ex) / (Tol<D>::eps() * (1 + m));
        if (!(err <= LIMIT) || v.getDerivative() != xad::derivative(v))
            violation("tangent:" + tn, fmt("%s %d: tangent %.17g, exact %.17g (err %.3g units); program %s", what, idx, got, ex, err, P.str().substr(0, 3000).c_str()));
        else maxi("max_err_units_" + tn, err);
        count("tangents_compared");
    };
    for (int k = 0; k < NREG; ++k)
        if (st.reg[k]) cmp(*st.reg[k], *ref.reg[k], "register", k);
    for (int k = 0; k < P.nIn; ++k) cmp(st.x[k], ref.x[k], "input", k);
    for (int k = 0; k < P.nIn; ++k)
    {
        // assigning a constant makes it passive
        st.x[k] = D(2);
        if (xad::derivative(st.x[k]) != 0) violation("tangent:assign-constant:" + tn, "assignment of a constant keeps a derivative");
    }
    for (auto& in : P.code) count(in.kind == OP_FORM ? std::string("form") : std::string("op_") + opName(in.kind));
    evaluated(hashStr(P.str()), nontrivial);
    if (show) sample(P.str().substr(0, 900));

    // agreement with adjoint mode
    typedef xad::AReal<D> A;
    static xad::Tape<D> tape;
    where("AReal<" + std::string(Tol<D>::n()) + ">");
    State<A> sa;
    sa.x.resize(P.nIn);
    for (int k = 0; k < P.nIn; ++k) sa.x[k] = D(P.x0[k]);
    tape.registerInputs(sa.x);
    tape.newRecording();
    std::vector<A> orig;  // inputs may be overwritten by the program
    execAll(sa, P);
    int o = P.outs[r.below(P.outs.size())];
    tape.registerOutput(*sa.reg[o]);
    xad::derivative(*sa.reg[o]) = D(1);
    tape.computeAdjoints();
    double sum = 0, mag = 0;
    for (int k = 0; k < P.nIn; ++k) { sum += double(xad::derivative(sa.x[k])) * dir[k]; mag += std::fabs(double(xad::derivative(sa.x[k])) * dir[k]); }
    double t = double(xad::derivative(*st.reg[o]));
    double unit = Tol<D>::eps() * (1 + mag + double(ref.reg[o]->m[1]) + std::fabs(t));
    if (!(std::fabs(sum - t) / unit <= 2 * LIMIT))
        violation("forward-vs-adjoint:" + tn, fmt("register %d: tangent %.17g, adjoint gradient * direction %.17g; program %s", o, t, sum, P.str().substr(0, 3000).c_str()));
    count("contractions_compared");
    tape.clearAll();
}

static void oneCase(long k, Rng& r)
{
    for (int q = 0; q < 12; ++q)
        if (k % 4 == 3) one<float>(r, k < 4 && q == 0);
        else one<double>(r, k < 4 && q == 0);
}
int main(int argc, char** argv) { return run(argc, argv, oneCase); }
