#include <XAD/XAD.hpp>
#include <string>
template <class I> static const void* act() { return xad::Tape<I>::getActive(); }
const void* activeTape(int type)
{
    switch (type) { case 0: return act<double>(); case 1: return act<float>(); case 2: return act<xad::FReal<double>>(); default: return act<xad::AReal<double>>(); }
}
template <class I> static bool probe(std::string& err, bool viaSet)
{
    typedef xad::Tape<I> T;
    typedef xad::AReal<I> A;
    auto bad = [&](const char* w) { if (err.empty()) err = w; };
    if (T::getActive()) bad("a tape is active before any was activated on this thread");
    {
        T t(false);
        if (T::getActive() || t.isActive()) bad("inactive tape is active");
        try { if (viaSet) T::setActive(&t); else t.activate(); }
        catch (const xad::TapeAlreadyActive&) { bad("activation refused although no tape is active on this thread"); return false; }
        if (T::getActive() != &t || !t.isActive()) bad("the activated tape is not the active one of this thread");
        A x(2.0);
        t.registerInput(x);
        t.newRecording();
        A y = x * x * x;
        if (t.getNumStatements() != 1 || t.getNumVariables() != 2) bad("statements missing or foreign");
        t.registerOutput(y);
        xad::derivative(y) = I(1.0);
        t.computeAdjoints();
        if (!(xad::derivative(x) == I(12.0))) bad("wrong adjoint");
        if (T::getActive() != &t) bad("another tape became active");
        if (viaSet) T::deactivateAll(); else t.deactivate();
        if (T::getActive() || t.isActive()) bad("deactivated tape is active");
        t.activate();
    }
    if (T::getActive()) bad("destroyed tape is active");
    return err.empty();
}
bool visibilityProbe(int type, std::string& err, bool viaSet)
{
    switch (type) { case 0: return probe<double>(err, viaSet); case 1: return probe<float>(err, viaSet); case 2: return probe<xad::FReal<double>>(err, viaSet); default: return probe<xad::AReal<double>>(err, viaSet); }
}
