// The catalogue of expression forms, usable with plain floating-point numbers, the reference type
// and every XAD type.
#pragma once
#include "ref.hpp"
#include <XAD/XAD.hpp>
#include <algorithm>
#include <memory>
#include <string>

// nested floating-point type
template <class T>
struct NestedF
{
    typedef typename xad::ExprTraits<T>::nested_type type;
};
template <>
struct NestedF<ref::R>
{
    typedef double type;
};

// functions that have no std counterpart: documented formulas for plain numbers, independent of XAD
namespace X
{
using ref::smooth_abs;
using ref::smooth_max;
using ref::smooth_min;
using ref::degrees;
using ref::radians;
using xad::degrees;
using xad::radians;
template <class F>
using EnF = typename std::enable_if<std::is_floating_point<F>::value && std::is_fundamental<F>::value, F>::type;
template <class F>
struct Id { typedef F type; };
template <class F> EnF<F> degrees(F x) { return x * F(57.2957795130823208767981548141051703324054725); }
template <class F> EnF<F> radians(F x) { return x * F(0.0174532925199432957692369076848861271344287); }
template <class F> EnF<F> sabs(F x, F c)
{
    if (std::fabs(x) > c) return std::fabs(x);
    if (x < 0) return x * x * (F(2) / c + x / (c * c));
    return x * x * (F(2) / c - x / (c * c));
}
template <class F> EnF<F> smooth_abs(F x) { return sabs(x, F(0.001)); }
template <class F> EnF<F> smooth_abs(F x, F c) { return sabs(x, c); }
template <class F> EnF<F> smooth_abs(int x, F c) { return sabs(F(x), c); }
template <class F> EnF<F> smooth_abs(F x, int c) { return sabs(x, F(c)); }
template <class F> EnF<F> smooth_max(F x, F y, F c = F(0.001)) { return F(0.5) * (x + y + sabs(x - y, c)); }
template <class F> EnF<F> smooth_min(F x, F y, F c = F(0.001)) { return F(0.5) * (x + y - sabs(x - y, c)); }
// XAD versions through ADL wrappers
template <class E> auto smooth_abs(const E& x) -> typename std::enable_if<xad::ExprTraits<E>::isExpr, decltype(xad::smooth_abs(x))>::type { return xad::smooth_abs(x); }
template <class E, class F> auto smooth_abs(const E& x, const F& c) -> typename std::enable_if<xad::ExprTraits<E>::isExpr || xad::ExprTraits<F>::isExpr, decltype(xad::smooth_abs(x, c))>::type { return xad::smooth_abs(x, c); }
template <class E, class F> auto smooth_max(const E& x, const F& c) -> typename std::enable_if<xad::ExprTraits<E>::isExpr || xad::ExprTraits<F>::isExpr, decltype(xad::smooth_max(x, c))>::type { return xad::smooth_max(x, c); }
template <class E, class F> auto smooth_min(const E& x, const F& c) -> typename std::enable_if<xad::ExprTraits<E>::isExpr || xad::ExprTraits<F>::isExpr, decltype(xad::smooth_min(x, c))>::type { return xad::smooth_min(x, c); }
template <class E, class F, class G> auto smooth_max(const E& x, const F& y, const G& c) -> typename std::enable_if<xad::ExprTraits<E>::isExpr || xad::ExprTraits<F>::isExpr, decltype(xad::smooth_max(x, y, c))>::type { return xad::smooth_max(x, y, c); }
template <class E, class F, class G> auto smooth_min(const E& x, const F& y, const G& c) -> typename std::enable_if<xad::ExprTraits<E>::isExpr || xad::ExprTraits<F>::isExpr, decltype(xad::smooth_min(x, y, c))>::type { return xad::smooth_min(x, y, c); }
}  // namespace X

template <class T, bool = xad::ExprTraits<T>::isExpr>
struct PownHelp
{
    template <class E>
    static auto go(const E& e, int i) -> decltype(xad::pown(e, i)) { return xad::pown(e, i); }
};
template <class T>
struct PownHelp<T, false>
{
    template <class E>
    static T go(const E& e, int i) { using std::pow; return T(pow(e, i)); }
};
template <class E>
inline auto pown_(const E& e, int i) -> decltype(PownHelp<E>::go(e, i)) { return PownHelp<E>::go(e, i); }

enum SinkMode { SK_ASSIGN, SK_NEW, SK_ADD, SK_SUB, SK_MUL, SK_DIV };

template <class T>
struct Sink
{
    int mode;
    std::unique_ptr<T>* dst;
    template <class E>
    void operator()(const E& e) const
    {
        switch (mode)
        {
            case SK_ASSIGN: **dst = e; break;
            case SK_NEW: dst->reset(new T(e)); break;
            case SK_ADD: **dst += e; break;
            case SK_SUB: **dst -= e; break;
            case SK_MUL: **dst *= e; break;
            case SK_DIV: **dst /= e; break;
        }
    }
};
// evaluates into a fresh value only (cheap to instantiate)
template <class T>
struct NewSink
{
    std::unique_ptr<T>* dst;
    int mode;
    template <class E>
    void operator()(const E& e) const
    {
        if (mode == SK_ASSIGN) **dst = e;
        else dst->reset(new T(e));
    }
};

enum Group { G_UNARY, G_ARITH, G_FUNC, G_DEEP, N_GROUPS };

template <class T>
struct FormArgs
{
    typedef typename NestedF<T>::type S;
    const T& a;
    const T& b;
    const T& c;
    S s;
    int i;
    int* io;
    S* fo;
};

#define FORM_GROUP(NAME, FILE)                                                                                         \
    template <class T, class K>                                                                                        \
    bool NAME(int id, const FormArgs<T>& fa, const K& k);
FORM_GROUP(forms_unary, _)
FORM_GROUP(forms_arith, _)
FORM_GROUP(forms_func, _)
FORM_GROUP(forms_deep, _)
#undef FORM_GROUP

template <class T, class K>
bool formDispatch(int group, int id, const FormArgs<T>& fa, const K& k)
{
    switch (group)
    {
        case G_UNARY: return forms_unary<T, K>(id, fa, k);
        case G_ARITH: return forms_arith<T, K>(id, fa, k);
        case G_FUNC: return forms_func<T, K>(id, fa, k);
        case G_DEEP: return forms_deep<T, K>(id, fa, k);
    }
    return false;
}

struct FormName { int id; const char* name; };
const std::vector<FormName>& formNames(int group);
