#pragma once
#include "common.hpp"
#include <XAD/XAD.hpp>
#include <XAD/Complex.hpp>
#include <complex>
#include <memory>
#include <vector>
template <class T, class S>
struct CArgs { const std::complex<T>&z, &w; const std::complex<S>& cz; const T &x, &y; S s; int i; };
template <class T>
struct CRes
{
    std::unique_ptr<T> re, im;
    template <class U> void operator()(const std::complex<U>& v) { re.reset(new T(v.real())); im.reset(new T(v.imag())); }
    template <class E> void operator()(const E& v) { re.reset(new T(v)); im.reset(new T(0)); }
};
template <class T, class S>
bool cform(int id, const CArgs<T, S>& ca, CRes<T>& k);
struct CName { int id; const char* name; };
const std::vector<CName>& cformNames();
