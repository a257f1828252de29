// Extraction of a mixed derivative from any nesting of forward/adjoint types.
#pragma once
#include <XAD/XAD.hpp>
#include <vector>

template <class T>
struct Driver
{
    // floating-point leaf
    typedef T D;
    void prepare(std::vector<T*>&, const int*) {}
    T extract(T& y, std::vector<T*>&, const int*) { return y; }
};

template <class I>
struct Driver<xad::FReal<I>>
{
    typedef xad::FReal<I> T;
    typedef typename Driver<I>::D D;
    Driver<I> inner;
    static std::vector<I*> in(std::vector<T*>& x)
    {
        std::vector<I*> r;
        for (auto p : x) r.push_back(&xad::value(*p));
        return r;
    }
    void prepare(std::vector<T*>& x, const int* idx)
    {
        auto xi = in(x);
        inner.prepare(xi, idx + 1);
        if (idx[0] >= 0) xad::derivative(*x[idx[0]]) = 1.0;
    }
    D extract(T& y, std::vector<T*>& x, const int* idx)
    {
        auto xi = in(x);
        I& d = idx[0] >= 0 ? xad::derivative(y) : xad::value(y);
        return inner.extract(d, xi, idx + 1);
    }
};

template <class I>
struct Driver<xad::AReal<I>>
{
    typedef xad::AReal<I> T;
    typedef typename Driver<I>::D D;
    Driver<I> inner;
    xad::Tape<I> tape;
    void prepare(std::vector<T*>& x, const int* idx)
    {
        auto xi = Driver<xad::AReal<I>>::in(x);
        inner.prepare(xi, idx + 1);
        for (auto p : x) tape.registerInput(*p);
        tape.newRecording();
    }
    static std::vector<I*> in(std::vector<T*>& x)
    {
        std::vector<I*> r;
        for (auto p : x) r.push_back(&xad::value(*p));
        return r;
    }
    D extract(T& y, std::vector<T*>& x, const int* idx)
    {
        auto xi = in(x);
        if (idx[0] < 0) return inner.extract(xad::value(y), xi, idx + 1);
        tape.registerOutput(y);
        xad::derivative(y) = 1.0;
        tape.computeAdjoints();
        I& d = xad::derivative(*x[idx[0]]);
        return inner.extract(d, xi, idx + 1);
    }
};
