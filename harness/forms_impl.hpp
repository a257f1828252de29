// definitions of the form groups; include after selecting -DGROUP=n
#pragma once
#include "forms.hpp"
#define FORM_PROLOGUE                                                                                                  \
    using namespace std;                                                                                               \
    typedef typename FormArgs<T>::S S;                                                                                 \
    const T &a = fa.a, &b = fa.b, &c = fa.c;                                                                           \
    const S s = fa.s;                                                                                                  \
    const int i = fa.i;                                                                                                \
    int* io = fa.io;                                                                                                   \
    S* fo = fa.fo;                                                                                                     \
    (void)a; (void)b; (void)c; (void)s; (void)i; (void)io; (void)fo;
#define F(...) case __LINE__: { k(__VA_ARGS__); return true; }
template <class T, class K>
bool forms_unary(int id, const FormArgs<T>& fa, const K& k)
{
    FORM_PROLOGUE
    switch (id) {
#include "forms_unary.inc"
    }
    return false;
}
template <class T, class K>
bool forms_arith(int id, const FormArgs<T>& fa, const K& k)
{
    FORM_PROLOGUE
    switch (id) {
#include "forms_arith.inc"
    }
    return false;
}
template <class T, class K>
bool forms_func(int id, const FormArgs<T>& fa, const K& k)
{
    FORM_PROLOGUE
    switch (id) {
#include "forms_func.inc"
    }
    return false;
}
template <class T, class K>
bool forms_deep(int id, const FormArgs<T>& fa, const K& k)
{
    FORM_PROLOGUE
    switch (id) {
#include "forms_deep.inc"
    }
    return false;
}
#undef F
