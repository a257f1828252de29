#include "c06.hpp"
#ifdef NAMES
#define F(...) {__LINE__, #__VA_ARGS__},
#define B(...) {__LINE__, #__VA_ARGS__},
const std::vector<CName>& cformNames()
{
    static const std::vector<CName> v = {
#include "cforms.inc"
    };
    return v;
}
#else
#define F(...) case __LINE__: { k(__VA_ARGS__); return true; }
#define B(...) case __LINE__: { std::complex<T> t = z, u = w; __VA_ARGS__; k(t); return true; }
template <class T, class S>
bool cform(int id, const CArgs<T, S>& ca, CRes<T>& k)
{
    using namespace std;
    const std::complex<T>&z = ca.z, &w = ca.w;
    const std::complex<S>& cz = ca.cz;
    const T &x = ca.x, &y = ca.y;
    const S s = ca.s;
    const int i = ca.i;
    switch (id)
    {
#include "cforms.inc"
    }
    return false;
}
template bool cform<TT, SS>(int, const CArgs<TT, SS>&, CRes<TT>&);
#endif
