// C19: AD types inside the standard library: streams, strings, hashing, limits, traits, containers, algorithms,
// random distributions and std:: qualified functions, compared with the plain floating-point type; derivatives
// through containers and algorithms compared with the reference type going through the same algorithm.
#include <XAD/XAD.hpp>
#include "ref.hpp"
#include "common.hpp"
#include "deriv.hpp"
#include <XAD/StdCompatibility.hpp>
#include <algorithm>
#include <array>
#include <deque>
#include <iomanip>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
using namespace h;

namespace std { template <> struct hash<ref::R> { size_t operator()(const ref::R& r) const { return std::hash<double>()(double(r.c[0])); } }; }

template <class T> struct Info;
template <> struct Info<double> { typedef double D; static const int order = 0; static std::string n() { return "double"; } };
template <> struct Info<float> { typedef float D; static const int order = 0; static std::string n() { return "float"; } };
template <> struct Info<ref::R> { typedef double D; static const int order = 0; static std::string n() { return "reference"; } };
template <class I> struct Info<xad::FReal<I>> { typedef typename Info<I>::D D; static const int order = 1 + Info<I>::order; static std::string n() { return "FReal<" + Info<I>::n() + ">"; } };
template <class I> struct Info<xad::AReal<I>> { typedef typename Info<I>::D D; static const int order = 1 + Info<I>::order; static std::string n() { return "AReal<" + Info<I>::n() + ">"; } };

template <class X> static X& leafRef(X& x) { return x; }
template <class X> static auto& leafRef(xad::FReal<X>& x);
template <class X> static auto& leafRef(xad::AReal<X>& x) { return leafRef(x.value()); }
template <class X> static auto& leafRef(xad::FReal<X>& x) { return leafRef(x.value()); }
static double leaf(double x) { return x; }
static double leaf(float x) { return x; }
static double leaf(const ref::R& r) { return double(r.c[0]); }
template <class X> static double leaf(const xad::AReal<X>& x);
template <class X> static double leaf(const xad::FReal<X>& x) { return leaf(x.value()); }
template <class X> static double leaf(const xad::AReal<X>& x) { return leaf(x.value()); }

template <class D> static bool same(D a, D b) { return (a != a && b != b) || memcmp(&a, &b, sizeof a) == 0; }

template <class D>
static D anyValue(Rng& r)
{
    typedef std::numeric_limits<D> L;
    switch (r.below(10))
    {
        case 0: { const D s[] = {D(0), -D(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), D(1), D(-1)}; return s[r.below(12)]; }
        case 1: case 2: return D(r.range(-1000, 1000));
        case 3: return D(r.range(-1000, 1000)) / D(8);
        case 4: return D(std::ldexp(r.uni(-1, 1), r.range(L::min_exponent - 5, L::max_exponent - 1)));
        default: return D(std::ldexp(r.uni(-1, 1), r.range(-20, 30)));
    }
}

// ---- text ---------------------------------------------------------------------------------------------------
template <class S>
static std::string setup(Rng& r, S& os)
{
    std::string d;
    auto f = [&](const char* n) { d += n; };
    switch (r.below(5)) { case 0: os << std::fixed; f("fixed "); break; case 1: os << std::scientific; f("sci "); break; case 2: os << std::hexfloat; f("hexfloat "); break; default: break; }
    if (r.chance(0.6)) { int p = r.range(0, 20); os << std::setprecision(p); d += fmt("prec%d ", p); }
    if (r.chance(0.5)) { int w = r.range(0, 30); os << std::setw(w); d += fmt("w%d ", w); }
    if (r.chance(0.3)) { os << std::setfill(typename S::char_type('*')); f("fill "); }
    if (r.chance(0.3)) { os << std::showpos; f("showpos "); }
    if (r.chance(0.2)) { os << std::showpoint; f("showpoint "); }
    if (r.chance(0.2)) { os << std::uppercase; f("upper "); }
    if (r.chance(0.2)) { os << std::left; f("left "); }
    else if (r.chance(0.2)) { os << std::internal; f("internal "); }
    return d;
}
template <class D, class E, class Str, class MkX, class MkD>
static void cmpOut(Rng& r, const std::string& key, MkX x, MkD d)
{
    uint64_t s = r.next();
    Rng r1(s), r2(s);
    E a, b;
    std::string how = setup(r1, a);
    setup(r2, b);
    a << x();
    b << d();
    if (a.str() != b.str() || a.width() != b.width() || a.flags() != b.flags() || a.rdstate() != b.rdstate())
    {
        std::string A(a.str().begin(), a.str().end()), B(b.str().begin(), b.str().end());
        violation(key, fmt("%s: '%s' instead of '%s' (value %.17g)", how.c_str(), A.c_str(), B.c_str(), double(d())));
    }
    // a second item behaves the same (width consumed once)
    a << ' '; b << ' ';
    a << x(); b << d();
    if (a.str() != b.str()) violation(key + ":second", how + ": second item differs");
    count("texts_compared", 2);
}

// scalar constants next to expressions: the plain number (also for nested types)
template <class T>
static void text(Rng& r)
{
    typedef typename Info<T>::D D;
    const std::string tn = Info<T>::n();
    for (int q = 0; q < 6; ++q)
    {
        D u = anyValue<D>(r), v = anyValue<D>(r);
        T x = u, y = v;
        cmpOut<D, std::ostringstream, std::string>(r, "ostream:" + tn, [&]() -> const T& { return x; }, [&] { return u; });
        cmpOut<D, std::ostringstream, std::string>(r, "ostream_expr:" + tn, [&] { return x + y; }, [&] { return D(u + v); });
        cmpOut<D, std::ostringstream, std::string>(r, "ostream_expr:" + tn, [&] { return -(x * D(3)); }, [&] { return D(-(u * D(3))); });
        cmpOut<D, std::ostringstream, std::string>(r, "ostream_expr:" + tn, [&] { return xad::sqrt(x * x) * y; }, [&] { return D(std::sqrt(D(u * u)) * v); });
        cmpOut<D, std::wostringstream, std::wstring>(r, "wostream:" + tn, [&]() -> const T& { return y; }, [&] { return v; });
        if (std::to_string(x) != std::to_string(u)) violation("to_string:" + tn, fmt("'%s' instead of '%s'", std::to_string(x).c_str(), std::to_string(u).c_str()));
        if (std::to_string(x * y) != std::to_string(D(u * v))) violation("to_string_expr:" + tn, fmt("'%s' instead of '%s'", std::to_string(x * y).c_str(), std::to_string(D(u * v)).c_str()));
        if (std::to_string(y - D(2)) != std::to_string(D(v - D(2)))) violation("to_string_expr:" + tn, "x-2 differs");
        count("to_string_compared", 3);
        evaluated(hashBytes(&u, sizeof u) ^ hashBytes(&v, sizeof v) ^ hashStr(tn), true);
    }
}

static std::string token(Rng& r)
{
    static const char* bad[] = {"abc", "", "+", "-", ".", "e5", "1e", "--3", "0x", "inf", "nan", "1.5.2", "1,5", "1e+", "NaN", "infinity", "1e400", "-1e400", "1e-400", "3.4e39", "0x1p3", "1_000", "12abc", "+-1"};
    if (r.chance(0.25)) return bad[r.below(sizeof bad / sizeof *bad)];
    double v = anyValue<double>(r);
    if (std::fabs(v) > 1e30) v = r.range(-100, 100) * 0.5;
    switch (r.below(4)) { case 0: return fmt("%.17g", v); case 1: return fmt("%g", v); case 2: return fmt("%+.3e", v); default: return fmt("%d", r.range(-99, 99)); }
}

// adjoint variables: reading changes the value only
template <class T> struct Probe  // forward
{
    std::vector<T>& x;
    typedef int Tp;
    Probe(std::vector<T>& x_, Tp&) : x(x_) { for (size_t k = 0; k < x.size(); ++k) xad::derivative(x[k]) = typename Info<T>::D(k + 1); }
    void check(const std::string& key)
    {
        for (size_t k = 0; k < x.size(); ++k)
            if (leaf(xad::derivative(x[k])) != double(k + 1)) violation(key, fmt("the derivative of variable %zu became %g", k, leaf(xad::derivative(x[k]))));
        count("state_probes");
    }
};
template <class I> struct Probe<xad::AReal<I>>
{
    typedef xad::AReal<I> T;
    typedef typename Info<T>::D D;
    typedef xad::Tape<I> Tp;
    Tp& tape;
    std::vector<T>& x;
    T y;
    std::vector<int> reg;
    unsigned st, op;
    Probe(std::vector<T>& x_, Tp& t) : tape(t), x(x_)
    {
        for (size_t k = 0; k < x.size(); ++k) { bool on = k % 4 != 3; reg.push_back(on); if (on) tape.registerInput(x[k]); }
        tape.newRecording();
        y = T(D(0));
        for (size_t k = 0; k < x.size(); ++k) y += x[k] * D(k + 1);
        st = tape.getNumStatements(); op = tape.getNumOperations();
    }
    ~Probe() { x.clear(); }
    void check(const std::string& key)
    {
        if (tape.getNumStatements() != st || tape.getNumOperations() != op) violation(key + ":recorded", "statements were recorded");
        for (size_t k = 0; k < x.size(); ++k)
            if (x[k].shouldRecord() != bool(reg[k])) violation(key + ":registered", fmt("registration of variable %zu changed", k));
        xad::derivative(y) = D(1);
        tape.computeAdjoints();
        for (size_t k = 0; k < x.size(); ++k)
            if (reg[k] && leaf(xad::derivative(x[k])) != double(k + 1)) violation(key, fmt("the adjoint of variable %zu is %g instead of %zu", k, leaf(xad::derivative(x[k])), k + 1));
        tape.clearDerivatives();
        count("state_probes");
    }
};

template <class T>
static void input(Rng& r)
{
    typedef typename Info<T>::D D;
    const std::string tn = Info<T>::n();
    typename Probe<T>::Tp tape = typename Probe<T>::Tp();
    for (int q = 0; q < 6; ++q)
    {
        int n = r.range(1, 7);
        std::vector<T> x;
        std::vector<D> d;
        std::string s;
        for (int k = 0; k < n; ++k)
        {
            d.push_back(D(k) + D(0.5));
            x.push_back(T(d.back()));
            s += std::string(r.below(3), ' ') + token(r) + (r.chance(0.9) ? " " : r.chance(0.5) ? "\n" : ",");
        }
        {
            Probe<T> p(x, tape);
            std::istringstream a(s), b(s);
            if (r.chance(0.2)) { a >> std::noskipws; b >> std::noskipws; }
            int clear = r.chance(0.5);
            for (int k = 0; k < n; ++k)
            {
                if (r.chance(0.3) && k + 1 < n) { a >> x[k] >> x[k + 1]; b >> d[k] >> d[k + 1]; ++k; }
                else { a >> x[k]; b >> d[k]; }
                if (a.rdstate() != b.rdstate()) violation("istream_state:" + tn, fmt("state %d instead of %d after item %d of '%s'", int(a.rdstate()), int(b.rdstate()), k, s.c_str()));
                if (clear && !b.good()) { a.clear(); b.clear(); std::string t1, t2; a >> t1; b >> t2; if (t1 != t2) violation("istream_rest:" + tn, "different characters were consumed in '" + s + "'"); a.clear(); b.clear(); }
            }
            for (int k = 0; k < n; ++k)
                if (!same(D(leaf(x[k])), d[k])) violation("istream_value:" + tn, fmt("item %d of '%s' is read as %.17g instead of %.17g", k, s.c_str(), leaf(x[k]), double(d[k])));
            p.check("istream_side_effect:" + tn);
            // setting through value() is the same
            for (int k = 0; k < n; ++k) leafRef(x[k]) = D(k) * D(2);
            for (int k = 0; k < n; ++k) if (leaf(x[k]) != 2.0 * k) violation("value_ref:" + tn, "value() reference does not refer to the value");
            p.check("value_ref_side_effect:" + tn);
            count("items_read", n);
        }
        evaluated(hashStr(s + tn), true);
    }
}

// ---- hashing ------------------------------------------------------------------------------------------------
template <class T>
static void hashing(Rng& r)
{
    typedef typename Info<T>::D D;
    const std::string tn = Info<T>::n();
    std::unordered_set<T> us;
    std::unordered_set<D> ds;
    std::unordered_map<T, int> um;
    std::unordered_map<D, int> dm;
    std::vector<D> keys;
    std::unique_ptr<xad::Tape<double>> tape;
    for (int q = 0; q < 60; ++q)
    {
        D v = anyValue<D>(r);
        if (r.chance(0.3) && !keys.empty()) v = keys[r.below(keys.size())];
        if (v != v) v = D(2);
        keys.push_back(v);
        T x = v, z = -v;
        if (std::hash<T>()(x) != std::hash<D>()(v)) violation("hash:" + tn, fmt("hash of %.17g differs from the plain type's", double(v)));
        if (v == 0 && std::hash<T>()(z) != std::hash<T>()(x)) violation("hash_zero:" + tn, "0 and -0 hash differently");
        T w = x * D(1);
        if (std::hash<T>()(w) != std::hash<T>()(x)) violation("hash_equal:" + tn, "equal values hash differently");
        switch (r.below(4))
        {
            case 0: us.insert(x); ds.insert(v); break;
            case 1: us.erase(x); ds.erase(v); break;
            case 2: um[x] += q; dm[v] += q; break;
            case 3: um.erase(x); dm.erase(v); break;
        }
        if (us.size() != ds.size() || us.count(x) != ds.count(v) || um.size() != dm.size() || um.count(x) != dm.count(v) || (dm.count(v) && um[x] != dm[v])) violation("unordered:" + tn, fmt("unordered containers differ for key %.17g", double(v)));
        count("hashes_compared");
        evaluated(hashBytes(&v, sizeof v) ^ hashStr(tn), true);
    }
    for (D v : keys)
        if (us.count(T(v)) != ds.count(v) || um.count(T(v)) != dm.count(v)) violation("unordered:" + tn, "lookup differs");
}

// ---- limits and traits --------------------------------------------------------------------------------------
template <class T>
static void limits(Rng&)
{
    typedef typename Info<T>::D D;
    typedef std::numeric_limits<T> L;
    typedef std::numeric_limits<D> P;
    const std::string tn = Info<T>::n();
#define C1(m) if (L::m != P::m) violation("limits_" #m ":" + tn, "differs from the plain type"); count("limits_compared");
    C1(is_specialized) C1(is_signed) C1(is_integer) C1(is_exact) C1(has_infinity) C1(has_quiet_NaN) C1(has_signaling_NaN) C1(has_denorm) C1(has_denorm_loss) C1(round_style)
    C1(is_iec559) C1(is_bounded) C1(is_modulo) C1(digits) C1(digits10) C1(max_digits10) C1(radix) C1(min_exponent) C1(min_exponent10) C1(max_exponent) C1(max_exponent10) C1(traps) C1(tinyness_before)
#define C2(m) { T v = L::m(); if (!same(D(leaf(v)), P::m())) violation("limits_" #m ":" + tn, fmt("%g instead of %g", leaf(v), double(P::m()))); count("limits_compared"); }
    C2(min) C2(lowest) C2(max) C2(epsilon) C2(round_error) C2(infinity) C2(quiet_NaN) C2(denorm_min)
#define C3(tr, val) if (std::tr<T>::value != (val)) violation("trait_" #tr ":" + tn, "unexpected value"); count("traits_compared");
    C3(is_floating_point, true) C3(is_arithmetic, true) C3(is_signed, true) C3(is_unsigned, false) C3(is_integral, false) C3(is_pod, false) C3(is_fundamental, false) C3(is_scalar, false) C3(is_compound, true) C3(is_object, true) C3(is_class, true) C3(is_trivial, false)
    if (std::is_convertible<T, int>::value || std::is_convertible<T, bool>::value || !std::is_convertible<D, T>::value || !std::is_convertible<int, T>::value) violation("convertible:" + tn, "conversions");
    // trivially copyable only when a byte copy is a copy
    const bool allForward = tn.find("AReal") == std::string::npos;
    if (std::is_trivially_copyable<T>::value != allForward || std::is_trivially_destructible<T>::value != allForward) violation("trait_trivially:" + tn, "unexpected value");
    count("traits_compared", 2);
    evaluated(hashStr(tn + "limits"), true);
}

// ---- algorithms ---------------------------------------------------------------------------------------------
template <class E, class C> static std::vector<E> vec(const C& c) { return std::vector<E>(c.begin(), c.end()); }
enum { A_SORT, A_STABLE, A_PARTIAL, A_NTH, A_ACCUM, A_INNER, A_PSUM, A_ADJDIFF, A_MINEL, A_ROTATE, A_SWAPR, A_UNIQUE, A_REMOVE, A_TRANSFORM, A_MERGE, A_HEAP, A_NEXTPERM, A_SHUFFLE, A_COPYB, A_MOVER, A_FILL, A_GENERATE,
       A_MAP, A_SET, A_PQ, A_UMAP, A_LIST, A_DEQUE, A_ERASE, A_MINMAX, A_IOTA, A_PARTITION, A_SETOPS, A_BOUNDS, A_TUPLE, A_EMPLACE, A_PTRS, A_REPLACE, A_LEX, A_ARRAY, A_CLAMP, A_COUNT, N_ALG };
static const char* algName[] = {"sort", "stable_sort", "partial_sort", "nth_element", "accumulate", "inner_product", "partial_sum", "adjacent_difference", "min_max_element", "rotate", "swap_ranges", "unique", "remove_if", "transform", "merge", "heap", "next_permutation", "shuffle", "copy_backward", "move", "fill", "generate",
       "map", "set", "priority_queue", "unordered_map", "list", "deque", "erase_insert", "minmax", "iota", "partition", "set_operations", "bounds", "tuple_pair", "emplace", "unique_ptr", "replace_if", "lexicographical", "array", "clamp", "count_find"};

// ++ does not compile for nested types
template <bool> struct iotaOf { template <class It, class E> static void run(It a, It b, E e) { std::iota(a, b, e); } };
template <> struct iotaOf<false> { template <class It, class E> static void run(It a, It b, E e) { for (; a != b; ++a) { *a = e; e = e + 1; } } };
struct Script { std::vector<double> x; std::vector<int> alg; uint64_t seed; };

template <class E>
static std::vector<E> play(const Script& s, const std::vector<E>& in)
{
    typedef typename Info<E>::D D;
    std::vector<E> v = in;
    for (size_t q = 0; q < s.alg.size(); ++q)
    {
        Rng r(mix(s.seed, q));
        const size_t n = v.size();
        auto at = [&](int lo = 0) { return v.begin() + lo + r.below(uint32_t(n - lo + 1)); };
        if (n == 0) { v.push_back(E(D(1))); continue; }
        switch (s.alg[q])
        {
            case A_SORT: if (r.chance(0.5)) std::sort(v.begin(), v.end()); else std::sort(v.begin(), v.end(), [](const E& a, const E& b) { return a > b; }); break;
            case A_STABLE: std::stable_sort(v.begin(), v.end()); break;
            case A_PARTIAL: std::partial_sort(v.begin(), at(), v.end()); break;
            case A_NTH: std::nth_element(v.begin(), v.begin() + r.below(n), v.end()); break;
            case A_ACCUM: v.push_back(std::accumulate(v.begin(), v.end(), E(D(0)))); if (n < 6) v.push_back(std::accumulate(v.begin(), v.begin() + std::min<size_t>(n, 3), E(D(1)), [](const E& a, const E& b) { return E(a * b); })); break;
            case A_INNER: v.push_back(std::inner_product(v.begin(), v.end(), v.rbegin(), E(D(0)))); break;
            case A_PSUM: std::partial_sum(v.begin(), v.end(), v.begin()); break;
            case A_ADJDIFF: std::adjacent_difference(v.begin(), v.end(), v.begin()); break;
            case A_MINEL: { E a = *std::min_element(v.begin(), v.end()), b = *std::max_element(v.begin(), v.end()); auto p = std::minmax_element(v.begin(), v.end()); v.push_back(a - b); v.push_back(*std::min_element(in.begin(), in.end())); (void)p; break; }
            case A_ROTATE: std::rotate(v.begin(), at(), v.end()); if (r.chance(0.5)) std::reverse(v.begin(), v.end()); break;
            case A_SWAPR: { size_t m = n / 2; std::swap_ranges(v.begin(), v.begin() + m, v.begin() + (n - m)); std::iter_swap(v.begin(), v.begin() + r.below(n)); std::swap(v[0], v[n - 1]); break; }
            case A_UNIQUE: v.erase(std::unique(v.begin(), v.end()), v.end()); break;
            case A_REMOVE: { D t = D(r.range(-4, 2)); v.erase(std::remove_if(v.begin(), v.end(), [&](const E& e) { return e < t; }), v.end()); break; }
            case A_TRANSFORM: { std::vector<E> w(n); std::transform(v.begin(), v.end(), v.rbegin(), w.begin(), [](const E& a, const E& b) { return E(a + b * D(2)); }); v.swap(w); break; }
            case A_MERGE: { auto m = v.begin() + n / 2; std::sort(v.begin(), m); std::sort(m, v.end()); std::vector<E> w(n); std::merge(v.begin(), m, m, v.end(), w.begin()); std::inplace_merge(v.begin(), m, v.end()); v.insert(v.end(), w.begin(), w.begin() + std::min<size_t>(2, n)); break; }
            case A_HEAP: std::make_heap(v.begin(), v.end()); std::pop_heap(v.begin(), v.end()); if (r.chance(0.5)) { std::push_heap(v.begin(), v.end()); std::sort_heap(v.begin(), v.end()); } break;
            case A_NEXTPERM: std::next_permutation(v.begin(), v.end()); if (r.chance(0.3)) std::prev_permutation(v.begin(), v.end()); break;
            case A_SHUFFLE: { std::mt19937 g(r.below(1000)); std::shuffle(v.begin(), v.end(), g); break; }
            case A_COPYB: { size_t k = r.below(n); v.resize(n + 2, v[0]); std::copy_backward(v.begin(), v.begin() + n, v.end()); std::copy(v.begin() + k, v.end(), v.begin()); break; }
            case A_MOVER: { std::vector<E> w(n); std::move(v.begin(), v.end(), w.begin()); std::vector<E> z(std::make_move_iterator(w.begin()), std::make_move_iterator(w.end())); v = std::move(z); break; }
            case A_FILL: { E e = v[r.below(n)]; std::fill(v.begin(), v.begin() + (n + 1) / 2, e); std::fill_n(v.begin(), 1, D(3)); break; }
            case A_GENERATE: { E e = v[0]; std::generate(v.begin() + n / 2, v.end(), [&] { e = e + D(1); return e; }); break; }
            case A_MAP:
            {
                std::map<E, E> m;
                for (auto& e : v) { auto it = m.find(e); if (it == m.end()) m.insert(std::make_pair(e, E(e * D(2)))); else it->second += e; }
                std::map<int, E> im;
                for (size_t k = 0; k < n; ++k) im[int(k % 3)] += v[k];
                v.clear();
                for (auto& p : m) v.push_back(p.second);
                for (auto& p : im) v.push_back(p.second);
                break;
            }
            case A_SET: { std::multiset<E> m(v.begin(), v.end()); std::set<E> u(v.begin(), v.end()); if (!u.empty()) m.erase(m.find(*u.begin())); v = vec<E>(m); auto lb = u.lower_bound(E(D(0))); if (lb != u.end()) v.push_back(*lb); break; }
            case A_PQ: { std::priority_queue<E> p(v.begin(), v.end()); p.push(E(v[0] - D(1))); v.clear(); while (!p.empty()) { v.push_back(p.top()); p.pop(); } break; }
            case A_UMAP:
            {
                std::unordered_map<E, E> m;
                for (auto& e : v) m[e] += e * D(3);
                std::vector<E> w;
                for (auto& e : v) { auto it = m.find(e); if (it != m.end()) { w.push_back(it->second); m.erase(it); } }
                v.swap(w);
                break;
            }
            case A_LIST: { std::list<E> l(v.begin(), v.end()), l2; l.sort(); l.splice(l.begin(), l, std::next(l.begin(), 1 + r.below(n)), l.end()); l2.assign(2, l.front()); l.reverse(); l2.splice(l2.end(), l); l2.unique(); l2.remove(E(D(1))); v = vec<E>(l2); break; }
            case A_DEQUE: { std::deque<E> d(v.begin(), v.end()); d.push_front(d.back()); d.pop_back(); d.insert(d.begin() + r.below(d.size()), d.front() * D(2)); d.erase(d.begin() + r.below(d.size())); std::sort(d.begin(), d.end()); v = vec<E>(d); break; }
            case A_ERASE: { v.insert(v.begin() + r.below(n), v[r.below(n)]); v.erase(v.begin() + r.below(v.size())); v.insert(v.begin() + r.below(v.size()), 2, v[0]); v.insert(v.begin(), v.begin() + 0, v.begin() + 0); std::vector<E> c = v; v.insert(v.end(), c.begin(), c.begin() + std::min<size_t>(c.size(), 2)); v.shrink_to_fit(); v.reserve(v.size() * 2); break; }
            case A_MINMAX:
            {
                E a = v[r.below(n)], b = v[r.below(n)], c = v[r.below(n)];
                v.push_back(std::min({a, b, c})); v.push_back(std::max({a, b, c}));
                auto p = std::minmax({a, b, c}); v.push_back(p.first * D(2) + p.second);
                v.push_back(a == c ? a : std::max(a, c)); v.push_back(b == c ? b : std::min(b, c));
                v.push_back(std::max(a, b, [](const E& p, const E& q) { return q < p; }));
                break;
            }
            case A_IOTA: { E e = v[n / 2]; iotaOf<Info<E>::order < 2>::run(v.begin() + n / 2, v.end(), e); break; }
            case A_PARTITION: { E p = v[r.below(n)]; auto m = std::stable_partition(v.begin(), v.end(), [&](const E& e) { return e <= p; }); std::partition(v.begin(), m, [&](const E& e) { return e < D(0); }); break; }
            case A_SETOPS: { std::sort(v.begin(), v.end()); std::vector<E> a(v.begin(), v.begin() + n / 2), b(v.begin() + n / 3, v.end()), o; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(o)); std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::front_inserter(*std::unique_ptr<std::deque<E>>(new std::deque<E>))); v.swap(o); break; }
            case A_BOUNDS: { std::sort(v.begin(), v.end()); E k = v[r.below(n)]; auto a = std::lower_bound(v.begin(), v.end(), k), b = std::upper_bound(v.begin(), v.end(), k); size_t c = size_t(b - a); bool f = std::binary_search(v.begin(), v.end(), k); v.push_back(k * D(c) + D(f)); break; }
            case A_TUPLE: { std::tuple<E, E> t(v[0], v[n - 1]); std::tuple<E, E> u = std::make_tuple(v[n / 2], v[0]); if (t < u) std::swap(t, u); auto p = std::make_pair(v[0], 1); p.swap(*std::unique_ptr<std::pair<E, int>>(new std::pair<E, int>(v[n - 1], 2))); std::tie(v[0], v[n - 1]) = t; v.push_back(std::get<0>(u)); v.push_back(p.first); break; }
            case A_EMPLACE: { v.emplace_back(D(2)); v.emplace(v.begin() + r.below(v.size()), v[0] * D(2)); v.emplace_back(v[0]); std::vector<std::pair<int, E>> w; for (size_t k = 0; k < 3; ++k) w.emplace_back(int(k), v[k % v.size()]); v.push_back(w[1].second + w[2].second); break; }
            case A_PTRS: { std::vector<std::unique_ptr<E>> w; for (auto& e : v) w.emplace_back(new E(e)); std::sort(w.begin(), w.end(), [](const std::unique_ptr<E>& a, const std::unique_ptr<E>& b) { return *a < *b; }); std::shared_ptr<E> sp = std::make_shared<E>(*w[0]); for (size_t k = 0; k < n; ++k) v[k] = std::move(*w[k]); v.push_back(*sp); break; }
            case A_REPLACE: { E w = v[r.below(n)]; std::replace_if(v.begin(), v.end(), [&](const E& e) { return e >= D(2); }, E(w)); std::replace(v.begin(), v.end(), E(D(0)), E(w + D(1))); break; }
            case A_LEX: { std::vector<E> a(v.begin(), v.begin() + n / 2), b(v.begin() + n / 2, v.end()); if (a < b) a.swap(b); if (a == b) a.push_back(E(D(1))); a.insert(a.end(), b.begin(), b.end()); v = a; break; }
            case A_ARRAY: { std::array<E, 3> a = {{v[0], v[n / 2], v[n - 1]}}; std::array<E, 3> b = a; std::sort(b.begin(), b.end()); a.swap(b); b.fill(a[1]); v.insert(v.end(), a.begin(), a.end()); v.push_back(b[2] - a[0]); break; }
            case A_CLAMP: for (auto& e : v) { if (e != D(5)) e = std::min(E(D(5)), e); if (e != D(-3)) e = std::max(E(D(-3)), e); } break;
            case A_COUNT: { E k = v[r.below(n)]; auto c = std::count(v.begin(), v.end(), k); auto f = std::find(v.begin(), v.end(), k) - v.begin(); bool e = std::equal(v.begin(), v.end(), v.rbegin()); auto g = std::adjacent_find(v.begin(), v.end()) - v.begin(); v.push_back(v[0] * D(c) + v[f] * D(2) + D(e ? 1 : 0) + D(std::is_sorted(v.begin(), v.end()) ? 2 : 0)); (void)g; break; }
        }
        if (v.size() > 14) v.erase(v.begin() + 12, v.end());
        // keep the numbers small integers (comparisons and ties are exact in all types)
        for (auto& e : v) if (e > D(200) || e < D(-200)) e = E(e - D(200.0 * int(leaf(e) / 200)));
    }
    if (v.empty()) v.push_back(E(D(1)));
    return v;
}

template <class T>
static void algorithms(Rng& r, bool show)
{
    typedef typename Info<T>::D D;
    const std::string tn = Info<T>::n();
    Driver<T> drv;
    for (int q = 0; q < 8; ++q)
    {
        Script s;
        s.seed = r.next();
        int n = r.range(1, 9), len = r.range(1, 5);
        for (int k = 0; k < n; ++k) s.x.push_back(r.range(-6, 6));
        for (int k = 0; k < len; ++k) s.alg.push_back(int(r.below(N_ALG)));
        std::string txt;
        for (int a : s.alg) txt += std::string(algName[a]) + " ";
        txt += "on";
        for (double v : s.x) txt += fmt(" %g", v);
        where(tn + " " + txt);
        const int N = Info<T>::order;
        for (int t = 0; t < 3; ++t)
        {
            int idx[3] = {-1, -1, -1}, mask = 0;
            std::vector<ref::R> in;
            for (double v : s.x) in.push_back(ref::R(v));
            for (int l = 0; l < N; ++l)
            {
                idx[l] = int(r.below(n)); mask |= 1 << l;
                in[idx[l]].c[1 << l] = 1; in[idx[l]].m[1 << l] = 1;
            }
            auto ref = play(s, in);
            uint64_t pick = r.next();
            const bool single = pick & 1;
            // outputs: one element, or a nonlinear combination of all
            auto combine = [&](auto& v) {
                typedef typename std::decay<decltype(v[0])>::type E;
                if (single) return E(v[(pick >> 8) % v.size()]);
                E y = E(D(0));
                for (size_t k = 0; k < v.size(); ++k) { if (k & 1) y += v[k] * D(int(k % 5) + 1); else y += v[k] * v[k / 2]; }
                return y;
            };
            auto ry = combine(ref);
            {
                std::vector<T> x;
                for (double v : s.x) x.push_back(T(D(v)));
                std::vector<T*> xp;
                for (auto& e : x) xp.push_back(&e);
                drv.prepare(xp, idx);
                std::vector<T> out = play(s, x);
                const double tol = sizeof(D) == 4 ? 1e-4 : 1e-11;
                if (out.size() != ref.size()) violation("algorithm_size:" + tn, fmt("%zu elements instead of %zu: ", out.size(), ref.size()) + txt);
                else
                {
                    for (size_t k = 0; k < out.size(); ++k)
                        if (!(std::fabs(leaf(out[k]) - leaf(ref[k])) <= tol * (1 + double(ref[k].m[0])))) violation("algorithm_value:" + tn, fmt("element %zu is %.17g instead of %.17g: ", k, leaf(out[k]), leaf(ref[k])) + txt);
                    T y = combine(out);
                    double got = double(drv.extract(y, xp, idx)), ex = double(ry.c[mask]), m = 0;
                    for (int i = 0; i < 8; ++i) m = std::max(m, double(ry.m[i]));
                    if (!(std::fabs(got - ex) <= tol * (1 + m))) violation("algorithm_derivative:" + tn, fmt("derivative (%d,%d) of %s is %.17g instead of %.17g: ", idx[0], idx[1], single ? "an element" : "a combination", got, ex) + txt);
                    count("algorithm_derivatives");
                    if (ex != 0) count("algorithm_nonzero");
                    evaluated(hashStr(tn + txt) + mask * 31 + idx[0] * 7 + pick, ex != 0);
                }
                out.clear();
            }
        }
        for (int a : s.alg) count(std::string("alg_") + algName[a]);
        if (show && q == 0) sample(tn + ": " + txt);
    }
}

// ---- random numbers -----------------------------------------------------------------------------------------
template <class T>
static typename std::enable_if<(Info<T>::order > 1)>::type distributions(Rng&) {}  // does not compile for nested types
template <class T>
static typename std::enable_if<Info<T>::order == 1>::type distributions(Rng& r)
{
    typedef typename Info<T>::D D;
    const std::string tn = Info<T>::n();
    unsigned seed = r.below(100000);
    D a = D(r.range(-3, 3)), b = a + D(r.range(1, 5)), s = D(r.range(1, 4)) / D(2);
    std::normal_distribution<T> n1((T(a)), T(s));
    std::normal_distribution<D> n2(a, s);
    if (leaf(n1.mean()) != n2.mean() || leaf(n1.stddev()) != n2.stddev()) violation("distribution:" + tn, "parameters differ");
    std::uniform_real_distribution<T> u1((T(a)), T(b));
    std::uniform_real_distribution<D> u2(a, b);
    std::mt19937 g1(seed), g2(seed);
    for (int k = 0; k < 8; ++k)
    {
        T x = u1(g1);
        D y = u2(g2);
        if (!(std::fabs(leaf(x) - y) <= 4 * std::numeric_limits<D>::epsilon() * (1 + std::fabs(a) + std::fabs(b)))) violation("distribution:" + tn, fmt("uniform_real_distribution gives %.17g instead of %.17g", leaf(x), double(y)));
        count("random_numbers");
    }
    evaluated(seed ^ hashStr(tn), true);
}

// ---- std:: qualified functions ------------------------------------------------------------------------------
template <class T>
static void qualified(Rng& r)
{
    typedef typename Info<T>::D D;
    const std::string tn = Info<T>::n();
    for (int q = 0; q < 3; ++q)
    {
        // max/min of nested types are exact up to rounding only (documented in C04)
        auto same2 = [](double a, D e, const char* f) { return same(D(a), e) || (Info<T>::order > 1 && (strstr(f, "max") || strstr(f, "min")) && std::fabs(a - e) <= 4 * std::numeric_limits<D>::epsilon()); };
        D u = D(r.uni(0.05, 0.95)), v = D(r.uni(0.05, 0.95)), w = D(1) + u;
        T x = u, y = v, z = w;
#define Q1(f, X, U) { T a = std::f(X); D e = std::f(U); if (!same(D(leaf(a)), e)) violation("std_" #f ":" + tn, fmt("%.17g instead of %.17g", leaf(a), double(e))); T b = std::f(X * D(1)); if (!same(D(leaf(b)), e)) violation("std_expr_" #f ":" + tn, fmt("%.17g instead of %.17g", leaf(b), double(e))); count("std_functions", 2); }
        Q1(abs, x, u) Q1(fabs, x, u) Q1(ceil, x, u) Q1(floor, x, u) Q1(trunc, x, u) Q1(round, x, u) Q1(sin, x, u) Q1(cos, x, u) Q1(tan, x, u) Q1(asin, x, u) Q1(acos, x, u) Q1(atan, x, u)
        Q1(sinh, x, u) Q1(cosh, x, u) Q1(tanh, x, u) Q1(asinh, x, u) Q1(acosh, z, w) Q1(atanh, x, u) Q1(exp, x, u) Q1(exp2, x, u) Q1(expm1, x, u) Q1(log, x, u) Q1(log10, x, u) Q1(log2, x, u) Q1(log1p, x, u)
        Q1(sqrt, x, u) Q1(cbrt, x, u) Q1(erf, x, u) Q1(erfc, x, u)
#define Q2(f) { T a = std::f(x, y); D e = std::f(u, v); if (!same2(leaf(a), e, #f)) violation("std_" #f ":" + tn, fmt("%.17g instead of %.17g", leaf(a), double(e))); T b = std::f(x * D(1), y); if (!same2(leaf(b), e, #f)) violation("std_expr_" #f ":" + tn, fmt("%.17g instead of %.17g", leaf(b), double(e))); count("std_functions", 2); }
        Q2(pow) Q2(atan2) Q2(hypot) Q2(fmod) Q2(remainder) Q2(fmax) Q2(fmin) Q2(max) Q2(min) Q2(copysign) Q2(nextafter)
#define Q3(f) { auto a = std::f(x); auto e = std::f(u); if (a != e) violation("std_" #f ":" + tn, "differs"); count("std_functions"); }
        Q3(isfinite) Q3(isinf) Q3(isnan) Q3(isnormal) Q3(signbit) Q3(fpclassify) Q3(ilogb) Q3(lround) Q3(llround)
        evaluated(hashBytes(&u, sizeof u) ^ hashBytes(&v, sizeof v) ^ hashStr(tn), true);
    }
}

template <class T>
static void all(long k, Rng& r)
{
    const bool show = k < 24;
    count("type " + Info<T>::n());
    switch (k / 8 % 8)
    {
        case 0: where("text:" + Info<T>::n()); text<T>(r); break;
        case 1: where("input:" + Info<T>::n()); input<T>(r); break;
        case 2: where("hash:" + Info<T>::n()); hashing<T>(r); break;
        case 3: where("limits:" + Info<T>::n()); limits<T>(r); distributions<T>(r); break;
        case 4: where("std:" + Info<T>::n()); qualified<T>(r); break;
        default: algorithms<T>(r, show || k / 64 == 0); break;
    }
}
using namespace xad;
static void oneCase(long k, Rng& r)
{
    switch (k % 8)
    {
        case 0: all<AReal<double>>(k, r); break;
        case 1: all<FReal<double>>(k, r); break;
        case 2: all<AReal<float>>(k, r); break;
        case 3: all<FReal<float>>(k, r); break;
        case 4: all<AReal<FReal<double>>>(k, r); break;
        case 5: all<FReal<AReal<double>>>(k, r); break;
        case 6: all<AReal<AReal<double>>>(k, r); break;
        case 7: all<FReal<FReal<double>>>(k, r); break;
    }
}
int main(int argc, char** argv) { return run(argc, argv, oneCase); }
