// The chunk container against std::vector, with element life tracking.
#include "common.hpp"
#include <XAD/ChunkContainer.hpp>
#include <list>
#include <memory>
#include <unordered_set>
static std::unordered_set<const void*>& liveSet() { static std::unordered_set<const void*> s; return s; }
static long constructed = 0, destroyed = 0;
static std::string trackErr;
// non-trivial, 128 bytes: every construction and destruction is checked by address
struct Tracked
{
    int v;
    std::unique_ptr<int> own;
    char pad[128 - sizeof(int) * 2 - sizeof(void*)];
    void born() { ++constructed; own.reset(new int(v)); if (!liveSet().insert(this).second && trackErr.empty()) trackErr = h::fmt("element constructed twice at %p", (void*)this); }
    void check(const char* w) const { if (!liveSet().count(this) && trackErr.empty()) trackErr = h::fmt("%s an element that does not exist", w); }
    Tracked(int x = 0) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v) { o.check("copying"); born(); }
    Tracked& operator=(const Tracked& o) { check("assigning to"); o.check("assigning from"); v = o.v; *own = v; return *this; }
    ~Tracked() { ++destroyed; if (!liveSet().erase(this) && trackErr.empty()) trackErr = "element destroyed that does not exist"; v = -77; }
    int get() const { check("reading"); return own ? *own : -99; }
};
struct Pod
{
    int v;
    char pad[124];
    Pod(int x = 0) : v(x) {}
    int get() const { return v; }
};
static_assert(sizeof(Tracked) == 128 && sizeof(Pod) == 128, "size");
static int get(int x) { return x; }
static int get(double x) { return int(x); }
template <class T> static int get(const T& x) { return x.get(); }
template <class T> static bool podLike() { return std::is_trivially_destructible<T>::value; }
template <class C, class T, bool triv> struct Ext { static void make(C& c, int n) { c.uninitialized_extend(n); } };
template <class C, class T> struct Ext<C, T, false> { static void make(C&, int) {} };

template <class T, size_t CS>
static void run(h::Rng& r, const char* name)
{
    typedef xad::ChunkContainer<T, CS> C;
    const bool triv = podLike<T>();
    std::string hist;
    uint64_t hash = h::hashStr(name);
    long steps = 0, crossings = 0;
    auto fail = [&](const char* what, const std::string& d) { h::violation(h::fmt("%s:%s", name, what), d + "; history: " + hist); };
    liveSet().clear();
    trackErr.clear();
    {
        std::unique_ptr<C> c(new C);
        std::vector<int> m;
        const int cs = int(CS);
        auto size = [&]() {
            // sizes around multiples of the chunk size are preferred
            int q = r.below(5) * cs + (r.chance(0.7) ? r.range(-1, 1) : r.range(0, cs));
            return std::max(0, q);
        };
        int n = r.range(5, 60);
        for (int i = 0; i < n; ++i)
        {
            int x = r.range(0, 1000), op = r.below(14);
            size_t before = m.size();
            const char* what = "";
            switch (op)
            {
                case 0: case 1: { int k = r.chance(0.5) ? 1 : r.range(1, 2 * cs + 1); what = "push_back"; for (int j = 0; j < k; ++j) { c->push_back(T(x + j)); m.push_back(x + j); } break; }
                case 2: { int k = r.range(1, cs + 1); what = "emplace_back"; for (int j = 0; j < k; ++j) { c->emplace_back(x + j); m.push_back(x + j); } break; }
                case 3: case 4:
                {
                    what = "append";
                    int k = r.below(cs + 1);
                    std::vector<int> s;
                    for (int j = 0; j < k; ++j) s.push_back(x + j);
                    if (r.chance(0.3)) { std::list<int> l(s.begin(), s.end()); c->append(l.begin(), l.end()); }
                    else if (r.chance(0.5)) { std::vector<T> t(s.begin(), s.end()); c->append(t.begin(), t.end()); }
                    else c->append(s.data(), s.data() + k);
                    m.insert(m.end(), s.begin(), s.end());
                    break;
                }
                case 5: case 6: { what = "resize"; int k = size(); if (r.chance(0.2)) { c->resize(k); m.resize(k); } else if (!m.empty() && r.chance(0.2)) { size_t j = r.below(uint32_t(m.size())); int mv = m[j]; c->resize(k, (*c)[j]); m.resize(k, mv); } else { c->resize(k, T(x)); m.resize(k, x); } x = k; break; }
                case 7: what = "clear"; if (r.chance(0.5)) { c->clear(); m.clear(); } break;
                case 8: { what = "assign"; int k = size(); c->assign(k, T(x)); m.assign(k, x); x = k; break; }
                case 9: { what = "reserve"; x = size(); c->reserve(x); break; }
                case 10: { what = "move"; std::unique_ptr<C> d(new C(std::move(*c))); c = std::move(d); break; }
                case 11:
                {
                    what = "move-assign";
                    std::unique_ptr<C> d(new C);
                    int k = r.below(3 * cs);
                    for (int j = 0; j < k; ++j) d->push_back(T(-j));
                    *d = std::move(*c);
                    if (r.chance(0.5)) { *c = std::move(*d); }
                    else c = std::move(d);
                    break;
                }
                case 12: { what = "write"; if (!m.empty()) { size_t j = r.below(uint32_t(m.size())); (*c)[j] = T(x); m[j] = x; } break; }
                case 13:
                    what = "uninitialized_extend";
                    if (triv) { int k = r.below(2 * cs + 1); Ext<C, T, std::is_trivially_destructible<T>::value>::make(*c, k); for (int j = 0; j < k; ++j) { m.push_back(x + j); (*c)[m.size() - 1] = T(x + j); } }
                    break;
            }
            ++steps;
            hist += h::fmt("%s(%d)->%zu ", what, x, m.size());
            hash = h::mix(hash, uint64_t(op) * 1000003 + m.size());
            if (before / CS != m.size() / CS) ++crossings;
            h::where(h::fmt("%s %s", name, what));
            if (c->size() != m.size()) { fail(what, h::fmt("size %zu instead of %zu", c->size(), m.size())); return; }
            if (c->empty() != m.empty()) { fail(what, "empty() wrong"); return; }
            const C& k = *c;
            for (size_t j = 0; j < m.size(); ++j)
                if (get(k[j]) != m[j] || get((*c)[j]) != m[j]) { fail(what, h::fmt("element %zu of %zu is %d instead of %d", j, m.size(), get(k[j]), m[j])); return; }
            // chunk access, as the tape's sweep uses it
            if (m.size())
            {
                auto it = c->chunk_begin();
                for (size_t j = 0; j < m.size(); ++j)
                    if (get(it[C::getHighPart(j)][C::getLowPart(j)]) != m[j]) { fail(what, h::fmt("chunk access to element %zu wrong", j)); return; }
                if (size_t(c->chunk_end() - it) < C::getNumChunks(m.size())) { fail(what, "too few chunks"); return; }
            }
            // iterator access, over any number of chunks
            if (m.size())
            {
                size_t from = r.below(uint32_t(m.size()));
                typename C::iterator it = c->iterator_at(from), e = c->iterator_at(m.size());
                size_t j = from;
                for (; it != e && j < m.size(); ++j)
                {
                    if (get(*it) != m[j] || &*it != &(*c)[j]) { fail(what, h::fmt("iterator from %zu: element %zu wrong", from, j)); return; }
                    if (j % 2) ++it; else { typename C::iterator o = it++; if (o == it) { fail(what, "it++ does not move"); return; } }
                }
                if (j != m.size() || it != e) { fail(what, h::fmt("iterator from %zu ends at %zu of %zu", from, j, m.size())); return; }
                h::count("elements_iterated", long(m.size() - from));
            }
            if (!triv && liveSet().size() != m.size()) { fail(what, h::fmt("%zu elements exist instead of %zu", liveSet().size(), m.size())); return; }
            if (!trackErr.empty()) { fail(what, trackErr); return; }
            if (m.size() % CS == 0 && !m.empty()) h::count("states_at_chunk_multiple");
        }
    }
    if (!liveSet().empty()) fail("destructor", h::fmt("%zu elements never destroyed", liveSet().size()));
    if (!trackErr.empty()) fail("destructor", trackErr);
    h::count("container_steps", steps);
    h::count("chunk_crossings", crossings);
    h::count(std::string("container_") + name);
    h::evaluated(hash, crossings > 0);
    static int shown = 0;
    if (shown++ < 2) h::sample(std::string(name) + ": " + hist);
}
static void oneCase(long k, h::Rng& r)
{
    switch (k % 12)
    {
        case 0: run<Tracked, 1>(r, "tracked/1"); break;
        case 1: run<Tracked, 2>(r, "tracked/2"); break;
        case 2: run<Tracked, 3>(r, "tracked/3"); break;
        case 3: run<Tracked, 8>(r, "tracked/8"); break;
        case 4: run<Pod, 1>(r, "pod/1"); break;
        case 5: run<Pod, 2>(r, "pod/2"); break;
        case 6: run<Pod, 5>(r, "pod/5"); break;
        case 7: run<Pod, 8>(r, "pod/8"); break;
        case 8: run<int, 32>(r, "int/32"); break;
        case 9: run<double, 16>(r, "double/16"); break;
        case 10: run<Tracked, 5>(r, "tracked/5"); break;
        case 11: run<Tracked, 4>(r, "tracked/4"); break;
    }
}
int main(int argc, char** argv) { return h::run(argc, argv, oneCase); }
