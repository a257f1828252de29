// Tapes on several threads: concurrent engines, hand-over between threads, several tapes per thread.
#include "hmain.hpp"
#include "profiles.hpp"
#include <atomic>
#include <mutex>
#include <queue>
#include <thread>
#include <chrono>
using namespace hist;
const void* activeTape(int type);  // c12vis.cpp
bool visibilityProbe(int type, std::string& err, bool outer);

struct Ticket { int t, op; };
static std::atomic<int> clk(0);
static void pause(h::Rng& r)
{
    switch (r.below(12))
    {
        case 0: std::this_thread::yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
        case 2: { volatile int x = 0; for (int i = r.below(300); i > 0; --i) x = x + i; break; }
        default: break;
    }
}
static Story story(h::Rng& r, int type, int prop)
{
    Profile p = profile(prop, r);
    p.set({{COUNTS, 1}});
    if (type == 1)
    {
        Gen<float> g(r, p, 1);
        g.mixed(r.range(1, 3), r.range(10, 40));
        return tell(g, 1);
    }
    Gen<double> g(r, p, type);
    g.mixed(r.range(1, 3), r.range(10, 40));
    return tell(g, type);
}
static uint64_t interleaving(std::vector<std::pair<int, int>>& order)  // (ticket, worker)
{
    std::sort(order.begin(), order.end());
    uint64_t x = 7;
    long sw = 0;
    for (size_t i = 0; i < order.size(); ++i)
    {
        if (i && order[i].second != order[i - 1].second) { ++sw; x = h::mix(x, i * 16 + order[i].second); }
    }
    h::count("context_switches_observed", sw);
    return x;
}
// A: every thread has its own tape
static void parallel(h::Rng& r, bool handOver)
{
    const int nt = r.range(2, 8), ne = handOver ? r.range(1, 5) : nt;
    std::vector<Story> st;
    std::vector<Log> logs(ne);
    std::vector<std::string> errs(nt);
    std::vector<std::vector<std::pair<int, int>>> order(nt);
    for (int i = 0; i < ne; ++i) st.push_back(story(r, r.below(4), r.chance(0.3) ? 13 : 16));
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    std::atomic<int> ready(0);
    std::mutex mx;
    struct Job { int e; size_t next; std::unique_ptr<EngineBase> eng; };
    std::vector<Job> jobs;
    std::vector<int> pool;
    int left = ne;
    long hand = 0;
    for (int e = 0; e < ne; ++e) { jobs.push_back(Job{e, 0, nullptr}); pool.push_back(e); }
    auto body = [&](int t) {
        h::Rng q(seeds[t]);
        for (int ty = 0; ty < NTYPES; ++ty) if (activeTape(ty)) errs[t] = h::fmt("tape of type %d active on a new thread", ty);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
        if (!handOver)
        {
            auto eng = makeEngine(st[t].type);
            Log& l = logs[t];
            for (size_t i = 0; i < st[t].ops.size() && l.fails.empty(); ++i)
            {
                l.op = int(i);
                order[t].push_back({clk.fetch_add(1, std::memory_order_relaxed), t});
                eng->step(st[t].ops[i], l);
                pause(q);
            }
            eng->finish(l);
            for (int ty = 0; ty < NTYPES; ++ty) if (activeTape(ty)) errs[t] = h::fmt("tape of type %d still active after its destruction", ty);
            return;
        }
        for (;;)
        {
            int e = -1;
            {
                std::lock_guard<std::mutex> g(mx);
                if (!left) return;
                if (!pool.empty()) { size_t k = q.below(uint32_t(pool.size())); e = pool[k]; pool.erase(pool.begin() + k); }
            }
            if (e < 0) { std::this_thread::yield(); continue; }
            Job& j = jobs[e];
            const Story& s = st[e];
            if (!j.eng) j.eng = makeEngine(s.type);
            else j.eng->attach();
            int n = q.range(1, 15);
            for (; n > 0 && j.next < s.ops.size() && logs[e].fails.empty(); --n, ++j.next)
            {
                logs[e].op = int(j.next);
                order[t].push_back({clk.fetch_add(1, std::memory_order_relaxed), t});
                j.eng->step(s.ops[j.next], logs[e]);
                pause(q);
            }
            bool end = j.next >= s.ops.size() || !logs[e].fails.empty();
            if (end) { j.eng->finish(logs[e]); j.eng.reset(); }
            else j.eng->detach();
            for (int ty = 0; ty < NTYPES; ++ty) if (activeTape(ty)) errs[t] = h::fmt("tape of type %d still active after deactivation", ty);
            std::lock_guard<std::mutex> g(mx);
            ++hand;
            if (end) --left; else pool.push_back(e);
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back(body, t);
    for (auto& x : th) x.join();
    std::vector<std::pair<int, int>> all;
    for (auto& o : order) all.insert(all.end(), o.begin(), o.end());
    uint64_t il = interleaving(all);
    const char* tag = handOver ? "hand-over" : "parallel";
    for (auto& e : errs) if (!e.empty()) h::violation(std::string(tag) + ":active", e);
    for (int e = 0; e < ne; ++e)
    {
        h::count("observations_compared", compareLogs(st[e].expected, logs[e], st[e].ops, h::fmt("%s<%d>", tag, st[e].type)));
        h::count("nonzero_adjoints_predicted", st[e].adj);
        h::count("operations", long(st[e].ops.size()));
        h::evaluated(h::mix(st[e].hash, il), st[e].adj > 0 && nt > 1);
    }
    if (handOver) h::count("hand_overs", hand);
    h::count(tag);
    h::maxi("threads", nt);
}
// B: several tapes on one thread; tapes of the same type take turns, other types stay active
static void interleaved(h::Rng& r)
{
    const int ne = r.range(2, 5);
    std::vector<Story> st;
    std::vector<Log> logs(ne);
    std::vector<std::unique_ptr<EngineBase>> eng(ne);
    std::vector<size_t> next(ne, 0);
    for (int i = 0; i < ne; ++i) st.push_back(story(r, r.below(4), r.chance(0.3) ? 13 : 16));
    int cur[NTYPES] = {-1, -1, -1, -1};
    long left = ne, switches = 0;
    std::vector<bool> done(ne, false);
    while (left)
    {
        int e = r.below(ne);
        if (done[e]) continue;
        int ty = st[e].type;
        if (cur[ty] >= 0 && cur[ty] != e) { eng[cur[ty]]->detach(); ++switches; }
        cur[ty] = e;
        h::where(h::fmt("interleaved type %d", ty));
        if (!eng[e]) eng[e] = makeEngine(ty); else eng[e]->attach();
        for (int n = r.range(1, 12); n > 0 && next[e] < st[e].ops.size() && logs[e].fails.empty(); --n, ++next[e])
        {
            logs[e].op = int(next[e]);
            eng[e]->step(st[e].ops[next[e]], logs[e]);
        }
        if (next[e] >= st[e].ops.size() || !logs[e].fails.empty()) { eng[e]->finish(logs[e]); eng[e].reset(); done[e] = true; --left; cur[ty] = -1; }
    }
    for (int e = 0; e < ne; ++e)
    {
        h::count("observations_compared", compareLogs(st[e].expected, logs[e], st[e].ops, h::fmt("interleaved<%d>", st[e].type)));
        h::evaluated(h::mix(st[e].hash, switches), st[e].adj > 0);
        h::count("nonzero_adjoints_predicted", st[e].adj);
    }
    h::count("tape_switches", switches);
    h::count("interleaved");
}
// C: activation is per thread
static void visibility(h::Rng& r)
{
    const int nt = r.range(2, 8);
    int type = r.below(NTYPES);
    std::vector<std::string> errs(nt);
    std::vector<std::thread> th;
    std::atomic<int> ready(0);
    std::string mine;
    for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t]() {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
            for (int k = 0; k < 10; ++k) visibilityProbe(type, errs[t], t % 2);
        });
    for (int k = 0; k < 10; ++k) visibilityProbe(type, mine, true);
    for (auto& x : th) x.join();
    errs.push_back(mine);
    for (auto& e : errs) if (!e.empty()) h::violation(h::fmt("visibility<%d>", type), e);
    h::evaluated(h::mix(type, nt), true);
    h::count("visibility_probes", nt * 10);
}
static void oneCase(long k, h::Rng& r)
{
    if (k == 0) h::sample("threads run random histories (as in C07-C13) on their own tapes, pass tapes around a pool, alternate tapes on one thread, and probe getActive()");
    switch (k % 6)
    {
        case 0: case 1: parallel(r, false); break;
        case 2: case 3: parallel(r, true); break;
        case 4: interleaved(r); break;
        default: visibility(r);
    }
}
int main(int argc, char** argv) { return h::run(argc, argv, oneCase); }
