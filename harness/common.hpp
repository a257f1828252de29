// Shared by all harnesses: PRNG, case loop, reporting protocol.
//
// Protocol (read by /verif/runner.py): every harness is started as
//   H --seed S --from A --to B --out FILE --progress FILE [--tier quick|thorough] [--case K]
// runs cases A..B-1 (case k depends only on (S,k)), appends JSON lines to --out and keeps the
// current case/context in --progress, so that a crash can be attributed to its case.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace h
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0,n)
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    template <class C>
    auto pick(const C& c) -> decltype(c[0])
    {
        return c[below(uint32_t(c.size()))];
    }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x1234567);
    return r.next();
}

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline std::string jsonEsc(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}

struct Ctx
{
    uint64_t seed = 1;
    long from = 0, to = 0, single = -1;
    bool thorough = false;
    FILE* out = nullptr;
    char* prog = nullptr;  // mmapped progress record (4096 bytes)
    long curCase = -1;
    long evals = 0;
    long violations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> counters;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    std::set<std::string> seenKeys;
    std::map<std::string, std::string> opts;
};

inline Ctx& ctx()
{
    static Ctx c;
    return c;
}

// current activity, kept in shared memory for crash attribution
inline void where(const std::string& w)
{
    auto& c = ctx();
    if (!c.prog) return;
    snprintf(c.prog, 4096, "%ld\t%s", c.curCase, w.c_str());
}

inline void count(const std::string& k, long n = 1) { ctx().counters[k] += n; }
inline void maxi(const std::string& k, double v)
{
    auto& m = ctx().maxima;
    auto it = m.find(k);
    if (it == m.end()) m[k] = v;
    else if (v > it->second) it->second = v;
}
inline void evaluated(uint64_t descriptorHash, bool nontrivial)
{
    ++ctx().evals;
    if (nontrivial) ctx().distinct.insert(descriptorHash);
}
inline void sample(const std::string& s)
{
    if (ctx().samples.size() < 4) ctx().samples.push_back(s);
}

// key: stable identification of *what* fails (used for known findings); detail: the witness
inline void violation(const std::string& key, const std::string& detail)
{
    auto& c = ctx();
    ++c.violations;
    // one report per key and case, at most 50 keys
    if (c.seenKeys.count(key) || c.seenKeys.size() > 50) return;
    c.seenKeys.insert(key);
    fprintf(c.out, "{\"t\":\"viol\",\"key\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n", jsonEsc(key).c_str(), c.curCase,
            jsonEsc(detail).c_str());
    fflush(c.out);
}

// the harness itself is wrong / could not decide: never a verdict
inline void harnessError(const std::string& what)
{
    auto& c = ctx();
    fprintf(c.out, "{\"t\":\"error\",\"case\":%ld,\"detail\":\"%s\"}\n", c.curCase, jsonEsc(what).c_str());
    fflush(c.out);
}

inline int run(int argc, char** argv, const std::function<void(long, Rng&)>& oneCase,
               const std::function<void()>& atStart = nullptr, const std::function<void()>& atEnd = nullptr)
{
    auto& c = ctx();
    const char* outf = nullptr;
    const char* progf = nullptr;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--from") c.from = atol(v.c_str());
        else if (a == "--to") c.to = atol(v.c_str());
        else if (a == "--case") c.single = atol(v.c_str());
        else if (a == "--tier") c.thorough = v == "thorough";
        else if (a == "--out") outf = argv[i + 1];
        else if (a == "--progress") progf = argv[i + 1];
        else c.opts[a] = v;
    }
    c.out = outf ? fopen(outf, "a") : stdout;
    if (!c.out) return 3;
    if (progf)
    {
        int fd = open(progf, O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
            c.prog = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (c.prog == MAP_FAILED) c.prog = nullptr;
        if (fd >= 0) close(fd);
    }
    if (c.single >= 0) { c.from = c.single; c.to = c.single + 1; }
    c.curCase = -1;
    where("start");
    if (atStart) atStart();
    for (long k = c.from; k < c.to; ++k)
    {
        c.curCase = k;
        where("case");
        Rng r(mix(c.seed, uint64_t(k)));
        oneCase(k, r);
    }
    c.curCase = -2;
    where("end");
    if (atEnd) atEnd();
    std::string s = fmt("{\"t\":\"summary\",\"evals\":%ld,\"violations\":%ld,\"counters\":{", c.evals, c.violations);
    bool first = true;
    for (auto& kv : c.counters) { s += fmt("%s\"%s\":%ld", first ? "" : ",", jsonEsc(kv.first).c_str(), kv.second); first = false; }
    s += "},\"maxima\":{";
    first = true;
    for (auto& kv : c.maxima)
    {
        double v = std::isfinite(kv.second) ? kv.second : 1e308;
        s += fmt("%s\"%s\":%.6g", first ? "" : ",", jsonEsc(kv.first).c_str(), v);
        first = false;
    }
    s += "},\"samples\":[";
    first = true;
    for (auto& x : c.samples) { s += (first ? "\"" : ",\"") + jsonEsc(x) + "\""; first = false; }
    s += "],\"hashes\":[";
    first = true;
    for (auto x : c.distinct) { s += fmt("%s\"%" PRIx64 "\"", first ? "" : ",", x); first = false; }
    s += "]}\n";
    fputs(s.c_str(), c.out);
    fflush(c.out);
    where("done");
    return c.violations ? 1 : 0;
}
}  // namespace h
