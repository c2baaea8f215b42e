// What the native (really multi-threaded, or single-stepped) drivers share: command line, seeds, scenarios, reports.
// Same protocol as the controlled runtime: CRT-VIOLATION {json} (exit 1), CRT-STATS {json} (exit 0), CRT-ERROR (exit 3).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

namespace drv {
inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
struct State
{
    uint64_t seed, iters; unsigned shard, shards; std::string only, hashes, driver, scen; bool trace; int64_t exec; uint64_t exec_no, rs, execs;
    std::map<std::string, uint64_t> metrics; std::set<uint64_t> distinct; std::vector<std::string> samples; bool failed;
    State() : seed(1), iters(1000), shard(0), shards(1), trace(false), exec(-1), exec_no(0), rs(1), execs(0), failed(false) {}
};
inline State& S() { static State* s = new State; return *s; }
inline uint64_t next(uint64_t& s) { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
inline uint64_t rnd64() { return next(S().rs); }
inline uint32_t rnd(uint32_t n) { return n ? uint32_t(rnd64() % n) : 0; }
// fills the unused stack with a random byte, so that operations that leave bytes of their temporaries unset are not lucky
__attribute__((noinline)) inline void litter() { volatile unsigned long long b[256]; unsigned long long v = 0x0101010101010101ull * rnd(256); for (auto& x : b) x = v; }
inline std::string esc(char const* s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((unsigned char)*s < 32) r += ' '; else r += *s; } return r; }
__attribute__((noreturn, format(printf, 2, 3))) inline void fail(char const* kind, char const* fmt, ...)
{
    static int once = 0; if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) for (;;) pause();
    char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("CRT-VIOLATION {\"driver\":\"%s\",\"scenario\":\"%s\",\"kind\":\"%s\",\"seed\":%llu,\"exec\":%llu,\"message\":\"%s\"}\n", S().driver.c_str(), S().scen.c_str(), kind, (unsigned long long)S().seed, (unsigned long long)S().exec_no, esc(b).c_str());
    fflush(stdout); _exit(1);
}
inline void metric(char const* n, uint64_t v) { S().metrics[n] += v; }
inline void distinct(uint64_t h) { if (S().distinct.size() < 400000) S().distinct.insert(h); }
__attribute__((format(printf, 1, 2))) inline void sample(char const* fmt, ...)
{
    if (S().samples.size() >= 6) return; char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); S().samples.push_back(esc(b));
}
// An execution that uses 60 s of processor time or does not end within 150 s is stuck: normal ones take milliseconds.
inline void stuck(int sig) { fail("stuck", "an execution did not end within %s", sig == SIGPROF ? "60 s of processor time" : "150 s"); }
inline void setup(int argc, char** argv, char const* driver)
{
    State& s = S(); s.driver = driver; signal(SIGPROF, stuck); signal(SIGALRM, stuck); setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto val = [&]() -> char const* { if (i + 1 >= argc) { printf("CRT-ERROR %s needs a value\n", a.c_str()); exit(3); } return argv[++i]; };
        if (a == "--seed") s.seed = strtoull(val(), nullptr, 0); else if (a == "--iters") s.iters = strtoull(val(), nullptr, 0); else if (a == "--shard") sscanf(val(), "%u/%u", &s.shard, &s.shards);
        else if (a == "--only") s.only = val(); else if (a == "--hashes") s.hashes = val(); else if (a == "--exec") s.exec = strtoll(val(), nullptr, 0); else if (a == "--trace") s.trace = true;
        else { printf("CRT-ERROR unknown option %s\n", a.c_str()); exit(3); }
    }
}
inline bool selected(char const* n) { std::string const& o = S().only; if (o.empty()) return true; return o[o.size() - 1] == '*' ? !strncmp(n, o.c_str(), o.size() - 1) : o == n; }
inline void guard() { itimerval v = { { 0, 0 }, { 60, 0 } }; setitimer(ITIMER_PROF, &v, nullptr); alarm(150); }
// Runs body(n) for the executions of this shard; the random numbers of an execution depend on seed, scenario and n only.
template<class F> void scenario(char const* name, uint64_t iters, F&& body)
{
    State& s = S(); if (!selected(name)) return; s.scen = name; uint64_t h = 1469598103934665603ULL; for (char const* p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
    for (uint64_t i = s.shard; i < iters; i += s.shards)
    {
        if ((i / s.shards & 15) == 0 || s.exec >= 0) guard();
        if (s.exec >= 0 && uint64_t(s.exec) != i) continue;
        s.exec_no = i; s.rs = mix(s.seed * 0x9e3779b97f4a7c15ULL ^ h) ^ mix(i + 0x1234567); ++s.execs; body(i);
    }
}
inline int finish()
{
    itimerval off = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_PROF, &off, nullptr); alarm(0);
    State& s = S();
    if (!s.hashes.empty()) if (FILE* f = fopen(s.hashes.c_str(), "wb")) { for (uint64_t h : s.distinct) fwrite(&h, 8, 1, f); fclose(f); }
    printf("CRT-STATS {\"driver\":\"%s\",\"execs\":%llu,\"distinct\":%llu", s.driver.c_str(), (unsigned long long)s.execs, (unsigned long long)s.distinct.size());
    for (auto& m : s.metrics) printf(",\"m_%s\":%llu", m.first.c_str(), (unsigned long long)m.second);
    printf(",\"samples\":["); for (size_t i = 0; i < s.samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", s.samples[i].c_str()); printf("]}\n"); fflush(stdout); return 0;
}
} // namespace drv
