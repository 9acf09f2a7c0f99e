// Common runtime-monitoring support for all harnesses.
// A harness defines  void vh_main();  and calls vh::cases(...) with monitors inside.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- random
inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return mix(h);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { return mix(s++ * 0xD1342543DE82EF95ULL + 0x632BE59BD9B4E019ULL); }
    double u() { return (next() >> 11) * 0x1p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    // inclusive
    int64_t i(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
    bool chance(double p) { return u() < p; }
    double sign() { return (next() & 1) ? 1 : -1; }
    double normal() {
        double a = u(), b = u();
        if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
    }
    template <class T>
    T const& pick(std::vector<T> const& v) { return v[next() % v.size()]; }
};

// ---------------------------------------------------------------- state of this process
struct State {
    uint64_t seed = 1;
    std::string tier = "quick", out, only_section, scratch = ".";
    long only_case = -1;
    int shard = 0, shards = 1;
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double> maxima;
    std::map<std::string, double> minima;
    std::vector<std::string> samples;
    std::map<std::string, int> sample_per_section;
    struct Viol { std::string key, detail, section; long idx; };
    std::vector<Viol> viols;
    std::map<std::string, uint64_t> viol_count;
    std::string cur_section;
    long cur_case = -1;
    char* progress = nullptr;
    std::mutex mtx;
};
inline State& S() { static State s; return s; }
inline bool thorough() { return S().tier == "thorough"; }
inline long scale(long q, long t) { return thorough() ? t : q; }

inline uint64_t bits_of(long double x) { double d = (double)x; uint64_t u; memcpy(&u, &d, 8); return u; }
inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string num(long double x) { char b[64]; snprintf(b, sizeof b, "%.21Lg", x); return b; }
inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline void flush_report(bool complete) {
    State& s = S();
    if (s.out.empty()) return;
    FILE* f = fopen(s.out.c_str(), "w");
    if (!f) { perror("report"); _exit(4); }
    fprintf(f, "{\"complete\":%s,\"evaluations\":%llu,\"distinct_list\":[", complete ? "true" : "false", (unsigned long long)s.evaluations);
    bool first = true;
    // distinct signatures are merged across shards by the runner; cap the list
    size_t n = 0;
    for (auto h : s.distinct) { if (n++ >= 200000) break; fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "],\"counters\":{");
    first = true;
    for (auto& [k, v] : s.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto& [k, v] : s.maxima) { fprintf(f, "%s\"%s\":%s", first ? "" : ",", jesc(k).c_str(), std::isfinite(v) ? num(v).c_str() : "\"nonfinite\""); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& k : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
    fprintf(f, "],\"violation_counts\":{");
    first = true;
    for (auto& [k, v] : s.viol_count) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\"violations\":[");
    first = true;
    for (auto& v : s.viols) {
        fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\",\"section\":\"%s\",\"case\":%ld}", first ? "" : ",", jesc(v.key).c_str(), jesc(v.detail).c_str(), jesc(v.section).c_str(), v.idx);
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
}

// one monitored evaluation; sig identifies distinct behaviours, nontrivial says whether it counts
inline void eval(uint64_t sig, bool nontrivial = true) {
    State& s = S();
    std::lock_guard<std::mutex> l(s.mtx);
    s.evaluations++;
    if (nontrivial) s.distinct.insert(mix(sig) >> 1);
}
inline void count(const std::string& k, uint64_t n = 1) { State& s = S(); std::lock_guard<std::mutex> l(s.mtx); s.counters[k] += n; }
inline void maxi(const std::string& k, double v) {
    State& s = S();
    std::lock_guard<std::mutex> l(s.mtx);
    auto it = s.maxima.find(k);
    if (it == s.maxima.end() || v > it->second || v != v) s.maxima[k] = v;
}
inline void sample(const std::string& t, int per_section = 3) {
    State& s = S();
    std::lock_guard<std::mutex> l(s.mtx);
    if (s.sample_per_section[s.cur_section]++ < per_section) s.samples.push_back(s.cur_section + "[" + std::to_string(s.cur_case) + "]: " + t.substr(0, 400));
}
inline void viol(const std::string& key, const std::string& detail) {
    State& s = S();
    std::lock_guard<std::mutex> l(s.mtx);
    if (s.viol_count[key]++ < 3 && s.viols.size() < 60) s.viols.push_back({key, detail.substr(0, 600), s.cur_section, s.cur_case});
}
template <class... A>
std::string cat(A const&... a) {
    std::ostringstream o;
    o.precision(17);
    ((o << a), ...);
    return o.str();
}
template <class... A>
inline bool expect(bool ok, const std::string& key, A const&... a) {
    if (!ok) viol(key, cat(a...));
    return ok;
}
// relative/absolute closeness monitor; records the worst margin seen
template <class T1, class T2>
inline bool close(T1 got, T2 want, long double tol, const std::string& key, const std::string& ctx = "") {
    long double d = std::fabs((long double)got - (long double)want);
    bool ok = d <= tol;  // false on NaN
    if (tol > 0) maxi("margin:" + key, (double)(d / tol));
    if (!ok) viol(key, cat("got ", (long double)got, " want ", (long double)want, " |diff| ", d, " tol ", tol, " ", ctx));
    return ok;
}

// run a family of cases; each gets its own deterministic generator
template <class F>
void cases(const std::string& section, long n, F f) {
    State& s = S();
    if (!s.only_section.empty() && s.only_section != section) return;
    for (long i = 0; i < n; ++i) {
        if (s.only_case >= 0 ? i != s.only_case : (i % s.shards) != s.shard) continue;
        s.cur_section = section;
        s.cur_case = i;
        if (s.progress) snprintf(s.progress, 255, "%s %ld\n", section.c_str(), i);
        Rng rng(mix(s.seed) ^ hash_str(section) ^ mix((uint64_t)i + 77));
        f(rng, i);
    }
}
}  // namespace vh

void vh_main();

#ifndef VH_NO_MAIN
int main(int argc, char** argv) {
    vh::State& s = vh::S();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") s.seed = std::stoull(val());
        else if (a == "--tier") s.tier = val();
        else if (a == "--out") s.out = val();
        else if (a == "--section") s.only_section = val();
        else if (a == "--case") s.only_case = std::stol(val());
        else if (a == "--shard") s.shard = std::stoi(val());
        else if (a == "--shards") s.shards = std::stoi(val());
        else if (a == "--scratch") s.scratch = val();
        else if (a == "--thin") { int k = std::stoi(val()); s.shard += s.shards * (int)(s.seed % k); s.shards *= k; }  // a part of the cases, another one for each seed
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 4; }
    }
    if (!s.out.empty()) {
        int fd = open((s.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 256) == 0) s.progress = (char*)mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (s.progress == MAP_FAILED) s.progress = nullptr;
        if (fd >= 0) close(fd);
    }
    vh_main();
    vh::flush_report(true);
    if (s.out.empty()) {
        for (auto& [k, v] : s.maxima) printf("max %s = %g\n", k.c_str(), v);
        for (auto& [k, v] : s.counters) printf("count %s = %llu\n", k.c_str(), (unsigned long long)v);
        for (auto& v : s.viols) printf("VIOL %s [%s %ld] %s\n", v.key.c_str(), v.section.c_str(), v.idx, v.detail.c_str());
        for (auto& [k, v] : s.viol_count) printf("violcount %s = %llu\n", k.c_str(), (unsigned long long)v);
        printf("evaluations %llu distinct %zu\n", (unsigned long long)s.evaluations, s.distinct.size());
    }
    fflush(nullptr);
    return 0;
}
#endif
