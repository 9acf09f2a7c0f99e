// C30: automatic output names are never handed out twice, and timers report the time they were running.
// The clocks the library reads are replaced by simulated ones, so every sequence of instants can be played.
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <set>
#include <thread>
#include "vh.hpp"
#include "spaceHub.hpp"
using namespace hub;
using vh::Rng;
using L = long double;

static std::atomic<bool> fake_wall{false}, fake_mono{false};
static std::atomic<long long> wall_now{0}, mono_now{0};  // seconds, nanoseconds
static std::atomic<size_t> wall_reads{0}, mono_reads{0};
extern "C" time_t time(time_t* out) noexcept {
    timespec ts;
    time_t t;
    if (fake_wall) { t = (time_t)wall_now.load(); ++wall_reads; }
    else { syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    if (out) *out = t;
    return t;
}
#ifndef THREADS_ONLY
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept {
    if (fake_mono && id == CLOCK_MONOTONIC) { long long n = mono_now; ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; ++mono_reads; return 0; }
    if (fake_wall && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = wall_now; ts->tv_nsec = 0; ++wall_reads; return 0; }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
#endif

// what the name says, taken apart: prefix, local time, nothing or a number in brackets, extension
static bool well_formed(std::string const& name, std::string const& prefix, std::set<std::string> const& stamps, bool plain, std::string& why) {
    if (name.compare(0, prefix.size(), prefix) != 0) { why = "prefix"; return false; }
    std::string rest = name.substr(prefix.size());
    if (rest.size() < 19 + 4 || !stamps.count(rest.substr(0, 19))) { why = "time"; return false; }
    if (rest.substr(rest.size() - 4) != ".dat") { why = "extension"; return false; }
    std::string mid = rest.substr(19, rest.size() - 23);
    if (plain) { why = "first name of its second carries a number"; return mid.empty(); }
    why = "number";
    if (mid.empty()) return true;
    if (mid.size() < 3 || mid.front() != '(' || mid.back() != ')') return false;
    for (size_t i = 1; i + 1 < mid.size(); ++i) if (!isdigit((unsigned char)mid[i])) return false;
    return true;
}
static std::string stamp(time_t t) { char b[64]; tm m; localtime_r(&t, &m); snprintf(b, sizeof b, "%02d-%02d-%04d_%02d:%02d:%02d", m.tm_mday, m.tm_mon + 1, m.tm_year + 1900, m.tm_hour, m.tm_min, m.tm_sec); return b; }

static std::set<std::string> all_names;     // everything this process was ever given
static std::set<std::string> seen_stems;

static void name_case(Rng& r, long idx) {
    static const char* zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45"};
    setenv("TZ", zones[r.i(0, 3)], 1);
    tzset();
    fake_wall = true;
    // anywhere between 2001 and 2033, or just before a change from summer to winter time
    static const long long falls[] = {1636264800 /* US 2021-11-07 06:00 UTC */, 1667714400, 1667091600 /* EU 2022-10-30 01:00 UTC */, 1698541200};
    long long t = r.chance(0.3) ? falls[r.i(0, 3)] - r.i(0, 4000) : (long long)r.i(1000000000, 2000000000);
    std::vector<std::string> prefixes{"space_"};
    int np = (int)r.i(1, 4);
    for (int k = 0; k < np; ++k) {
        std::string p;
        int n = (int)r.i(0, 12);
        for (int j = 0; j < n; ++j) p += "abcXYZ019_-./( )"[r.i(0, 15)];
        prefixes.push_back(p);
    }
    int style = (int)r.i(0, 3);  // 0 one prefix, 1 in turns, 2 random, 3 random with a rare return of the clock
    int n = r.chance(0.1) ? (int)r.i(100, 400) : (int)r.i(2, 40);
    double still = r.u(0, 1);
    for (int k = 0; k < n; ++k) {
        if (!r.chance(still)) t += r.chance(0.8) ? 1 : r.chance(0.5) ? 3600 : (long long)r.i(1, 100000);
        if (style == 3 && r.chance(0.1)) { t -= r.i(1, 5); vh::count("clock set back"); }
        wall_now = t;
        size_t w = style == 0 ? 0 : style == 1 ? k % prefixes.size() : (size_t)r.i(0, prefixes.size() - 1);
        std::string const& p = prefixes[w];
        std::string name = w == 0 && r.chance(0.5) ? tools::auto_name() : tools::auto_name(p);
        std::string st = stamp((time_t)t), why;
        bool first = seen_stems.insert(p + st).second;
        vh::expect(all_names.insert(name).second, "an automatic name is handed out twice", "'", name, "' (request ", k, " style ", style, ")");
        vh::expect(well_formed(name, p, {st}, first, why), "form of an automatic name", why, ": '", name, "' for prefix '", p, "' at ", st);
        vh::count("automatic names");
        if (!first) vh::count("names within a second already used");
        if (style == 1 && !first) vh::count("prefixes in turns within a second");
    }
    fake_wall = false;
    vh::eval(vh::mix((uint64_t)t * 31 + n));
    if (idx < 3) vh::sample(*all_names.begin());
}

static void thread_case(Rng& r, long idx) {
    setenv("TZ", "UTC0", 1);
    tzset();
    int T = (int)r.i(2, 8), n = (int)r.i(5, 60);
    fake_wall = true;
    long long t0 = 2100000000LL + idx * 100000 + (long long)vh::S().seed % 1000;  // seconds no other case uses
    wall_now = t0;
    bool moving = r.chance(0.3), own = r.chance(0.3);
    std::vector<std::vector<std::string>> got(T);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int k = 0; k < T; ++k)
        th.emplace_back([&, k] {
            std::string p = own ? vh::cat("run", k % 2, "_") : "run_";
            ++ready;
            while (ready < T) std::this_thread::yield();
            for (int j = 0; j < n; ++j) {
                got[k].push_back(tools::auto_name(p));
                if (moving && k == 0 && j % 8 == 7) ++wall_now;
            }
        });
    for (auto& x : th) x.join();
    fake_wall = false;
    std::set<std::string> stamps, names;
    for (long long t = t0; t <= wall_now; ++t) stamps.insert(stamp((time_t)t));
    for (int k = 0; k < T; ++k)
        for (auto& x : got[k]) {
            std::string why;
            vh::expect(names.insert(x).second, "threads are handed the same automatic name", "'", x, "' ", T, " threads");
#ifndef THREADS_ONLY
            vh::expect(well_formed(x, own ? vh::cat("run", k % 2, "_") : "run_", stamps, false, why), "form of an automatic name in threads", why, ": '", x, "'");
#endif
            vh::count("names requested by threads");
        }
    vh::eval(vh::mix(idx * 1000003 + T * 100 + n));
}

static void made_case(Rng& r) {
    std::string p, e;
    for (int j = (int)r.i(0, 12); j > 0; --j) p += (char)r.i(32, 126);
    for (int j = (int)r.i(0, 5); j > 0; --j) e += (char)r.i(32, 126);
    int k = r.chance(0.2) ? r.pick(std::vector<int>{0, -1, INT32_MAX, INT32_MIN, 10, 99, 100}) : (int)r.i(-100000, 100000);
    char b[32];
    snprintf(b, sizeof b, "%d", k);
    vh::expect(tools::make_name(p, k, e) == p + b + e, "numbered name", "'", tools::make_name(p, k, e), "'");
    vh::expect(tools::make_name(p, k) == p + b + ".dat", "numbered name with the usual extension", "'", tools::make_name(p, k), "'");
    vh::count("numbered names", 2);
    vh::eval(vh::mix((uint64_t)k * 7919 + p.size() * 64 + e.size()));
}

#ifndef THREADS_ONLY
static void timer_case(Rng& r, long idx) {
    fake_mono = true;
    mono_now = (long long)r.i(1, 1000000000) * (r.chance(0.5) ? 1 : 100000);
    std::vector<tools::Timer> ts((size_t)r.i(1, 3));
    struct Model { long long total = 0, since = 0; bool on = false; };
    std::vector<Model> ms(ts.size());
    int n = (int)r.i(3, 60);
    std::string log;
    for (int k = 0; k < n; ++k) {
        long long dt = r.chance(0.15) ? 0 : r.chance(0.3) ? (long long)r.i(1, 1000) : (long long)(r.logu(1e-9, 1e5) * 1e9);
        mono_now = mono_now + dt;
        size_t w = (size_t)r.i(0, ts.size() - 1);
        auto& m = ms[w];
        auto& t = ts[w];
        switch (r.i(0, 5)) {
            case 0: case 1:
                if (m.on) break;  // starting a running timer again: left open
                t.start(); m.on = true; m.since = mono_now; log += vh::cat(" start", w, "@", mono_now.load()); vh::count("timer starts");
                break;
            case 2: t.pause(); if (m.on) m.total += mono_now - m.since; else vh::count("pauses of a stopped timer"); m.on = false; log += vh::cat(" pause", w, "@", mono_now.load()); break;
            case 3: if (r.chance(0.4)) { t.reset(); m = Model(); log += vh::cat(" reset", w); vh::count("timer resets"); } break;
            default: break;
        }
        for (size_t q = 0; q < ts.size(); ++q) {
            L want = (ms[q].total + (ms[q].on ? mono_now - ms[q].since : 0)) * 1e-9L;
            double got = ts[q].get_time(), again = ts[q].get_time();
            vh::close(got, want, 1e-13L * want + (want == 0 ? 0 : 1e-18L), "time of a timer", vh::cat("timer ", q, (ms[q].on ? " running" : " stopped"), log));
            vh::expect(got == again, "reading a timer twice at one instant", log);
            vh::count(ms[q].on ? "readings of a running timer" : "readings of a stopped timer");
            if (ms[q].total > 0 && ms[q].on) vh::count("readings of a resumed timer");
        }
    }
    fake_mono = false;
    vh::eval(vh::mix(vh::mix((uint64_t)mono_now) + n));
    if (idx < 3) vh::sample(log.substr(0, 150));
}
#endif

void vh_main() {
    vh::cases("threads", vh::scale(300, 6000), [](Rng& r, long i) { thread_case(r, i); });
#ifndef THREADS_ONLY
    vh::cases("names", vh::scale(6000, 60000), [](Rng& r, long i) { name_case(r, i); });
    vh::cases("numbered", vh::scale(20000, 200000), [](Rng& r, long) { made_case(r); });
    vh::cases("timer", vh::scale(20000, 300000), [](Rng& r, long i) { timer_case(r, i); });
    vh::count("readings of the simulated wall clock", wall_reads);
    vh::count("readings of the simulated steady clock", mono_reads);
#endif
}
