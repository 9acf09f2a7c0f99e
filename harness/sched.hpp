// Schedule perturbation and a watchdog for the concurrency harnesses.
//
// Unless built for ThreadSanitizer, the POSIX synchronisation calls of the process are wrapped: while perturb(p) is in
// force each of them may yield, spin or sleep before and after it acts, and waiting on a condition may return without a
// signal, as POSIX and C++ allow. The wrapped calls still do exactly what they promise, so correct code is unaffected.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include "vh.hpp"

#if defined(__SANITIZE_THREAD__)
#define SCHED_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SCHED_TSAN 1
#endif
#endif

namespace sched {
inline std::atomic<int>& level() { static std::atomic<int> l{0}; return l; }
inline std::atomic<uint64_t>& salt() { static std::atomic<uint64_t> l{1}; return l; }
inline std::atomic<uint64_t>& beats() { static std::atomic<uint64_t> l{0}; return l; }
inline std::atomic<uint64_t>& delays() { static std::atomic<uint64_t> l{0}; return l; }
inline std::atomic<uint64_t>& spurious() { static std::atomic<uint64_t> l{0}; return l; }
inline uint64_t draw() {
    static std::atomic<uint64_t> ids{1};
    static thread_local uint64_t state = 0, epoch = 0;
    uint64_t e = salt().load(std::memory_order_relaxed);
    if (epoch != e) epoch = e, state = vh::mix(e * 1000003 + ids.fetch_add(1, std::memory_order_relaxed));
    return state = vh::mix(state + 0x9e3779b97f4a7c15ull);
}
inline void nap(unsigned us) { timespec t{0, (long)us * 1000}; nanosleep(&t, nullptr); }
// a place where another thread may run
inline void point() {
    int l = level().load(std::memory_order_relaxed);
    if (!l) return;
    uint64_t d = draw();
    if (int(d % 100) >= l) return;
    delays().fetch_add(1, std::memory_order_relaxed);
    switch ((d >> 8) % 8) {
        case 0: case 1: case 2: sched_yield(); break;
        case 3: case 4: for (volatile int i = 0; i < int((d >> 16) % 3000); ++i) {} break;
        case 5: case 6: nap(1 + (d >> 16) % 30); break;
        default: nap(1 + (d >> 16) % 200);
    }
}
inline void perturb(int percent, uint64_t s) { salt() = s; level() = percent; }
inline void calm() { level() = 0; }
inline void beat() { beats().fetch_add(1, std::memory_order_relaxed); }

// ends the program with a violation when no case completes: quickly if the process is asleep, later if it is busy
struct Watchdog {
    std::atomic<bool> stop{false};
    std::thread th;
    static double cpu() { rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec); }
    Watchdog() {
        th = std::thread([this] {
            uint64_t last = beats();
            int still = 0;
            double c0 = cpu();
            while (!stop) {
                nap(200000);
                uint64_t b = beats();
                if (b != last) { last = b, still = 0, c0 = cpu(); continue; }
                ++still;
                bool asleep = cpu() - c0 < 0.02 * still * 0.2 + 0.5;
                if (still >= (asleep ? 100 : 700)) {
                    vh::viol("no progress: threads wait forever", vh::cat(asleep ? "all threads asleep" : "threads busy", " for ", still / 5, " s after ", last, " steps of the workload"));
                    vh::flush_report(true);
                    _exit(0);
                }
            }
        });
    }
    ~Watchdog() { stop = true; th.join(); }
};
}  // namespace sched

#ifndef SCHED_TSAN
namespace sched {
template <class F> F next(char const* name, char const* version = nullptr) {
    void* p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
    if (!p) p = dlsym(RTLD_NEXT, name);
    return (F)p;
}
}  // namespace sched
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = sched::next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    sched::point();
    int r = f(m);
    sched::point();
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto f = sched::next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    sched::point();
    int r = f(m);
    sched::point();
    return r;
}
int pthread_cond_signal(pthread_cond_t* c) {
    static auto f = sched::next<int (*)(pthread_cond_t*)>("pthread_cond_signal", "GLIBC_2.3.2");
    sched::point();
    int r = f(c);
    sched::point();
    return r;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static auto f = sched::next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast", "GLIBC_2.3.2");
    sched::point();
    int r = f(c);
    sched::point();
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = sched::next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait", "GLIBC_2.3.2");
    if (int l = sched::level().load(std::memory_order_relaxed)) {
        if (sched::draw() % 400 < (uint64_t)l) {  // a wakeup without a signal
            sched::spurious().fetch_add(1, std::memory_order_relaxed);
            pthread_mutex_unlock(m);
            sched_yield();
            pthread_mutex_lock(m);
            return 0;
        }
    }
    sched::point();
    return f(c, m);
}
}
#endif
