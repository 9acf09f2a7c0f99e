// C25: records through shared files, background writers and readers, the blocking deque and the thread pool are
// delivered exactly once, whole and in order, and everything shuts down. Logs are recorded per thread and judged offline.
#include "vh_abort.hpp"
#include "sched.hpp"
#include <map>
#include <set>
#include <deque>
#include <queue>
#include <future>
#include <functional>
#include <numeric>
#include "multi-thread/multi-thread.hpp"
#include "multi-thread/ciostream.hpp"
#include "multi-thread/concurrent-queue.h"
#include "multi-thread/thread_pool.h"
namespace mt = hub::multi_thread;
using vh::cat;

// a record of several fields that is written and read in several operations
struct Rec {
    int thread = 0, seq = 0;
    std::string body;
    static std::string body_of(int t, int s) { return std::string(1 + (t * 31 + s * 17) % 60, (char)('a' + (t * 7 + s) % 26)); }
    static Rec make(int t, int s) { return {t, s, body_of(t, s)}; }
    bool whole() const { return body == body_of(thread, seq); }
    friend std::ostream& operator<<(std::ostream& o, Rec const& r) { o << '<' << r.thread << ' '; sched::point(); return o << r.seq << ' ' << r.body << " >\n"; }
    friend std::istream& operator>>(std::istream& i, Rec& r) {
        char a = 0; std::string z;
        i >> a >> r.thread; sched::point();
        i >> r.seq >> r.body >> z;
        if (i && (a != '<' || z != ">")) r.body = "?";
        return i;
    }
};
static std::string fresh(char const* what) {
    static std::atomic<int> n{0};
    return vh::S().scratch + "/" + what + std::to_string(n++) + ".txt";
}
// runs f(i) in n threads
template <class F> static void crew(int n, F f) {
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i) t.emplace_back(f, i);
    for (auto& x : t) x.join();
}
// what a file of records says: every expected record once, whole, in each thread's order
static void judge_file(std::string const& path, std::vector<int> const& counts, std::string const& key, std::string const& ctx) {
    std::ifstream in(path);
    std::vector<int> next(counts.size(), 0);
    std::string line;
    size_t lines = 0, torn = 0, disorder = 0;
    std::vector<std::vector<int>> seen(counts.size());
    std::string example;
    while (std::getline(in, line)) {
        ++lines;
        std::istringstream is(line + "\n");
        Rec r; std::string rest;
        if (!(is >> r) || !r.whole() || (is >> rest) || r.thread < 0 || r.thread >= (int)counts.size() || r.seq < 0 || r.seq >= counts[r.thread]) { if (!torn++) example = line; continue; }
        if (!seen[r.thread].empty() && seen[r.thread].back() > r.seq) ++disorder;
        seen[r.thread].push_back(r.seq);
    }
    size_t lost = 0, doubled = 0, total = 0;
    for (size_t t = 0; t < counts.size(); ++t) {
        total += counts[t];
        std::vector<int> h(counts[t], 0);
        for (int s : seen[t]) ++h[s];
        for (int x : h) lost += x == 0, doubled += x > 1;
    }
    vh::expect(torn == 0, key + ": records are whole", ctx, " torn ", torn, " e.g. ", example.substr(0, 80));
    vh::expect(lost == 0 || torn, key + ": no record is lost", ctx, " lost ", lost, " of ", total);
    vh::expect(doubled == 0, key + ": no record is written twice", ctx, " doubled ", doubled);
    vh::expect(disorder == 0, key + ": each thread's records are in its order", ctx, " inversions ", disorder);
    vh::count(key + ": records", total);
    remove(path.c_str());
}

static void file_writers(vh::Rng& r, long) {
    int n = (int)r.i(1, 10);
    std::vector<int> counts(n);
    for (auto& c : counts) c = (int)r.logu(1, 150);
    if (r.i(0, 5) == 0) counts[0] = 0;
    std::string path = fresh("w");
    int mode = (int)r.i(0, 3);
    uint64_t salt = r.next();
    std::string ctx = cat("threads ", n, " mode ", mode);
    sched::perturb((int)r.i(0, 50), r.next());
    {
        mt::ConcurrentFile f = r.i(0, 1) ? mt::make_thread_safe_fstream(path, std::ios::out) : mt::ConcurrentFile(path.c_str(), std::ios::out | std::ios::trunc);
        std::atomic<int> returned{0};
        crew(n, [&, salt](int t) {
            vh::Rng q(vh::mix(salt + t));
            mt::ConcurrentFile mine = f;  // handles share the file
            auto& h = t % 2 ? mine : f;
            for (int s = 0; s < counts[t]; ++s) {
                int how = mode == 3 ? (int)q.i(0, 2) : mode;
                if (how == 0) h << Rec::make(t, s);
                else if (how == 1) { h.execute([&](std::fstream& os, int a, int const& b) { os << '<' << a << ' '; sched::point(); os << b << ' ' << Rec::body_of(a, b) << " >" << '\n'; }, t, s); }
                else { int v = h.execute([&](auto& os) { os << Rec::make(t, s); return s + 1; }); if (v == s + 1) ++returned; else vh::viol("shared file: execute returns the callback's value", ctx); }
                if (q.i(0, 15) == 0) h.flush();
                if (q.i(0, 30) == 0) h.eof();
            }
        });
    }
    sched::calm();
    judge_file(path, counts, "shared file", ctx);
    vh::count("shared file: writers", n);
    vh::eval(vh::hash_str(cat("fw", n, ":", mode, ":", std::accumulate(counts.begin(), counts.end(), 0))));
    sched::beat();
}
// tuples and plain values written as single records
static void file_tuples(vh::Rng& r, long) {
    int n = (int)r.i(1, 8), m = (int)r.logu(1, 200);
    std::string path = fresh("t");
    sched::perturb((int)r.i(0, 50), r.next());
    {
        auto f = mt::make_thread_safe_fstream(path, std::ios::out);
        mt::indexed_multi_thread(n, [&](size_t t, mt::ConcurrentFile h) {
            for (int s = 0; s < m; ++s) {
                if (s % 3 == 0) h << std::make_tuple(1000 * t + s, 0.5 * s, std::string(5, 'x'), "\n");
                else if (s % 3 == 1) h << cat(1000 * t + s, " ", 0.5 * s, " xxxxx \n");
                else h << std::make_tuple(1000 * t + s, 0.5 * s, "xxxxx", '\n');
            }
        }, f);
    }
    sched::calm();
    std::ifstream in(path);
    std::string line;
    std::map<long, int> seen;
    std::map<long, long> last;
    long torn = 0, disorder = 0;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        long id; double v; std::string x, rest;
        if (!(is >> id >> v >> x) || x != "xxxxx" || (is >> rest) || v != 0.5 * (id % 1000)) { ++torn; continue; }
        ++seen[id];
        long t = id / 1000;
        if (last.count(t) && last[t] > id) ++disorder;
        last[t] = id;
    }
    remove(path.c_str());
    bool once = true;
    for (auto& p : seen) once = once && p.second == 1;
    std::string ctx = cat("threads ", n, " records ", m);
    vh::expect(torn == 0, "shared file: tuples are whole", ctx, " torn ", torn);
    vh::expect(once && (long)seen.size() == (long)n * m, "shared file: every tuple once", ctx, " found ", seen.size());
    vh::expect(disorder == 0, "shared file: tuples in order", ctx, " ", disorder);
    vh::count("shared file: tuples", (uint64_t)n * m);
    vh::eval(vh::hash_str(cat("ft", n, ":", m)));
    sched::beat();
}
// what readers got, each in its own order
static void judge_reads(std::vector<std::vector<Rec>> const& got, int total, bool complete, std::string const& key, std::string const& ctx) {
    std::vector<int> h(total, 0);
    long torn = 0, disorder = 0;
    for (auto& g : got) {
        int last = -1;
        for (auto& x : g) {
            if (!x.whole() || x.thread != 3 || x.seq < 0 || x.seq >= total) { ++torn; continue; }
            ++h[x.seq];
            if (x.seq <= last) ++disorder;
            last = x.seq;
        }
    }
    long lost = 0, doubled = 0;
    for (int x : h) lost += x == 0, doubled += x > 1;
    vh::expect(torn == 0, key + ": records read whole", ctx, " torn ", torn);
    if (complete) vh::expect(lost == 0, key + ": every record is read", ctx, " lost ", lost, " of ", total);
    vh::expect(doubled == 0, key + ": no record is read twice", ctx, " doubled ", doubled);
    vh::expect(disorder == 0, key + ": each reader sees file order", ctx, " inversions ", disorder);
    vh::count(key + ": records read", total - lost);
}
static std::string make_input(int total, bool newline) {
    std::string path = fresh("r");
    std::ofstream o(path);
    for (int s = 0; s < total; ++s) {
        std::ostringstream os;
        os << Rec::make(3, s);
        std::string t = os.str();
        if (s + 1 == total && !newline) t.pop_back();
        o << t;
    }
    return path;
}
static int some_total(vh::Rng& r) {
    static const std::vector<int> special{0, 1, 2, 99, 100, 101, 199, 200, 201, 300};
    return r.i(0, 1) ? r.pick(special) : (int)r.logu(1, 1200);
}
static void file_readers(vh::Rng& r, long) {
    int n = (int)r.i(1, 8), total = some_total(r);
    std::string path = make_input(total, r.i(0, 3));
    std::string ctx = cat("readers ", n, " records ", total);
    sched::perturb((int)r.i(0, 50), r.next());
    std::vector<std::vector<Rec>> got(n);
    bool with_execute = r.i(0, 3) == 0;
    {
        auto f = mt::make_thread_safe_fstream(path, std::ios::in);
        crew(n, [&](int t) {
            auto mine = f;
            for (;;) {
                Rec x;
                bool ok = with_execute && t % 2 ? mine.execute([](std::fstream& is, Rec& y) { return bool(is >> y); }, x) : (t % 2 ? mine : f) >> x;
                if (!ok) break;
                got[t].push_back(x);
                if ((int)got[t].size() > total + 5) break;
            }
        });
        vh::expect(f.eof(), "shared file: end of file is reported after the last record", ctx);
    }
    sched::calm();
    judge_reads(got, total, true, "shared file", ctx);
    remove(path.c_str());
    vh::eval(vh::hash_str(cat("fr", n, ":", total)));
    sched::beat();
}
static void background_writer(vh::Rng& r, long) {
    int n = (int)r.i(1, 6);
    std::vector<int> counts(n);
    for (auto& c : counts) c = (int)r.logu(1, 200);
    if (r.i(0, 6) == 0) std::fill(counts.begin(), counts.end(), 0);
    std::string path = fresh("o");
    int how = (int)r.i(0, 3);
    bool pause = r.i(0, 2) == 0;
    std::string ctx = cat("producers ", n, " how ", how);
    sched::perturb((int)r.i(0, 50), r.next());
    auto produce = [&](auto& os) {
        crew(n, [&](int t) {
            for (int s = 0; s < counts[t]; ++s) {
                if (how < 2 || s % 2) os << Rec::make(t, s);
                else { Rec const x = Rec::make(t, s); os << x; }
                if (pause && s % 16 == 5) sched::nap(100);
            }
        });
    };
    if (how == 0) { mt::Opip<Rec> os(path.c_str()); crew(n, [&](int t) { for (int s = 0; s < counts[t]; ++s) os << Rec::make(t, s); }); }
    else if (how == 1) { mt::Costream<Rec> os(path.c_str()); produce(os); }
    else if (how == 2) {
        mt::Costream<Rec> first(path);
        mt::Costream<Rec> os(std::move(first));  // moving while the writer runs
        produce(os);
    } else {
        std::string other = fresh("o");
        mt::Costream<Rec> os(other);
        os << Rec::make(0, 0);
        os = mt::Costream<Rec>(path);  // closes the other file
        std::vector<int> one{1};
        judge_file(other, one, "background writer", ctx + " replaced");
        produce(os);
    }
    sched::calm();
    judge_file(path, counts, "background writer", ctx);
    vh::eval(vh::hash_str(cat("bw", n, ":", how, ":", std::accumulate(counts.begin(), counts.end(), 0))));
    sched::beat();
}
static void background_reader(vh::Rng& r, long) {
    int n = (int)r.i(1, 6), total = some_total(r);
    std::string path = make_input(total, r.i(0, 3));
    bool early = r.i(0, 2) == 0, raw = r.i(0, 1), missing = r.i(0, 12) == 0;
    if (missing) remove(path.c_str()), path += ".gone", total = 0;
    std::string ctx = cat("readers ", n, " records ", total, early ? " left early" : "", raw ? " pipe" : "");
    sched::perturb((int)r.i(0, 50), r.next());
    std::vector<std::vector<Rec>> got(n);
    long limit = early ? r.i(0, std::max(1, total / n)) : total + 5;
    auto consume = [&](auto& in, int t) {
        while ((long)got[t].size() < limit) {
            Rec x;
            if (!(in >> x)) break;
            got[t].push_back(x);
        }
    };
    if (raw) {
        mt::Ipip<Rec> in(path.c_str());
        crew(n, [&](int t) { consume(in, t); });
        if (!early) { Rec x; vh::expect(!(in >> x), "background reader: nothing follows the end", ctx); }
    } else {
        mt::Cistream<Rec> in(path);
        crew(n, [&](int t) { auto mine = in; consume(mine, t); });
        if (!early) { Rec x; vh::expect(!(in >> x), "background reader: nothing follows the end", ctx); }
    }
    sched::calm();
    judge_reads(got, total, !early, "background reader", ctx);
    remove(path.c_str());
    vh::count(early ? "background reader: left early" : "background reader: read to the end");
    vh::eval(vh::hash_str(cat("br", n, ":", total, ":", early)));
    sched::beat();
}

// ---- the blocking deque ----
struct Item {
    static std::atomic<long>& alive() { static std::atomic<long> a{0}; return a; }
    int id;
    std::unique_ptr<int> payload;  // an item can only be moved
    Item(int i = -1) : id(i), payload(new int(i * 3 + 1)) { ++alive(); }
    Item(int a, int b) : Item(a * 1000000 + b) {}
    Item(Item&& o) noexcept : id(o.id), payload(std::move(o.payload)) { ++alive(); }
    Item& operator=(Item&& o) noexcept { id = o.id; payload = std::move(o.payload); return *this; }
    ~Item() { --alive(); }
    bool whole() const { return payload && *payload == id * 3 + 1; }
};
static void deque_bulk(vh::Rng& r, long) {
    int np = (int)r.i(1, 5), nc = (int)r.i(1, 5), m = (int)r.logu(1, 200), ends = (int)r.i(0, 3);
    long before = Item::alive();
    std::vector<std::vector<int>> got(nc), late(nc);
    std::string ctx = cat("producers ", np, " consumers ", nc, " items ", m, " ends ", ends);
    long popped = 0, left = 0;
    bool stop_early = r.i(0, 2) == 0;
    long stop_after = stop_early ? r.i(0, (long)np * m) : (long)np * m;
    {
        mt::ConcurrentDeque<Item> q;
        std::atomic<long> taken{0};
        std::atomic<bool> torn{false}, stopped{false};
        sched::perturb((int)r.i(0, 50), r.next());
        std::vector<std::thread> th;
        for (int c = 0; c < nc; ++c) th.emplace_back([&, c] {
            Item x;
            for (;;) {
                bool ok = (ends == 0 || (ends == 3 && c % 2)) ? q.try_pop_front(x) : (ends == 1 ? q.try_pop_front(x) : q.try_pop_back(x));
                if (!ok) break;
                if (!x.whole()) torn = true;
                got[c].push_back(x.id);
                if (taken.fetch_add(1) + 1 >= stop_after) { stopped = true; q.stop(); }
            }
        });
        for (int p = 0; p < np; ++p) th.emplace_back([&, p] {
            for (int s = 0; s < m; ++s) {
                if (ends == 1 || (ends == 3 && s % 2)) q.emplace_front(p, s);
                else q.emplace_back(Item(p, s));
                if (s % 50 == 3) q.empty();
            }
        });
        if (stop_after == 0) q.stop();
        for (auto& t : th) t.join();
        sched::calm();
        vh::expect(!torn, "deque: items are whole", ctx);
        Item x;
        vh::expect(!q.try_pop_front(x) && !q.try_pop_back(x), "deque: a stopped deque hands out nothing", ctx);
        for (auto& g : got) popped += (long)g.size();
        left = (long)np * m - popped;
        vh::expect(q.empty() == (left == 0), "deque: empty() tells whether items are left", ctx, " left ", left);
        vh::expect(Item::alive() == before + left + 1, "deque: items not taken stay in the deque", ctx, " alive ", Item::alive() - before - 1, " left ", left);
    }
    vh::expect(Item::alive() == before, "deque: items left are destroyed with it", ctx, " ", Item::alive() - before);
    std::map<int, int> h;
    for (auto& g : got) for (int i : g) ++h[i];
    bool once = true, known = true;
    for (auto& p : h) once = once && p.second == 1, known = known && p.first >= 0 && p.first / 1000000 < np && p.first % 1000000 < m;
    vh::expect(once, "deque: no item is delivered twice", ctx);
    vh::expect(known, "deque: only items put in come out", ctx);
    if (!stop_early) vh::expect((long)h.size() == (long)np * m, "deque: every item is delivered", ctx, " got ", h.size());
    if (ends == 0 || ends == 1) {  // FIFO (back to front) or LIFO at the front
        if (ends == 0) {
            bool order = true;
            for (auto& g : got) { std::map<int, int> last; for (int i : g) { int p = i / 1000000, s = i % 1000000; if (last.count(p) && last[p] >= s) order = false; last[p] = s; } }
            vh::expect(order, "deque: items of a producer come out in order", ctx);
            vh::count("deque: queues");
            if (np == 1 && nc == 1) {
                bool exact = true;
                for (size_t i = 0; i < got[0].size(); ++i) exact = exact && got[0][i] == (int)i;
                vh::expect(exact, "deque: a queue of one producer and one consumer is exact", ctx);
            }
        }
    }
    vh::count("deque: items delivered", popped);
    vh::count(stop_early ? "deque: stopped early" : "deque: emptied");
    vh::eval(vh::hash_str(cat("db", np, ":", nc, ":", m, ":", ends, ":", left)));
    sched::beat();
}
// short histories with overlapping operations, each explained by some order of the operations
struct Op { int kind, arg, res; long t0, t1; };  // kind 0 push back 1 push front 2 pop front 3 pop back 4 empty
static bool explain(std::vector<Op> const& h, unsigned done, std::deque<int>& d, std::set<std::pair<unsigned, std::vector<int>>>& seen) {
    if (done + 1 == (1u << h.size())) return true;
    if (!seen.insert({done, std::vector<int>(d.begin(), d.end())}).second) return false;
    long lim = LONG_MAX;
    for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) lim = std::min(lim, h[i].t1);
    for (size_t i = 0; i < h.size(); ++i) {
        if (done >> i & 1 || h[i].t0 > lim) continue;
        auto& o = h[i];
        std::deque<int> keep = d;
        bool ok = true;
        if (o.kind == 0) d.push_back(o.arg);
        else if (o.kind == 1) d.push_front(o.arg);
        else if (o.kind == 2) { ok = !d.empty() && d.front() == o.res; if (ok) d.pop_front(); }
        else if (o.kind == 3) { ok = !d.empty() && d.back() == o.res; if (ok) d.pop_back(); }
        else ok = d.empty() == (o.res != 0);
        if (ok && explain(h, done | 1u << i, d, seen)) return true;
        d = keep;
    }
    return false;
}
static void deque_histories(vh::Rng& r, long) {
    int n = (int)r.i(2, 4);
    std::vector<std::vector<Op>> plan(n);
    int pushes = 0, pops = 0, id = 1;
    for (auto& p : plan) for (int k = (int)r.i(2, 4); k-- > 0;) {
        int kind = (int)r.i(0, 4);
        if (kind < 2) ++pushes;
        p.push_back({kind, kind < 2 ? id++ : 0, 0, 0, 0});
    }
    for (auto& p : plan) for (auto& o : p) if (o.kind == 2 || o.kind == 3) { if (pops < pushes) ++pops; else o.kind = 4; }
    // pops never outnumber pushes; a thread that waits does so for a push of another thread, so pushes come first in each
    for (auto& p : plan) std::stable_sort(p.begin(), p.end(), [](Op const& a, Op const& b) { return (a.kind < 2) > (b.kind < 2); });
    mt::ConcurrentDeque<int> q;
    std::atomic<long> clock{0};
    std::atomic<int> ready{0};
    std::atomic<bool> failed{false};
    sched::perturb((int)r.i(0, 60), r.next());
    crew(n, [&](int t) {
        ++ready;
        while (ready < n) sched_yield();
        for (auto& o : plan[t]) {
            o.t0 = clock++;
            int v = -1;
            if (o.kind == 0) q.emplace_back(o.arg);
            else if (o.kind == 1) q.emplace_front(o.arg);
            else if (o.kind == 2) { if (!q.try_pop_front(v)) failed = true; o.res = v; }
            else if (o.kind == 3) { if (!q.try_pop_back(v)) failed = true; o.res = v; }
            else o.res = q.empty();
            o.t1 = clock++;
        }
    });
    sched::calm();
    std::vector<Op> h;
    std::string ctx;
    for (int t = 0; t < n; ++t) for (auto& o : plan[t]) h.push_back(o), ctx += cat("[", t, ": ", std::vector<const char*>{"push back ", "push front ", "pop front ", "pop back ", "empty "}[o.kind], o.kind < 2 ? o.arg : o.res, " ", o.t0, "-", o.t1, "] ");
    long overlaps = 0;
    for (auto& a : h) for (auto& b : h) overlaps += a.t0 < b.t0 && b.t0 < a.t1;
    std::deque<int> d;
    std::set<std::pair<unsigned, std::vector<int>>> seen;
    vh::expect(!failed, "deque: a waiting pop succeeds while the deque is open", ctx);
    vh::expect(explain(h, 0, d, seen), "deque: the history has an explanation", ctx);
    vh::count("deque: histories judged");
    if (overlaps) vh::count("deque: histories with overlapping operations");
    vh::count("deque: operations in histories", h.size());
    vh::eval(vh::hash_str(ctx));
    sched::beat();
}
// threads waiting when the deque is stopped all return
static void deque_stop(vh::Rng& r, long) {
    int n = (int)r.i(1, 8);
    std::atomic<int> back{0}, got{0};
    int items = (int)r.i(0, 4);
    sched::perturb((int)r.i(0, 60), r.next());
    {
        mt::ConcurrentDeque<int> q;
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i) th.emplace_back([&, i] { int v; while (i % 2 ? q.try_pop_front(v) : q.try_pop_back(v)) ++got; ++back; });
        if (r.i(0, 1)) sched::nap((unsigned)r.i(0, 800));
        for (int i = 0; i < items; ++i) q.emplace_back(i);
        if (r.i(0, 1)) sched::nap((unsigned)r.i(0, 300));
        q.stop();
        for (auto& t : th) t.join();
    }
    sched::calm();
    vh::expect(back == n && got <= items, "deque: every waiting thread returns after stop", n, " got ", got, " of ", items);
    vh::count("deque: stops with waiting threads");
    vh::eval(vh::hash_str(cat("ds", n, ":", items, ":", got)));
    sched::beat();
}

// ---- the thread pool ----
static int plain_task(int a, int b) { return a * 1000 + b; }
struct Worker { int base; int add(int x) { return base + x; } };
static void pool_shared(vh::Rng& r, long) {
    auto& pool = mt::ThreadPool::get_instance();
    int n = (int)r.i(1, 6), m = (int)r.i(1, 120);
    std::vector<std::vector<std::atomic<int>>> runs(n);
    for (auto& v : runs) { std::vector<std::atomic<int>> t(m); v.swap(t); }
    std::atomic<int> rejected{0}, wrong{0}, thrown{0};
    sched::perturb((int)r.i(0, 40), r.next());
    vh::expect(&pool == &mt::ThreadPool::get_instance(), "pool: one instance");
    crew(n, [&](int t) {
        std::vector<std::pair<int, std::future<long>>> res;
        for (int s = 0; s < m; ++s) {
            try {
                switch (s % 5) {
                    case 0: res.emplace_back(s, pool.commit([&, t, s] { ++runs[t][s]; return 1000l * t + s; })); break;
                    case 1: { std::string big(40, 'k'); res.emplace_back(s, pool.commit([&](int a, int b, std::string const& x) { ++runs[a][b]; return x == std::string(40, 'k') ? 1000l * a + b : -1l; }, t, s, big)); big.assign(40, 'z'); break; }
                    case 2: { std::vector<int> v(30, s); res.emplace_back(s, pool.commit([&](std::vector<int> const& x, int a) { ++runs[a][x.at(29)]; return 1000l * a + x[0]; }, std::move(v), t)); break; }
                    case 3: { auto& cell = runs[t][s]; res.emplace_back(s, pool.commit([t, s](std::atomic<int>& c) { ++c; return 1000l * t + s; }, std::ref(cell))); break; }
#ifndef SCHED_TSAN  // the C++ run-time library counts references to exceptions where the sanitizer cannot see it
                    case 4: res.emplace_back(s, pool.commit([&, t, s]() -> long { ++runs[t][s]; throw s; })); break;
#endif
                    default: res.emplace_back(s, pool.commit([&, t, s] { ++runs[t][s]; return 1000l * t + s; }));
                }
            } catch (std::runtime_error const&) { ++rejected; --runs[t][s]; }
            if (res.size() > 40) { for (auto& x : res) try { if (x.second.get() != 1000l * t + x.first) ++wrong; } catch (int v) { if (v != x.first || v % 5 != 4) ++wrong; ++thrown; } res.clear(); }
        }
        for (auto& x : res) try { if (x.second.get() != 1000l * t + x.first) ++wrong; } catch (int v) { if (v != x.first || v % 5 != 4) ++wrong; ++thrown; }
    });
    auto a = pool.commit(plain_task, 7, 9);
    Worker w{50};
    auto b = pool.commit([&w](int x) { return w.add(x); }, 4);
    auto c = pool.commit([&] { return pool.commit(plain_task, 1, 2).valid(); });
    bool special = a.get() == 7009 && b.get() == 54 && c.get();
    sched::calm();
    long lost = 0, doubled = 0;
    for (auto& v : runs) for (auto& x : v) { int k = x; if (k == -1) continue; lost += k == 0, doubled += k > 1; }
    std::string ctx = cat("threads ", n, " tasks ", m, " rejected ", rejected.load());
    vh::expect(lost == 0, "pool: every accepted task runs", ctx, " lost ", lost);
    vh::expect(doubled == 0, "pool: no task runs twice", ctx, " doubled ", doubled);
    vh::expect(wrong == 0, "pool: every future gets its task's result", ctx, " wrong ", wrong.load());
    vh::expect(special, "pool: functions, members and tasks that commit", ctx);
    vh::count("pool: tasks", (uint64_t)n * m);
    vh::count("pool: tasks ending by exception", thrown);
    vh::eval(vh::hash_str(cat("ps", n, ":", m)));
    sched::beat();
}
// pools of any size, shut down at any moment
static void pool_own(vh::Rng& r, long) {
    int workers = (int)r.i(1, 5), cap = (int)r.i(0, 60), n = (int)r.i(1, 4), m = (int)r.i(0, 60);
    bool wait = r.i(0, 1), slow = r.i(0, 3) == 0;
    std::vector<std::vector<std::atomic<int>>> started(n), ended(n);
    for (auto& v : started) { std::vector<std::atomic<int>> t(m); v.swap(t); }
    for (auto& v : ended) { std::vector<std::atomic<int>> t(m); v.swap(t); }
    std::vector<std::vector<std::pair<int, std::future<int>>>> res(n);
    std::vector<int> order;  // written by the tasks: unsynchronised where there is one worker only
    std::mutex om;
    std::atomic<long> rejected{0}, inside{0}, most{0};
    std::string ctx = cat("workers ", workers, " capacity ", cap, " committers ", n, " tasks ", m, wait ? " awaited" : " dropped");
    sched::perturb((int)r.i(0, 50), r.next());
    unsigned idle = r.i(0, 2) == 0 ? (unsigned)r.i(0, 600) : 0;
    {
        mt::ThreadPool pool(workers, cap);
        if (idle) sched::nap(idle);
        crew(n, [&](int t) {
            for (int s = 0; s < m; ++s) {
                try {
                    res[t].emplace_back(s, pool.commit([&, t, s] {
                        long k = ++inside;
                        for (long o = most; o < k && !most.compare_exchange_weak(o, k);) {}
                        ++started[t][s];
                        if (slow) sched::nap(40);
                        if (workers == 1) order.push_back(t * 1000 + s);
                        else { std::lock_guard<std::mutex> l(om); order.push_back(t * 1000 + s); }
                        ++ended[t][s];
                        --inside;
                        return t * 1000 + s;
                    }));
                } catch (std::runtime_error const&) { ++rejected; sched::nap(20); }
            }
        });
        if (wait) for (auto& v : res) for (auto& f : v) f.second.wait();
    }
    long in_at_end = inside;
    sched::calm();
    long lost = 0, doubled = 0, partial = 0, wrong = 0, broken = 0, ghost = 0;
    for (int t = 0; t < n; ++t) {
        std::vector<char> accepted(m, 0);
        for (auto& f : res[t]) {
            accepted[f.first] = 1;
            if (f.second.wait_for(std::chrono::seconds(0)) != std::future_status::ready) { ++lost; continue; }
            try { if (f.second.get() != t * 1000 + f.first || ended[t][f.first] != 1) ++wrong; } catch (std::future_error const&) { ++broken; if (started[t][f.first]) ++wrong; }
        }
        for (int s = 0; s < m; ++s) { doubled += started[t][s] > 1; partial += started[t][s] != ended[t][s]; ghost += started[t][s] && !accepted[s]; }
    }
    vh::expect(lost == 0, "pool: no future is left hanging by shutdown", ctx, " ", lost);
    vh::expect(doubled == 0, "pool: no task runs twice in a pool of its own", ctx, " ", doubled);
    vh::expect(partial == 0 && in_at_end == 0, "pool: shutdown waits for running tasks", ctx, " ", partial, " inside ", in_at_end);
    vh::expect(ghost == 0, "pool: rejected tasks do not run", ctx, " ", ghost);
    vh::expect(wrong == 0, "pool: results belong to their tasks", ctx, " ", wrong);
    if (wait) vh::expect(broken == 0, "pool: every awaited task ran", ctx, " ", broken);
    vh::expect(most <= workers, "pool: no more tasks at once than workers", ctx, " ", most.load());
    if (workers == 1) {
        bool ok = true;
        std::map<int, int> last;
        for (int x : order) { int t = x / 1000, s = x % 1000; if (last.count(t) && last[t] >= s) ok = false; last[t] = s; }
        vh::expect(ok, "pool: a single worker runs tasks in order", ctx);
        vh::count("pool: single workers");
    }
    vh::count("pool: own pools");
    vh::count("pool: tasks of own pools", order.size());
    vh::count("pool: rejected tasks", rejected);
    vh::count("pool: tasks dropped by shutdown", broken);
    vh::eval(vh::hash_str(cat("po", workers, ":", cap, ":", n, ":", m, ":", order.size())));
    sched::beat();
}
// the capacity of the waiting line
static void pool_capacity(vh::Rng& r, long) {
    int workers = (int)r.i(1, 4), cap = (int)r.i(1, 100);
    std::promise<void> gate;
    std::shared_future<void> open = gate.get_future().share();
    std::atomic<int> held{0}, ran{0};
    int accepted = 0;
    bool full = false;
    sched::perturb((int)r.i(0, 40), r.next());
    {
        mt::ThreadPool pool(workers, cap);
        std::vector<std::future<void>> fs;
        for (int i = 0; i < workers;) try { fs.push_back(pool.commit([&] { ++held; open.wait(); })); ++i; } catch (std::runtime_error const&) { sched::nap(50); }
        while (held < workers) { sched::nap(50); }
        for (int i = 0; i < cap + 20 && !full; ++i) try { fs.push_back(pool.commit([&] { ++ran; })); ++accepted; } catch (std::runtime_error const&) { full = true; }
        gate.set_value();
        for (auto& f : fs) f.get();
    }
    sched::calm();
    vh::expect(full && accepted >= cap && accepted <= cap + 1, "pool: the waiting line holds its capacity", "capacity ", cap, " accepted ", accepted);
    vh::expect(ran == accepted, "pool: all waiting tasks run", "accepted ", accepted, " ran ", ran.load());
    vh::count("pool: filled lines");
    vh::eval(vh::hash_str(cat("pc", workers, ":", cap)));
    sched::beat();
}
void vh_main() {
    {
        sched::Watchdog dog;
#ifdef SCHED_TSAN
        long n = vh::scale(80, 1500);
#elif defined(SMALL)
        long n = vh::scale(60, 1500);
#else
        long n = vh::scale(300, 6000);
#endif
        vh::cases("file writers", n, file_writers);
        vh::cases("file tuples", n / 2, file_tuples);
        vh::cases("file readers", n, file_readers);
        vh::cases("background writer", n, background_writer);
        vh::cases("background reader", n, background_reader);
        vh::cases("deque bulk", n, deque_bulk);
        vh::cases("deque histories", n * 6, deque_histories);
        vh::cases("deque stop", n * 2, deque_stop);
        vh::cases("pool shared", n / 2, pool_shared);
        vh::cases("pool own", n * 3, pool_own);
        vh::cases("pool capacity", n / 2, pool_capacity);
    }
    vh::count("perturbed synchronisation calls", sched::delays());
    vh::count("wakeups without a signal", sched::spurious());
}
