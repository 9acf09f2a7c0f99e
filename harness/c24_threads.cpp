// C24: the parallel helpers run every item exactly once, hand out intact arguments and return only when all is done.
#include "vh_abort.hpp"
#include "sched.hpp"
#include <map>
#include <set>
#include <numeric>
#include <functional>
#include "multi-thread/multi-thread.hpp"
namespace mt = hub::multi_thread;
using vh::cat;

struct Call { size_t begin, end; std::thread::id id; };

// one parallel loop over `total` items, each recorded in plain memory
static void loop(vh::Rng& r, long) {
    size_t total = r.i(0, 9) == 0 ? 0 : (size_t)r.logu(1, 4000), n = (size_t)r.i(1, 48);
    if (r.i(0, 4) == 0) n = total + (size_t)r.i(0, 3);
    if (r.i(0, 4) == 0) total = n * (size_t)r.i(1, 40) + (size_t)r.i(0, 1);
    n = std::min<size_t>(std::max<size_t>(n, 1), 64);
    sched::perturb((int)r.i(0, 60), r.next());
    std::vector<unsigned> hits(total, 0);
    std::vector<size_t> owner(total, 0);
    std::vector<Call> calls;
    std::mutex m;
    std::atomic<size_t> finished{0};
    bool lazy = r.i(0, 2) == 0;
    auto body = [&](size_t b, size_t e) {
        for (size_t i = b; i < e && i < total; ++i) ++hits[i], owner[i] = b + 1;  // unsynchronised: an overlap is a data race
        if (lazy && (b % 3) == 0) sched::nap(300);
        { std::lock_guard<std::mutex> l(m); calls.push_back({b, e, std::this_thread::get_id()}); }
        ++finished;
    };
    int form = (int)r.i(0, 3);
    if (form == 0) mt::multi_threads_loop(total, n, body);
    else if (form == 1) { auto const& c = body; mt::multi_threads_loop(total, n, c); }
    else if (form == 2) { std::function<void(size_t, size_t)> f = body; mt::multi_threads_loop(total, n, std::move(f)); }
    else mt::multi_threads_loop(total, n, std::ref(body));
    size_t done = finished, count = calls.size();
    sched::calm();
    std::string ctx = cat("total ", total, " threads ", n, " form ", form);
    size_t missed = 0, twice = 0;
    for (auto h : hits) missed += h == 0, twice += h > 1;
    vh::expect(missed == 0, "loop: every item is processed", ctx, " missed ", missed);
    vh::expect(twice == 0, "loop: no item is processed twice", ctx, " repeated ", twice);
    vh::expect(done == count, "loop: returned before its work was done", ctx, " finished ", done, " of ", count);
    size_t covered = 0;
    bool inside = true;
    std::set<std::thread::id> ids;
    for (auto& c : calls) inside = inside && c.begin <= c.end && c.end <= total, covered += c.end - c.begin, ids.insert(c.id);
    vh::expect(inside && covered == total, "loop: ranges cover the items", ctx, " covered ", covered);
    vh::count("loops");
    if (total < n) vh::count("loops with fewer items than threads");
    if (total % n) vh::count("loops that do not divide");
    vh::count("items", total);
    vh::eval(vh::hash_str(cat(total, ":", n)));
    sched::beat();
}
// only the ranges, for totals far beyond memory
static void ranges(vh::Rng& r, long) {
    size_t total = (size_t)(r.next() >> r.i(0, 40)), n = (size_t)r.i(1, 64);
    std::vector<Call> calls;
    std::mutex m;
    mt::multi_threads_loop(total, n, [&](size_t b, size_t e) { std::lock_guard<std::mutex> l(m); calls.push_back({b, e, {}}); });
    std::sort(calls.begin(), calls.end(), [](Call const& a, Call const& b) { return a.begin != b.begin ? a.begin < b.begin : a.end < b.end; });
    size_t at = 0;
    bool ok = true;
    for (auto& c : calls) {
        if (c.begin == c.end) continue;
        ok = ok && c.begin == at && c.end > c.begin;
        at = c.end;
    }
    vh::expect(ok && at == total, "loop: huge ranges cover the items once", "total ", total, " threads ", n, " reached ", at);
    vh::count("huge ranges");
    vh::eval(vh::hash_str(cat("r", total, ":", n)));
    sched::beat();
}

// argument whose copies and destructions are recorded
struct Tracked {
    static std::atomic<long>& alive() { static std::atomic<long> a{0}; return a; }
    std::vector<int> data;
    explicit Tracked(int n = 0, int k = 0) : data(n) { std::iota(data.begin(), data.end(), k); ++alive(); }
    Tracked(Tracked const& o) : data(o.data) { ++alive(); }
    Tracked(Tracked&& o) noexcept : data(std::move(o.data)) { ++alive(); }
    Tracked& operator=(Tracked const&) = default;
    ~Tracked() { --alive(); }
    bool intact(int n, int k) const {
        if ((int)data.size() != n) return false;
        for (int i = 0; i < n; ++i) if (data[i] != k + i) return false;
        return true;
    }
};
struct Seen { size_t idx; bool ok; std::thread::id id; };
struct Log {
    std::mutex m;
    std::vector<Seen> v;
    std::atomic<size_t> finished{0};
    bool lazy = false;
    void add(size_t i, bool ok) {
        if (lazy) sched::nap((unsigned)(50 + i % 7 * 60));
        { std::lock_guard<std::mutex> l(m); v.push_back({i, ok, std::this_thread::get_id()}); }
        ++finished;
    }
};
static Log* the_log;
static int want_n, want_k;
static bool same(std::string const& s) { return s == std::string(want_n, 'a' + want_k % 26); }
static void free_function(std::string s, Tracked t) { the_log->add(0, same(s) && t.intact(want_n, want_k)); }
static void free_indexed(size_t i, std::string s, Tracked t) { the_log->add(i, same(s) && t.intact(want_n, want_k)); }
struct Member {
    int tag;
    void run(std::string const& s, Tracked const& t) const { the_log->add(0, tag == 7 && same(s) && t.intact(want_n, want_k)); }
    void run_indexed(size_t, std::string const&) {}
};
struct Functor {
    Tracked own;
    void operator()(std::string s, Tracked const& t) { bool ok = own.intact(want_n, want_k) && same(s) && t.intact(want_n, want_k); own.data.assign(3, -1); s.clear(); the_log->add(0, ok); }
    void operator()(size_t i, std::string s, Tracked const& t) { bool ok = own.intact(want_n, want_k) && same(s) && t.intact(want_n, want_k); own.data.assign(3, -1); s.clear(); the_log->add(i, ok); }
};

static void launch(vh::Rng& r, long) {
    size_t n = (size_t)r.i(0, 40);
    Log log;
    log.lazy = r.i(0, 2) == 0;
    the_log = &log;
    want_n = (int)r.i(0, 200), want_k = (int)r.i(0, 1000);
    bool indexed = r.i(0, 1), autos = r.i(0, 4) == 0;
    int form = (int)r.i(0, 8);
    sched::perturb((int)r.i(0, 60), r.next());
    long before = Tracked::alive();
    std::string ctx;
    {
        std::string str(want_n, 'a' + want_k % 26);
        std::string const cstr = str;
        Tracked t(want_n, want_k);
        size_t shared_sum = 0;
        std::mutex sm;
        auto ok_of = [&](std::string const& s, Tracked const& x) { return same(s) && x.intact(want_n, want_k); };
        auto run = [&](auto&& plain, auto&& with_index, auto&&... args) {
            if (indexed) {
                if (autos) mt::auto_indexed_multi_thread(with_index, std::forward<decltype(args)>(args)...);
                else mt::indexed_multi_thread(n, with_index, std::forward<decltype(args)>(args)...);
            } else {
                if (autos) mt::auto_multi_thread(plain, std::forward<decltype(args)>(args)...);
                else mt::multi_thread(n, plain, std::forward<decltype(args)>(args)...);
            }
        };
        switch (form) {
            case 0:  // lvalues, received by value and destroyed by the thread
                run([&](std::string s, Tracked x) { bool ok = ok_of(s, x); s.clear(), x.data.clear(); log.add(0, ok); },
                    [&](size_t i, std::string s, Tracked x) { bool ok = ok_of(s, x); s.clear(), x.data.clear(); log.add(i, ok); }, str, t);
                break;
            case 1:  // temporaries
                run([&](std::string&& s, Tracked&& x) { bool ok = ok_of(s, x); std::string a = std::move(s); Tracked b = std::move(x); log.add(0, ok); },
                    [&](size_t i, std::string&& s, Tracked&& x) { bool ok = ok_of(s, x); std::string a = std::move(s); Tracked b = std::move(x); log.add(i, ok); },
                    std::string(str), Tracked(t));
                break;
            case 2:  // const lvalues and a temporary, by const reference
                run([&](std::string const& s, Tracked const& x) { log.add(0, ok_of(s, x)); }, [&](size_t i, std::string const& s, Tracked const& x) { log.add(i, ok_of(s, x)); }, cstr, Tracked(want_n, want_k));
                break;
            case 3:  // moved arguments
                { std::string s2 = str; Tracked t2 = t;
                run([&](std::string s, Tracked x) { log.add(0, ok_of(s, x)); }, [&](size_t i, std::string s, Tracked x) { log.add(i, ok_of(s, x)); }, std::move(s2), std::move(t2)); }
                break;
            case 4:  // references
                run([&](std::string& s, Tracked const& x, size_t& sum) { bool ok = &s == &str && &x == &t; { std::lock_guard<std::mutex> l(sm); ++sum; } log.add(0, ok); },
                    [&](size_t i, std::string& s, Tracked const& x, size_t& sum) { bool ok = &s == &str && &x == &t; { std::lock_guard<std::mutex> l(sm); ++sum; } log.add(i, ok); },
                    std::ref(str), std::cref(t), std::ref(shared_sum));
                break;
            case 5: {  // plain functions and character literals
                if (indexed) { if (autos) mt::auto_indexed_multi_thread(free_indexed, str.c_str(), t); else mt::indexed_multi_thread(n, free_indexed, str.c_str(), t); }
                else { if (autos) mt::auto_multi_thread(&free_function, str.c_str(), t); else mt::multi_thread(n, &free_function, str.c_str(), t); }
                break;
            }
            case 6: {  // member functions of an object
                Member const mem{7};
                indexed = false;
                if (r.i(0, 1)) { if (autos) mt::auto_multi_thread(&Member::run, &mem, str, t); else mt::multi_thread(n, &Member::run, &mem, str, t); }
                else { if (autos) mt::auto_multi_thread(&Member::run, Member{7}, str, t); else mt::multi_thread(n, &Member::run, Member{7}, str, t); }
                break;
            }
            case 7: {  // a callable with state of its own, which each copy spoils
                Functor f{Tracked(want_n, want_k)};
                if (indexed) { if (autos) mt::auto_indexed_multi_thread(f, str, t); else mt::indexed_multi_thread(n, f, str, t); }
                else { if (autos) mt::auto_multi_thread(f, str, t); else mt::multi_thread(n, f, str, t); }
                vh::expect(f.own.intact(want_n, want_k), "launch: the caller's callable is untouched");
                break;
            }
            default: {  // a temporary callable, shared ownership
                auto p = std::make_shared<Tracked>(want_n, want_k);
                if (indexed) { if (autos) mt::auto_indexed_multi_thread(Functor{Tracked(want_n, want_k)}, std::string(str), *p); else mt::indexed_multi_thread(n, Functor{Tracked(want_n, want_k)}, std::string(str), *p); }
                else { auto f = [&, q = std::shared_ptr<Tracked const>(p)](std::shared_ptr<Tracked> x, std::string s) { log.add(0, q == x && ok_of(s, *x)); };
                    if (autos) mt::auto_multi_thread(f, p, std::string(str)); else mt::multi_thread(n, f, p, std::string(str)); }
                vh::expect(p.use_count() == 1, "launch: shared arguments are released");
            }
        }
        size_t done = log.finished;
        sched::calm();
        size_t expect_n = autos ? mt::machine_thread_num : n;
        ctx = cat("threads ", expect_n, autos ? " (automatic)" : "", indexed ? " indexed" : "", " form ", form, " size ", want_n);
        vh::expect(done == log.v.size() && log.v.size() >= expect_n, "launch: all work is done at the return", ctx, " done ", done);
        vh::expect(log.v.size() == expect_n, "launch: one execution per thread", ctx, " executions ", log.v.size());
        size_t bad = 0;
        std::set<size_t> idx;
        std::set<std::thread::id> ids;
        for (auto& s : log.v) bad += !s.ok, idx.insert(s.idx), ids.insert(s.id);
        vh::expect(bad == 0, "launch: every execution receives intact arguments", ctx, " spoiled ", bad);
        if (indexed) vh::expect(idx.size() == expect_n && (idx.empty() || (*idx.begin() == 0 && *idx.rbegin() == expect_n - 1)), "launch: every index is handed out once", ctx, " different ", idx.size());
        vh::expect(same(str) && t.intact(want_n, want_k), "launch: the caller's arguments are untouched", ctx);
        if (form == 4) vh::expect(shared_sum == expect_n, "launch: effects through references are visible", ctx, " ", shared_sum);
        vh::count(indexed ? "indexed launches" : "plain launches");
        if (autos) vh::count("automatic launches");
        vh::count("executions", log.v.size());
        vh::count(cat("argument form ", form));
    }
    vh::expect(Tracked::alive() == before, "launch: copies of arguments are released", ctx, Tracked::alive() - before);
    vh::eval(vh::hash_str(ctx));
    sched::beat();
}
// helpers inside helpers: a grid of items
static void nested(vh::Rng& r, long) {
    size_t rows = (size_t)r.i(1, 12), cols = (size_t)r.i(0, 60), n = (size_t)r.i(1, 5), m = (size_t)r.i(1, 5);
    std::vector<std::vector<int>> g(rows, std::vector<int>(cols, 0));
    sched::perturb((int)r.i(0, 40), r.next());
    bool split = r.i(0, 1);
    if (split) mt::multi_threads_loop(rows, n, [&](size_t b, size_t e) { for (size_t i = b; i < e; ++i) mt::multi_threads_loop(cols, m, [&, i](size_t c, size_t d) { for (size_t j = c; j < d; ++j) g[i][j] += 1 + (int)(i * 7 + j); }); });
    else mt::indexed_multi_thread(rows, [&](size_t i) { mt::multi_threads_loop(cols, m, [&, i](size_t c, size_t d) { for (size_t j = c; j < d; ++j) g[i][j] += 1 + (int)(i * 7 + j); }); });
    sched::calm();
    bool ok = true;
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) ok = ok && g[i][j] == 1 + (int)(i * 7 + j);
    vh::expect(ok, "nested loops process every item once", rows, "x", cols, " threads ", n, " ", m);
    vh::count("nested loops");
    vh::eval(vh::hash_str(cat("n", rows, ":", cols, ":", n, ":", m)));
    sched::beat();
}
void vh_main() {
    {
    sched::Watchdog dog;
#ifdef SCHED_TSAN
    long n = vh::scale(250, 2500);
#elif defined(SMALL)
    long n = vh::scale(200, 4000);
#else
    long n = vh::scale(1200, 20000);
#endif
    vh::cases("loops", n * 2, loop);
    vh::cases("ranges", n, ranges);
    vh::cases("launches", n * 3, launch);
    vh::cases("nested", n / 4, nested);
    }
    vh::count("perturbed synchronisation calls", sched::delays());
    vh::expect(mt::auto_thread >= 1 && mt::machine_thread_num >= 1, "automatic thread numbers are positive");
}
