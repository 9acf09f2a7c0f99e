// C26: configuration files and command lines are read as written.
#include "spaceHub.hpp"
#include "vh.hpp"
#include <fstream>
#include <sys/wait.h>
using namespace hub;
using vh::Rng;

static std::string word(Rng& r, int lo, int hi, std::string const& forbidden, bool high = false) {
    std::string s;
    int n = (int)r.i(lo, hi);
    while ((int)s.size() < n) {
        char c = r.chance(0.6) ? "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_"[r.i(0, 42)] : high && r.chance(0.2) ? (char)r.i(128, 255) : (char)r.i(33, 126);
        if (forbidden.find(c) == std::string::npos) s += c;
    }
    return s;
}
static std::string ws(Rng& r, double p = 0.5) { std::string s; while (r.chance(p)) s += " \t  \t \t \t \v\f\r"[r.i(0, 12)]; return s; }
static std::string squeeze(std::string const& s) { std::string o; for (char c : s) if (!isspace((unsigned char)c)) o += c; return o; }
enum Kind { INT, LONG, ULL, DOUBLE, FLOAT, LDOUBLE, STRING, BOOL, CHAR, SIZE, KINDS };
static char const* kname[] = {"int", "long", "unsigned long long", "double", "float", "long double", "string", "bool", "char", "size_t"};
struct Item { std::string key; Kind kind; std::string text; long l; unsigned long long u; double d; float f; long double ld; };

static Item item(Rng& r, Kind k) {
    Item it{}; it.kind = k; char b[128];
    auto dbl = [&] { double m = r.u(-10, 10); int e = (int)r.i(-300, 297); return r.chance(0.2) ? (double)r.i(-1000, 1000) : r.chance(0.5) ? m : m * std::pow(10.0, e); };
    switch (k) {
        case INT: it.l = r.chance(0.1) ? (r.chance(0.5) ? INT32_MAX : INT32_MIN) : r.i(-100000, 100000); it.text = std::to_string(it.l); if (it.l >= 0 && r.chance(0.2)) it.text = "+" + it.text; if (r.chance(0.1) && it.l > 0) it.text = "0" + std::to_string(it.l); break;
        case LONG: it.l = r.chance(0.1) ? (r.chance(0.5) ? INT64_MAX : INT64_MIN) : (long)r.next(); it.text = std::to_string(it.l); break;
        case ULL: case SIZE: it.u = r.next(); it.text = std::to_string(it.u); break;
        case DOUBLE: it.d = dbl(); snprintf(b, sizeof b, r.chance(0.5) ? "%.17g" : "%.17e", it.d); it.text = b; if (r.chance(0.2)) { it.d = r.i(-99, 99); it.text = std::to_string((long)it.d) + (r.chance(0.5) ? "." : ".0"); } break;
        case FLOAT: it.f = (float)r.u(-1e6, 1e6); snprintf(b, sizeof b, "%.9g", it.f); it.text = b;
            if (r.chance(0.3)) {  // a hair above the middle between two floats: to be rounded once, from the text
                float f = (float)r.u(1, 1e6) * (r.chance(0.5) ? 1.f : 1e-3f); uint32_t bits; memcpy(&bits, &f, 4); bits &= ~1u; memcpy(&f, &bits, 4);
                float up = std::nextafter(f, 1e30f); char m[160]; snprintf(m, sizeof m, "%.60f", ((double)f + (double)up) / 2);
                it.text = m; while (it.text.back() == '0') it.text.pop_back();
                it.text += "00000000000000000001"; it.f = up; vh::count("numbers close to a tie");
            }
            break;
        case LDOUBLE: it.ld = (long double)dbl() / 3; snprintf(b, sizeof b, "%.21Lg", it.ld); it.text = b; break;
        case BOOL: it.l = r.i(0, 1); it.text = std::to_string(it.l); break;
        default: break;
    }
    return it;
}

// a child process that is expected not to come back from f
template <class F> static bool refuses(F f) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
        alarm(20);
        try { f(); } catch (...) { _exit(3); }
        _exit(42);
    }
    int st = 0; waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 42) && !(WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGALRM));
}

static void file_case(Rng& r, long idx) {
    char divider = r.pick(std::vector<char>{'=', '=', ':', ',', '|', ' ', '\t', '~', '>'});
    char comment = r.pick(std::vector<char>{'#', '#', ';', '%', '!', '@', '*'});
    bool spacediv = isspace((unsigned char)divider);
    std::string bad = std::string(1, divider) + comment;
    int n = r.chance(0.1) ? (int)r.i(100, 800) : (int)r.i(1, 25);
    std::vector<Item> items;
    std::string text;
    std::string eol = r.chance(0.15) ? "\r\n" : "\n";
    auto noise = [&] {
        while (r.chance(0.3)) switch (r.i(0, 3)) {
            case 0: text += ws(r) + eol; vh::count("blank lines"); break;
            case 1: text += eol; vh::count("blank lines"); break;
            default: text += ws(r, 0.3) + comment + ws(r) + (items.empty() || r.chance(0.3) ? word(r, 0, 20, "") : items[r.i(0, items.size() - 1)].key) + ws(r) + divider + ws(r) + word(r, 0, 10, "") + eol; vh::count("comment lines"); break;
        }
    };
    for (int i = 0; i < n; ++i) {
        noise();
        Item it = item(r, (Kind)r.i(0, KINDS - 1));
        it.key = word(r, 1, 14, bad) + "_" + std::to_string(i);
        bool dup = false; for (auto& q : items) dup = dup || q.key == it.key; if (dup) continue;
        std::string val = it.text;
        if (it.kind == STRING) {
            val = word(r, 1, r.chance(0.1) ? 200 : 20, "", true);
            // white space inside a value is ignored; the divider and comment characters may be part of it
            if (r.chance(0.3)) { val += ws(r, 0.7) + word(r, 1, 8, "") ; }
            if (r.chance(0.2)) { val += divider; val += word(r, 1, 5, ""); vh::count("values containing the divider"); }
            if (r.chance(0.2)) { val += comment; val += word(r, 1, 5, ""); vh::count("values containing the comment character"); }
            if (r.chance(0.05)) val = "";
            it.text = squeeze(val);
        } else if (it.kind == CHAR) { it.text = word(r, 1, 1, ""); val = it.text; }
        text += ws(r, 0.3) + it.key + (r.chance(0.5) ? ws(r) : "") ;
        text += divider;
        text += ws(r) + val + ws(r);
        if (i + 1 < n || r.chance(0.5)) text += eol;
        items.push_back(it);
    }
    if (text.empty() || text.back() == '\n') noise();
    (void)spacediv;
    std::string path = vh::S().scratch + "/config-" + std::to_string(idx) + ".txt";
    { std::ofstream f(path, std::ios::binary); f << text; }
    auto reader = r.chance(0.5) ? tools::ConfigReader(path, divider, comment) : tools::ConfigReader(path.c_str(), divider, comment);
    if (divider == '=' && comment == '#' && r.chance(0.5)) reader = r.chance(0.5) ? tools::ConfigReader(path) : tools::ConfigReader(path.c_str());
    for (int pass = 0; pass < 2; ++pass)
        for (auto const& it : items) {
            std::string k = std::string("config value of type ") + kname[it.kind];
            auto ctx = [&](auto const& got) { return vh::cat("key '", it.key, "' got '", got, "' want '", it.text, "' divider '", divider, "' comment '", comment, "'"); };
            switch (it.kind) {
                case INT: { int g = reader.get<int>(it.key); vh::expect(g == it.l, k, ctx(g)); } break;
                case LONG: { long g = reader.get<long>(it.key); vh::expect(g == it.l, k, ctx(g)); } break;
                case ULL: { auto g = reader.get<unsigned long long>(it.key); vh::expect(g == it.u, k, ctx(g)); } break;
                case SIZE: { auto g = reader.get<size_t>(it.key); vh::expect(g == it.u, k, ctx(g)); } break;
                case DOUBLE: { double g = reader.get<double>(it.key); vh::expect(g == it.d, k, ctx(g)); } break;
                case FLOAT: { float g = reader.get<float>(it.key); vh::expect(g == it.f, k, ctx(g)); } break;
                case LDOUBLE: { long double g = reader.get<long double>(it.key); vh::expect(g == it.ld, k, ctx(g)); } break;
                case BOOL: { bool g = reader.get<bool>(it.key); vh::expect(g == (it.l != 0), k, ctx(g)); } break;
                case CHAR: { char g = reader.get<char>(it.key); vh::expect(g == it.text[0], k, ctx(g)); } break;
                default: { auto g = reader.get<std::string>(it.key); vh::expect(g == it.text, k, ctx(g)); } break;
            }
            if (it.kind != STRING) { auto g = reader.get<std::string>(it.key); vh::expect(g == it.text, "config value read as text", ctx(g)); }
            vh::count(std::string("keys read ") + kname[it.kind]);
            vh::eval(vh::hash_str(it.key + it.text));
        }
    if (idx % 200 == 0) {
        vh::expect(refuses([&] { reader.get<double>("no such key"); }), "missing key accepted");
        vh::expect(refuses([&] { tools::ConfigReader x(vh::S().scratch + "/does-not-exist"); }), "missing file accepted");
        for (auto const& it : items) if (it.kind == STRING) { vh::expect(refuses([&] { reader.get<std::string>(it.key + "x"); }), "unknown key accepted"); break; }
        vh::count("refusals", 3);
    }
    vh::count(std::string("files with ") + (spacediv ? "white space divider" : "character divider"));
    if (idx < 3) vh::sample(text.substr(0, 200));
    unlink(path.c_str());
}

template <class T> struct cv { static T of(Item const&); };
struct Args { std::vector<std::string> s; std::vector<char*> v; Args() { s.push_back("prog"); } int argc() { v.clear(); for (auto& x : s) v.push_back(x.data()); v.push_back(nullptr); return (int)s.size(); } };
static std::string text_arg(Rng& r) { std::string w = r.chance(0.1) ? "" : word(r, 1, 12, "", true); if (r.chance(0.3)) w += " " + word(r, 0, 6, ""); if (r.chance(0.1)) w = "-" + w; return w; }

static void cmd_case(Rng& r) {
    auto bad = [&](bool ok, char const* what, std::string const& d) { vh::expect(ok, std::string("command line ") + what, d); vh::count("arguments read"); };
    auto I = [&](Kind k) { return item(r, k); };
    Args a;
    auto desc = [&] { std::string o; for (auto& s : a.s) o += "[" + s + "]"; return o; };
    switch (r.i(0, 5)) {
        case 0: {  // numbers
            auto i = I(INT), l = I(LONG), u = I(ULL), d = I(DOUBLE), f = I(FLOAT), ld = I(LDOUBLE), b = I(BOOL);
            for (auto* q : {&i, &l, &u, &d, &f, &ld, &b}) a.s.push_back(q->text);
            int gi = 7; long gl = 7; unsigned long long gu = 7; double gd = 7; float gf = 7; long double gld = 7; bool gb = true;
            int c = a.argc();
            tools::read_command_line(c, a.v.data(), gi, gl, gu, gd, gf, gld, gb);
            bad(gi == i.l, "int", desc()); bad(gl == l.l, "long", desc()); bad(gu == u.u, "unsigned long long", desc()); bad(gd == d.d, "double", desc()); bad(gf == f.f, "float", desc()); bad(gld == ld.ld, "long double", desc()); bad(gb == (b.l != 0), "bool", desc());
        } break;
        case 1: {  // texts between numbers
            auto i = I(INT), d = I(DOUBLE); std::string t1 = text_arg(r), t2 = text_arg(r), g1 = "old", g2 = "old"; int gi = 7; double gd = 7;
            a.s.insert(a.s.end(), {t1, i.text, t2, d.text}); int c = a.argc();
            tools::read_command_line(c, a.v.data(), g1, gi, g2, gd);
            bad(g1 == t1, "string", desc()); bad(gi == i.l, "int after string", desc()); bad(g2 == t2, "string", desc()); bad(gd == d.d, "double after string", desc());
            if (t1.find(' ') != std::string::npos || t1.empty()) vh::count("arguments with spaces or empty");
        } break;
        case 2: {  // arguments converted on use
            auto i = I(INT), d = I(DOUBLE), ld = I(LDOUBLE), b = I(BOOL), l = I(LONG), u = I(ULL), f = I(FLOAT); std::string t = text_arg(r);
            for (auto* q : {&i, &d, &ld, &b, &l, &u, &f}) a.s.push_back(q->text);
            a.s.push_back(t); int c = a.argc();
            READ_CMD_LINE(c, a.v.data(), oi, od, old_, ob, ol, ou, of, ot);
            bad((int)oi == i.l && oi.as<int>() == i.l, "converted int", desc()); double xd = od; bad(xd == d.d && od.as<double>() == d.d, "converted double", desc());
            long double xl = old_; bad(xl == ld.ld && old_.as<long double>() == ld.ld, "converted long double", desc()); bool xb = ob; bad(xb == (b.l != 0) && ob.as<bool>() == xb, "converted bool", desc());
            long xlo = ol; bad(xlo == l.l && ol.as<long>() == l.l, "converted long", desc()); long long xll = ol; bad(xll == l.l && ol.as<long long>() == l.l, "converted long long", desc());
            unsigned long xu = ou; bad(xu == u.u && ou.as<unsigned long>() == u.u, "converted unsigned long", desc()); unsigned long long xull = ou; bad(xull == u.u && ou.as<unsigned long long>() == u.u, "converted unsigned long long", desc());
            float xf = of; bad(xf == f.f && of.as<float>() == f.f, "converted float", desc());
            std::string xs = ot; char const* xc = ot; bad(xs == t && t == xc && ot.as<std::string>() == t, "converted string", desc()); std::ostringstream os; os << ot; bad(os.str() == t, "printed argument", desc());
        } break;
        case 3: {  // none, one
            int c = a.argc(); tools::read_command_line(c, a.v.data());
            auto d = I(DOUBLE); a.s.push_back(d.text); double gd = 7; c = a.argc(); tools::read_command_line(c, a.v.data(), gd); bad(gd == d.d, "single double", desc());
        } break;
        case 4: {  // characters and vectors of numbers
            std::string ch = word(r, 1, 1, ""); auto i = I(INT), s = I(SIZE); a.s.insert(a.s.end(), {ch, i.text, s.text}); char gc = '?'; int gi = 0; size_t gs = 0; int c = a.argc();
            tools::read_command_line(c, a.v.data(), gc, gi, gs); bad(gc == ch[0], "char", desc()); bad(gi == i.l, "int", desc()); bad(gs == s.u, "size_t", desc());
        } break;
        default: {  // wrong number of arguments
            if (!r.chance(0.02)) { auto d = I(DOUBLE), e = I(DOUBLE); a.s.insert(a.s.end(), {d.text, e.text}); double x = 0, y = 0; int c = a.argc(); tools::read_command_line(c, a.v.data(), x, y); bad(x == d.d && y == e.d, "two doubles", desc()); break; }
            int k = (int)r.i(0, 4); if (k == 2) k = 3;
            for (int i = 0; i < k; ++i) a.s.push_back("1");
            int c = a.argc(); int x = 0, y = 0;
            vh::expect(refuses([&] { tools::read_command_line(c, a.v.data(), x, y); }), "wrong number of arguments accepted", k); vh::count("refusals");
        } break;
    }
    vh::eval(vh::hash_str(desc()));
}
void vh_main() {
    vh::cases("files", vh::scale(3000, 40000), file_case);
    vh::cases("command lines", vh::scale(20000, 300000), [](Rng& r, long) { cmd_case(r); });
}
