#include "core.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HX_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HX_ASAN 1
#endif
#ifndef HX_ASAN
#define HX_ASAN 0
#endif

#include <chrono>
#include <cmath>
#include <csignal>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <unistd.h>

#if HX_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace hx
{

std::map<std::string, Handler> &registry()
{
    static std::map<std::string, Handler> r;
    return r;
}
std::vector<std::function<void()>> &resets()
{
    static std::vector<std::function<void()>> r;
    return r;
}

// ---------------------------------------------------------------- JSON -----
static void ws(const char *&p)
{
    while (*p == ' ' || *p == '\t')
        ++p;
}
static std::string pstr(const char *&p)
{
    std::string s;
    ++p;
    while (*p && *p != '"') {
        if (*p == '\\') {
            ++p;
            switch (*p) {
            case 'n': s += '\n'; break;
            case 't': s += '\t'; break;
            case 'r': s += '\r'; break;
            case 'u': p += 4; s += '?'; break;
            default: s += *p;
            }
            ++p;
        } else {
            s += *p++;
        }
    }
    if (*p == '"')
        ++p;
    return s;
}
J parse(const char *&p)
{
    J j;
    ws(p);
    if (*p == '{') {
        j.k = 'o', ++p, ws(p);
        while (*p && *p != '}') {
            ws(p);
            std::string key = pstr(p);
            ws(p);
            if (*p == ':')
                ++p;
            j.o.emplace_back(std::move(key), parse(p));
            ws(p);
            if (*p == ',')
                ++p;
        }
        ++p;
    } else if (*p == '[') {
        j.k = 'a', ++p, ws(p);
        while (*p && *p != ']') {
            j.a.push_back(parse(p));
            ws(p);
            if (*p == ',')
                ++p;
        }
        ++p;
    } else if (*p == '"') {
        j.k = 's', j.s = pstr(p);
    } else if (!strncmp(p, "true", 4)) {
        j.k = 'b', j.i = 1, p += 4;
    } else if (!strncmp(p, "false", 5)) {
        j.k = 'b', j.i = 0, p += 5;
    } else if (!strncmp(p, "null", 4)) {
        p += 4;
    } else {
        char *e;
        j.k = 'i', j.i = strtol(p, &e, 10);
        if (e == p)
            throw std::string("harness: bad JSON near ") + std::string(p).substr(0, 20);
        p = e;
    }
    return j;
}

// ----------------------------------------------------------------- values --
void fail(const std::string &what) { throw Mismatch{ what }; }

template <class R>
static long double pal(long k)
{
    using L             = std::numeric_limits<R>;
    const R third       = R(1) / R(3);
    const R table[]     = { R(0), L::max(), L::min(), -L::max(), third, -third, R(1e-7), R(123456789.125), L::epsilon(), R(1) + L::epsilon(), R(1e10) * third, R(-1e-10) * third, R(6.02214076e23), R(-0.1) };
    const std::size_t n = sizeof(table) / sizeof(table[0]);
    return table[static_cast<std::size_t>(k) % n];
}
long double palette(long k, char t) { return (t == 'f' || t == 'c') ? pal<float>(k) : pal<double>(k); }

// Symbolic reals: [ "sqrt", q ], [ "exp", q ], [ "sum", [ [q, x], ... ] ] (sum of q * x),
// [ "pow", q, q ], [ "mul", x, y ], [ "cos"/"sin", q ], [ "q", a, b, d ]
static Val evalV(const J &q)
{
    if (q.k != 'a' || q.a.empty())
        throw std::string("harness: not a value");
    if (q.a[0].k == 's') {
        const std::string &f = q.a[0].s;
        if (f == "sqrt")
            return { std::sqrt(evalV(q.at(1)).re), 0 };
        if (f == "exp") {
            Val v = evalV(q.at(1));
            return { std::exp(v.re) * std::cos(v.im), std::exp(v.re) * std::sin(v.im) };
        }
        if (f == "trunc")
            return { std::trunc(evalV(q.at(1)).re), 0 };
        if (f == "cos")
            return { std::cos(evalV(q.at(1)).re), 0 };
        if (f == "sin")
            return { std::sin(evalV(q.at(1)).re), 0 };
        if (f == "pow")
            return { std::pow(evalV(q.at(1)).re, evalV(q.at(2)).re), 0 };
        if (f == "abs") {
            Val v = evalV(q.at(1));
            return { std::hypot(v.re, v.im), 0 };
        }
        if (f == "mul" || f == "div") {
            Val x = evalV(q.at(1)), y = evalV(q.at(2));
            if (f == "mul")
                return { x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re };
            long double n = y.re * y.re + y.im * y.im;
            return { (x.re * y.re + x.im * y.im) / n, (x.im * y.re - x.re * y.im) / n };
        }
        if (f == "max") {
            Val s = evalV(q.at(1));
            for (std::size_t i = 2; i < q.a.size(); ++i)
                s.re = std::max(s.re, evalV(q.a[i]).re);
            return s;
        }
        if (f == "sum") {
            Val s;
            for (std::size_t i = 1; i < q.a.size(); ++i) {
                Val v = evalV(q.a[i]);
                s.re += v.re, s.im += v.im;
            }
            return s;
        }
        throw std::string("harness: symbolic function ") + f;
    }
    const long d = q.at(2).i;
    return { static_cast<long double>(q.at(0).i) / d, static_cast<long double>(q.at(1).i) / d };
}
Val evalQ(const J &q, char t)
{
    if (q.k == 'i')
        return { static_cast<long double>(q.i), 0 };
    if (q.a.size() == 3 && q.a[2].k == 'i' && q.a[2].i == 0 && q.a[0].k == 'i')
        return { palette(q.a[0].i, t), palette(q.a[1].i, t) };
    return evalV(q);
}
std::string show(const Val &v)
{
    char b[96];
    if (v.im != 0)
        std::snprintf(b, sizeof b, "%.17Lg%+.17Lgi", v.re, v.im);
    else
        std::snprintf(b, sizeof b, "%.17Lg", v.re);
    return b;
}
static bool close(long double g, long double w, long double scale, long double eps)
{
    if (std::isnan(w))
        return std::isnan(g);
    if (std::isinf(w) || std::isinf(g))
        return g == w;
    return std::fabs(g - w) <= eps * std::max(1.0L, scale);
}
bool agree(const Val &got, const J &want, char t, long prec, std::string *)
{
    const bool opaque = want.k == 'a' && want.a.size() == 3 && want.a[2].k == 'i' && want.a[2].i == 0 && want.a[0].k == 'i';
    Val w             = evalQ(want, t);
    if (t == 'i' || t == 'u' || t == 'b')
        return got.re == w.re && got.im == 0 && w.im == 0;
    if (opaque)
        return got.re == w.re && got.im == w.im;
    long double eps = prec ? std::pow(10.0L, -static_cast<long double>(prec)) : 1e-10L;
    if (t == 'f' || t == 'c')
        eps = std::max(eps * 1e5L, 2e-5L);
    const long double m = std::max(std::fabs(w.re), std::fabs(w.im));
    return close(got.re, w.re, m, eps) && close(got.im, w.im, m, eps);
}
void bad(const std::string &who, const std::string &how, std::size_t i, const Val &got, const J &want)
{
    fail(who + ": element " + std::to_string(i) + " read by " + how + " is " + show(got) + ", expected " + show(evalQ(want, 'd')));
}

void Box::rescale(int)
{
    throw std::string("harness: a view in other units");
}
void toUnits(Obj &o, const J &deg, int unit)
{
    if (o.k == 'L') {
        for (std::size_t i = 0; i < o.l.size(); ++i)
            toUnits(o.l[i], deg.at(i), unit);
        return;
    }
    const int e = -static_cast<int>(deg.num()) * unit;
    for (Val &x : o.e)
        x.re = std::ldexp(x.re, e), x.im = std::ldexp(x.im, e);
}
void compareRes(const Obj &got, const J &want, long prec, const std::string &at)
{
    const std::string &k = want["k"].str();
    if (k == "any")
        return;
    if (k == "none") {
        if (got.k != 'N')
            fail(at + ": unexpected result");
        return;
    }
    if (std::string(1, got.k) != k)
        fail(at + ": result kind " + got.k + ", expected " + k);
    if (k == "M" || k == "V" || k == "S") {
        if (got.t != want["t"].ch())
            fail(at + ": result element type " + got.t + ", expected " + want["t"].str());
    }
    if (k == "M" || k == "V") {
        if (got.r != want["r"].idx() || got.c != want["c"].idx())
            fail(at + ": result shape " + std::to_string(got.r) + "x" + std::to_string(got.c) + ", expected " + std::to_string(want["r"].idx()) + "x" + std::to_string(want["c"].idx()));
        const J &e = want["e"];
        // The tolerance is relative to the largest element of the result.
        for (std::size_t i = 0; i < got.e.size(); ++i)
            if (!agree(got.e[i], e.at(i), got.t, prec))
                fail(at + ": result element " + std::to_string(i) + " is " + show(got.e[i]) + ", expected " + show(evalQ(e.at(i), got.t)));
    } else if (k == "S") {
        if (!agree(got.e[0], want["v"], got.t, prec))
            fail(at + ": result is " + show(got.e[0]) + ", expected " + show(evalQ(want["v"], got.t)));
    } else if (k == "B" || k == "I") {
        if (got.e[0].re != static_cast<long double>(want["v"].num()))
            fail(at + ": result is " + show(got.e[0]) + ", expected " + std::to_string(want["v"].num()));
    } else if (k == "T") {
        if (got.s != want["v"].str())
            fail(at + ": text is <<" + got.s + ">>, expected <<" + want["v"].str() + ">>");
    } else if (k == "L") {
        if (got.l.size() != want["v"].size())
            fail(at + ": list of " + std::to_string(got.l.size()) + " results, expected " + std::to_string(want["v"].size()));
        for (std::size_t i = 0; i < got.l.size(); ++i)
            compareRes(got.l[i], want["v"].at(i), prec, at + " [" + std::to_string(i) + "]");
    } else {
        throw std::string("harness: result kind ") + k;
    }
}

BoxP makeObj(const J &o)
{
    BoxP b;
    withT(TLALL{}, o["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (o["k"].ch() == 'M')
            b.reset(new MBox<T>(mkM<T>(o)));
        else
            b.reset(new VBox<T>(tg, mkV<T>(o)));
    });
    return b;
}

} // namespace hx

using namespace hx;

static long g_rec       = 0;
static char g_line[512] = "";
static void death()
{
    char b[700];
    int n = std::snprintf(b, sizeof b, "\nDEATH rec=%ld %s\n", g_rec, g_line);
    if (n > 0)
        (void)!write(1, b, static_cast<std::size_t>(n));
}
static void onsig(int s)
{
    char b[64];
    int n = std::snprintf(b, sizeof b, "\nSIGNAL %d (%s)\n", s, s == SIGALRM ? "the call does not return" : s == SIGABRT ? "abort" : "signal");
    (void)!write(1, b, static_cast<std::size_t>(n));
    death();
    _exit(4);
}
static bool g_running = false;
namespace hx
{
void quietExit() { g_running = false; }
} // namespace hx
static void exiting()
{
    if (g_running) {
        std::printf("\nMISMATCH rec=%ld the call ends the program\n", g_rec);
        std::fflush(stdout);
        _exit(1);
    }
}
static std::size_t allocated()
{
#if HX_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static long g_steps = 0, g_compared = 0, g_thrown = 0, g_behaviours = 0;

// Runs one behaviour from its first step; everything it creates is destroyed.
static void behaviour(const std::vector<std::string> &lines, long firstRec, bool count)
{
    World w;
    std::map<std::string, J> mirror;
    std::ostringstream sink;
    for (auto &r : resets())
        r();
    for (std::size_t n = 0; n < lines.size(); ++n) {
        g_rec = firstRec + static_cast<long>(n);
        std::strncpy(g_line, lines[n].c_str(), sizeof(g_line) - 1);
        const char *p         = lines[n].c_str();
        const J rec           = parse(p);
        const J &a            = rec["a"];
        const std::string &op = rec["op"].str();
        auto h                = registry().find(op);
        if (h == registry().end())
            throw std::string("harness: no handler for ") + op;
        for (auto &m : rec["mk"].o) {
            w.slot[static_cast<std::size_t>(m.first[0])] = makeObj(m.second);
            mirror[m.first]                              = m.second;
        }
        const std::string at = "step " + std::to_string(rec["step"].num()) + " (" + op + ")";
        {
            Out out;
            bool threw = false;
            std::string what;
            if (a.has("scale"))
                for (auto &x : a["scale"].o)
                    w.box(x.first[0]).rescale(static_cast<int>(x.second.num()));
            alarm(60);
            std::streambuf *old  = std::cerr.rdbuf(sink.rdbuf());
            std::streambuf *oldo = std::cout.rdbuf(sink.rdbuf());
            try {
                h->second(w, a, out);
            } catch (const std::exception &e) {
                threw = true;
                what  = e.what();
            } catch (...) {
                std::cerr.rdbuf(old), std::cout.rdbuf(oldo);
                throw;
            }
            std::cerr.rdbuf(old), std::cout.rdbuf(oldo);
            alarm(0);
            if (threw && count)
                ++g_thrown;
            if (threw && rec["ok"].truth())
                fail(at + ": throws (" + what + "), but it is valid");
            if (!threw && !rec["ok"].truth())
                fail(at + ": must be rejected, but it returns");
            if (!threw)
                if (const int unit = unitOf(a))
                    toUnits(out.res, a["deg"], unit);
            if (a.has("scale")) {
                for (auto &x : a["scale"].o)
                    w.box(x.first[0]).rescale(-static_cast<int>(x.second.num()));
                if (!threw)
                    toUnits(out.res, a["rexp"], 1);
            }
            compareRes(out.res, rec["res"], a.has("prec") ? a["prec"].num() : 0, at);
        }
        sink.str("");
        for (auto &m : rec["upd"].o) {
            if (m.second["k"].ch() == 'N')
                mirror.erase(m.first);
            else
                mirror[m.first] = m.second;
        }
        for (auto &m : mirror) {
            Box &b = w.box(m.first[0]);
            if (b.k != m.second["k"].ch() || b.t != m.second["t"].ch())
                throw std::string("harness: slot ") + m.first + " holds another kind of object";
            b.check(m.second, at + " object " + m.first);
            if (count)
                ++g_compared;
        }
        if (count)
            ++g_steps;
    }
    // Views go before their bases.
    for (char c : std::string("PQR"))
        w.slot[static_cast<std::size_t>(c)].reset();
    for (auto &b : w.slot)
        b.reset();
    for (auto &r : resets())
        r();
}

static void checkedBehaviour(const std::vector<std::string> &lines, long firstRec)
{
    ++g_behaviours;
    std::size_t before = allocated();
    behaviour(lines, firstRec, true);
    if (allocated() <= before)
        return;
    // Something was allocated and not released. What is allocated only once
    // (library internals) does not come back when the behaviour is repeated.
    std::size_t grown = 0;
    for (int i = 0; i < 3; ++i) {
        before = allocated();
        behaviour(lines, firstRec, false);
        if (allocated() <= before)
            return;
        grown = allocated() - before;
    }
    fail("the history leaks " + std::to_string(grown) + " bytes");
}

int main(int argc, char **argv)
{
    if (argc < 2)
        return 3;
#if HX_ASAN
    __sanitizer_set_death_callback(death);
#endif
    std::atexit(exiting);
    std::signal(SIGALRM, onsig);
    std::signal(SIGABRT, onsig);
    std::FILE *f = std::fopen(argv[1], "r");
    if (!f)
        return 3;
    // Read as a whole: a child that exits would move the offset they share.
    std::vector<std::string> input;
    {
        std::vector<char> buf(1 << 22);
        while (std::fgets(buf.data(), static_cast<int>(buf.size()), f))
            input.emplace_back(buf.data());
        std::fclose(f);
    }
    std::vector<std::string> lines;
    long rec = 0, start = 1;
    g_running = true;
    try {
        while (true) {
            const bool more = rec < static_cast<long>(input.size());
            const std::string l = more ? input[static_cast<std::size_t>(rec)] : std::string();
            if (more)
                ++rec;
            if (!more || l[0] == '@') { // the driver marks the first step of every behaviour
                if (!lines.empty())
                    checkedBehaviour(lines, start);
                lines.clear();
                start = rec;
            }
            if (!more)
                break;
            lines.push_back(l.substr(l[0] == '@' ? 1 : 0));
        }
    } catch (const Mismatch &m) {
        g_running = false;
        std::printf("MISMATCH rec=%ld %s\n", g_rec, m.what.c_str());
        return 1;
    } catch (const std::string &s) {
        g_running = false;
        std::printf("HARNESS rec=%ld %s\n", g_rec, s.c_str());
        return 3;
    }
    g_running = false;
    std::printf("OK steps=%ld behaviours=%ld compared=%ld thrown=%ld\n", g_steps, g_behaviours, g_compared, g_thrown);
    return 0;
}
