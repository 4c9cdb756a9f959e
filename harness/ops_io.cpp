// Text and files.
#include "ops_arith.hpp"
#include "lists.hpp"
#include "malg/io.hpp"

#include <fstream>
#include <sstream>

using namespace hx;

namespace
{
const char *const kFile = "objects.txt";
struct Streams {
    std::ofstream w;
    std::ifstream r;
    void close()
    {
        w.close();
        r.close();
    }
};
std::unique_ptr<Streams> g_s;
Streams &streams()
{
    if (!g_s)
        g_s.reset(new Streams);
    return *g_s;
}
struct AtReset {
    AtReset()
    {
        resets().push_back([] {
            g_s.reset();
            std::remove(kFile);
        });
    }
} atReset;

template <class X>
void printed(const X &x, const J &a, Out &out)
{
    std::ostringstream ss;
    ss.precision(a["p"].num());
    const auto flags = ss.flags();
    const char fill  = ss.fill();
    using malg::operator<<; // argument-dependent lookup does not find that of the systems
    std::ostream &os = ss;
    if (&(os << x) != &os)
        fail("operator<< does not return the stream");
    if (os.width() != 0 || os.flags() != flags || os.precision() != a["p"].num() || os.fill() != fill || !os.good())
        fail("printing changes the number format of the stream");
    out.str(ss.str());
}
template <class T>
std::string token(const T &x, std::streamsize p)
{
    std::ostringstream ss;
    ss.precision(p);
    ss << x;
    return ss.str();
}
} // namespace

namespace
{
// Calculations may leave negative zeros, which the specification does not
// know and which look different.
void positiveZeros(World &w)
{
    auto fix = [](auto *x, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i)
            if (x[i] == std::decay_t<decltype(*x)>(0))
                x[i] = 0;
            else if constexpr (malg::is_complex_v<std::decay_t<decltype(*x)>>)
                x[i] = { x[i].real() == 0 ? 0 : x[i].real(), x[i].imag() == 0 ? 0 : x[i].imag() };
    };
    for (auto &b : w.slot) {
        if (b && b->k == 'M')
            onMat(TL5{}, *b, [&](auto &m) { fix(m.data(), m.size()); });
        else if (b && b->k == 'V')
            onVec(TL5{}, *b, [&](auto &v) { fix(v.data(), v.size()); });
    }
}
} // namespace

OP("text")
{
    positiveZeros(w);
    const std::string f = a["f"].str(), name = a["name"].str(), type = a["type"].str();
    Box &b = w.box(a["a"]);
    auto go = [&](const auto &A, auto dump) {
        if (f == "out")
            printed(A, a, out);
        else if (f == "dump")
            out.str(dump(A));
        else if (f == "matlab")
            out.str(malg::to_matlab(name.c_str(), A));
        else
            out.str(malg::to_cpp(name.c_str(), type.c_str(), A));
    };
    if (b.k == 'V')
        onVec(TL5{}, b, [&](const auto &A) { go(A, [&](const auto &x) { return malg::dump_vector(name.c_str(), x); }); });
    else
        onAny(TL5{}, b, [&](const auto &A) { go(A, [&](const auto &x) { return malg::dump_matrix(name.c_str(), x); }); });
}
PO;

OP("textsys")
{
    withT(TL<float, double>{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (a["disc"].truth()) {
            const malg::control::DiscreteStateSpace<T> s{ mkM<T>(a["A"]), mkM<T>(a["B"]), mkM<T>(a["C"]), mkM<T>(a["D"]), toT<T>(a["st"]) };
            printed(s, a, out);
        } else {
            const malg::control::StateSpace<T> s{ mkM<T>(a["A"]), mkM<T>(a["B"]), mkM<T>(a["C"]), mkM<T>(a["D"]) };
            printed(s, a, out);
        }
    });
}
PO;

OP("textrange")
{
    std::ostringstream ss;
    ss << malg::Range{ a["x"].idx(), a["y"].idx() };
    out.str(ss.str());
}
PO;

OP("fopen")
{
    const char m = a["m"].ch();
    streams().close();
    g_s.reset();
    if (m == 'r')
        streams().r.open(kFile);
    else
        streams().w.open(kFile, m == 'a' ? std::ios::app : std::ios::out);
    if (m == 'r' ? !streams().r.is_open() : !streams().w.is_open())
        throw std::string("harness: cannot open the file");
}
PO;

OP("fwrite")
{
    std::ofstream &os = streams().w;
    Box &b            = w.box(a["a"]);
    os.precision(a["p"].num());
    const auto flags = os.flags();
    auto go = [&](const auto &A) {
        if (&(os << A) != &os)
            fail("operator<< does not return the stream");
        if (os.width() != 0 || os.flags() != flags || os.precision() != a["p"].num() || !os.good())
            fail("writing changes the number format of the stream");
    };
    if (b.k == 'V')
        onVec(TL5{}, b, [&](const auto &A) { go(A); });
    else
        onAny(TL5{}, b, [&](const auto &A) { go(A); });
}
PO;

OP("fother")
{
    const J &o   = a["o"];
    const long st = a["style"].num();
    std::ofstream &os = streams().w;
    withT(TL5{}, o["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        std::vector<std::string> tk;
        tk.push_back(o["k"].str());
        if (o["k"].ch() == 'M')
            tk.push_back(std::to_string(o["r"].num()));
        tk.push_back(std::to_string(o["c"].num()));
        for (const T &x : elems<T>(o))
            tk.push_back(token(x, std::is_same<T, float>::value || std::is_same<T, C>::value ? 9 : 17));
        const char *sep = st == 1 ? "\n" : st == 2 ? "    " : "\t \n\n";
        if (st == 3)
            os << "\n  \n";
        for (auto &t : tk)
            os << t << sep;
    });
}
PO;

OP("fcut")
{
    streams().close();
    g_s.reset();
    std::string all;
    {
        std::ifstream in(kFile);
        std::ostringstream ss;
        ss << in.rdbuf();
        all = ss.str();
    }
    std::size_t p = 0;
    auto blank    = [&](std::size_t q) { return std::strchr(" \t\n", all[q]) != nullptr; };
    for (long n = a["tokens"].num(); n > 0; --n) {
        while (p < all.size() && blank(p))
            ++p;
        if (p == all.size())
            fail("the file holds fewer tokens than were written to it");
        while (p < all.size() && !blank(p))
            ++p;
    }
    if (a["mid"].truth()) {
        while (p < all.size() && blank(p))
            ++p;
        if (p + 2 > all.size() || all[p] != '(')
            fail("the file holds no complex number where one was written");
        p += 2;
    }
    std::ofstream o(kFile);
    o << all.substr(0, p);
}
PO;

OP("fread")
{
    std::ifstream &is = streams().r;
    Box &b            = w.box(a["d"]);
    auto go = [&](auto &A) {
        if (&(is >> A) != &is)
            fail("operator>> does not return the stream");
    };
    if (b.k == 'V')
        onVec(TL5{}, b, go);
    else
        onMat(TL5{}, b, go);
    if (a["dead"].truth())
        out.boolean(!is.fail());
}
PO;

OP("freadcut")
{
    std::ifstream &is = streams().r;
    const J &o        = a["old"];
    const std::size_t have = a["have"].idx();
    const bool head   = a["head"].truth();
    withT(TL5{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        std::vector<Obj> l;
        auto rest = [&](std::size_t r, std::size_t c, auto &x) {
            l = { Out::capB(!is.fail()) };
            if (!head)
                return;
            l.push_back(Out::capI(static_cast<long>(r)));
            l.push_back(Out::capI(static_cast<long>(c)));
            if (x.size() < have)
                fail("the object that was read is smaller than what the file holds");
            malg::Vector<T> v(have);
            for (std::size_t i = 0; i < x.size(); ++i)
                if (i < have)
                    v[i] = x[i];
                else if (x[i] != T(0) && x[i] != T(1))
                    fail("an element that is not in the file");
            l.push_back(Out::capV(v));
        };
        if (a["kind"].ch() == 'M') {
            malg::Matrix<T> x = mkM<T>(o);
            is >> x;
            rest(x.rows(), x.cols(), x);
        } else {
            malg::Vector<T> x = mkV<T>(o);
            is >> x;
            rest(1, x.size(), x);
        }
        out.ret(Out::capL(l));
    });
}
PO;
