// Replays records of the TLA+ state machine (one JSON object per line, see
// spec/Store.tla) against the library and compares every observable of every
// live object, after every step, with the state of the specification.
#pragma once

#include "malg/matrix.hpp"
#include "malg/vector.hpp"
#include "malg/view.hpp"
#include "malg/math.hpp"
#include "malg/utility.hpp"

#include <array>
#include <cstdio>
#include <cstring>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace hx
{

using Z = std::complex<double>;
using C = std::complex<float>;

// ---------------------------------------------------------------- JSON -----
struct J {
    char k = 'n'; // n null, i integer, b bool, s string, a array, o object
    long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    const J *find(const char *key) const
    {
        for (auto &p : o)
            if (p.first == key)
                return &p.second;
        return nullptr;
    }
    bool has(const char *key) const { return find(key) != nullptr; }
    const J &operator[](const char *key) const
    {
        const J *p = find(key);
        if (!p)
            throw std::string("harness: no field ") + key;
        return *p;
    }
    const J &at(std::size_t n) const { return a.at(n); }
    std::size_t size() const { return a.size(); }
    long num() const { return i; }
    std::size_t idx() const { return static_cast<std::size_t>(i); }
    bool truth() const { return i != 0; }
    const std::string &str() const { return s; }
    char ch() const { return s.empty() ? '?' : s[0]; }
};
J parse(const char *&p);

// ------------------------------------------------------------ type codes ---
template <class T>
struct Code;
template <> struct Code<int> { static constexpr char v = 'i'; };
template <> struct Code<float> { static constexpr char v = 'f'; };
template <> struct Code<double> { static constexpr char v = 'd'; };
template <> struct Code<C> { static constexpr char v = 'c'; };
template <> struct Code<Z> { static constexpr char v = 'z'; };
template <> struct Code<bool> { static constexpr char v = 'b'; };
template <> struct Code<std::size_t> { static constexpr char v = 'u'; };
template <class T>
constexpr char code() { return Code<std::remove_const_t<T>>::v; }

template <class T>
struct tag {
    using type = T;
};
template <class... Ts>
struct TL {
};
using TL3 = TL<int, double, Z>;
using TLR = TL<int, float, double>;
using TL5 = TL<int, double, Z, float, C>;
using TLF = TL<double, Z, float, C>;
using TLDZ = TL<double, Z>;
using TLALL = TL<int, double, Z, float, C, bool, std::size_t>;

template <class F, class... Ts>
void withT(TL<Ts...>, char t, F &&f)
{
    bool ok = ((Code<Ts>::v == t ? (f(tag<Ts>{}), true) : false) || ...);
    if (!ok)
        throw std::string("harness: element type not supported here: ") + t;
}

// ----------------------------------------------------------------- values --
struct Val {
    long double re = 0, im = 0;
};
struct Sym; // symbolic real values (exp, sqrt, pow ...)
Val evalQ(const J &q, char t); // a spec value as the nearest value of type t
long double evalSym(const J &q);
long double palette(long k, char t);

template <class T>
T toT(const J &q)
{
    const char t = code<T>();
    Val v        = evalQ(q, t);
    if constexpr (malg::is_complex_v<T>) {
        using R = typename T::value_type;
        return T(static_cast<R>(v.re), static_cast<R>(v.im));
    } else {
        return static_cast<T>(v.re);
    }
}
template <class T>
Val fromT(const T &x)
{
    if constexpr (malg::is_complex_v<T>)
        return { x.real(), x.imag() };
    else
        return { static_cast<long double>(x), 0 };
}
// Does the observed value agree with the expected one? (prec: decimal digits, 0 = default)
bool agree(const Val &got, const J &want, char t, long prec, std::string *why = nullptr);
std::string show(const Val &v);

// ---------------------------------------------------------------- results --
struct Obj {
    char k = 'N', t = '?';
    std::size_t r = 0, c = 0;
    std::vector<Val> e;
    std::string s;
    std::vector<Obj> l;
};
struct Mismatch {
    std::string what;
};
[[noreturn]] void fail(const std::string &what);

struct Out {
    Obj res;
    bool set = false;
    template <class T>
    static Obj capM(const malg::Matrix<T> &m)
    {
        Obj o;
        o.k = 'M', o.t = code<T>(), o.r = m.rows(), o.c = m.cols();
        if (m.size() != o.r * o.c)
            fail("size of the result does not match its shape");
        for (std::size_t r = 0; r < o.r; ++r)
            for (std::size_t c = 0; c < o.c; ++c)
                o.e.push_back(fromT(m(r, c)));
        return o;
    }
    template <class T>
    static Obj capV(const malg::Vector<T> &v)
    {
        Obj o;
        o.k = 'V', o.t = code<T>(), o.r = 1, o.c = v.size();
        for (std::size_t i = 0; i < v.size(); ++i)
            o.e.push_back(fromT(v[i]));
        return o;
    }
    template <class T>
    static Obj capS(const T &x)
    {
        Obj o;
        o.k = 'S', o.t = code<T>(), o.e = { fromT(x) };
        return o;
    }
    static Obj capI(long x)
    {
        Obj o;
        o.k = 'I', o.e = { Val{ static_cast<long double>(x), 0 } };
        return o;
    }
    static Obj capB(bool x)
    {
        Obj o;
        o.k = 'B', o.e = { Val{ x ? 1.0L : 0.0L, 0 } };
        return o;
    }
    static Obj capT(std::string s)
    {
        Obj o;
        o.k = 'T', o.s = std::move(s);
        return o;
    }
    static Obj capL(std::vector<Obj> l)
    {
        Obj o;
        o.k = 'L', o.l = std::move(l);
        return o;
    }
    void ret(Obj o) { res = std::move(o), set = true; }
    template <class T> void mat(const malg::Matrix<T> &m) { ret(capM(m)); }
    template <class T> void vec(const malg::Vector<T> &m) { ret(capV(m)); }
    template <class T> void sca(const T &m) { ret(capS(m)); }
    void boolean(bool b) { ret(capB(b)); }
    void nat(long b) { ret(capI(b)); }
    void str(std::string b) { ret(capT(std::move(b))); }
};
void compareRes(const Obj &got, const J &want, long prec, const std::string &at);
void toUnits(Obj &o, const J &deg, int unit); // divides by 2^(deg*unit)

// ---------------------------------------------------------------- objects --
struct Box {
    char k, t;
    bool cst   = false;
    int concrete = 0; // 1: View<Matrix<T>>, 2: CofactorView<Matrix<T>>
    void *mb   = nullptr; // MatrixBase<T> * or MatrixBase<const T> *
    Box(char _k, char _t) : k(_k), t(_t) {}
    virtual ~Box() = default;
    virtual void check(const J &o, const std::string &who) = 0;
    virtual void rescale(int e);
};
using BoxP = std::unique_ptr<Box>;

template <class T>
struct MBox : Box {
    malg::Matrix<T> m;
    MBox(malg::Matrix<T> &&x) : Box('M', code<T>()), m(std::move(x)) { mb = static_cast<malg::MatrixBase<T> *>(&m); }
    MBox(tag<T>) : Box('M', code<T>()), m() { mb = static_cast<malg::MatrixBase<T> *>(&m); }
    template <class A>
    MBox(tag<T>, A &&a) : Box('M', code<T>()), m(std::forward<A>(a)) { mb = static_cast<malg::MatrixBase<T> *>(&m); }
    template <class X, class Y, class A>
    MBox(tag<T>, X x, Y y, A &&a) : Box('M', code<T>()), m(x, y, std::forward<A>(a)) { mb = static_cast<malg::MatrixBase<T> *>(&m); }
    void check(const J &o, const std::string &who) override;
    void rescale(int e) override;
};
template <class T>
struct VBox : Box {
    malg::Vector<T> v;
    VBox(tag<T>) : Box('V', code<T>()), v() {}
    template <class A>
    VBox(tag<T>, A &&a) : Box('V', code<T>()), v(std::forward<A>(a)) {}
    template <class A, class B>
    VBox(tag<T>, A a, B &&b) : Box('V', code<T>()), v(a, std::forward<B>(b)) {}
    void check(const J &o, const std::string &who) override;
    void rescale(int e) override;
};
// A view of any concrete class.
struct AnyView : Box {
    using Box::Box;
    virtual void assign(Box &rhs)        = 0;
    virtual void assignList(const J &o)  = 0;
};

void bad(const std::string &who, const std::string &how, std::size_t i, const Val &got, const J &want);
template <class T>
inline void same(const T &x, const J &e, std::size_t i, const std::string &who, const char *how)
{
    Val g = fromT(x);
    if (!agree(g, e, code<T>(), 0))
        bad(who, how, i, g, e);
}
template <class X>
void checkShape(const X &m, const J &o, const std::string &who)
{
    const std::size_t r = o["r"].idx(), c = o["c"].idx();
    if (m.rows() != r || m.cols() != c)
        fail(who + ": shape is " + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ", expected " + std::to_string(r) + "x" + std::to_string(c));
    if (m.size() != r * c)
        fail(who + ": size() is " + std::to_string(m.size()));
    if (m.empty() != (r * c == 0))
        fail(who + ": empty() is wrong");
}
template <class X>
void checkAccess(X &m, const J &o, const std::string &who)
{
    const std::size_t r = o["r"].idx(), c = o["c"].idx();
    const J &e          = o["e"];
    const X &k          = m;
    for (std::size_t i = 0; i < r; ++i) {
        for (std::size_t j = 0; j < c; ++j) {
            const std::size_t p = i * c + j;
            same(k(i, j), e.a[p], p, who, "(r,c) const");
            same(m(i, j), e.a[p], p, who, "(r,c)");
            same(k.at(i, j), e.a[p], p, who, "at const");
            same(m.at(i, j), e.a[p], p, who, "at");
            same(k[p], e.a[p], p, who, "[] const");
            same(m[p], e.a[p], p, who, "[]");
            if (&k(i, j) != &m[p] || &m(i, j) != &k[p] || &m.at(i, j) != &m[p] || &k.at(i, j) != &m[p])
                fail(who + ": access paths reach different objects");
        }
    }
}
template <class T>
void MBox<T>::check(const J &o, const std::string &who)
{
    checkShape(m, o, who);
    checkAccess(m, o, who);
    malg::MatrixBase<T> &b       = m;
    const malg::MatrixBase<T> &k = m;
    checkShape(b, o, who + " (as MatrixBase)");
    checkAccess(b, o, who + " (as MatrixBase)");
    const J &e                = o["e"];
    const std::size_t n       = e.size();
    const malg::Matrix<T> &cm = m;
    if (m.end() - m.begin() != static_cast<std::ptrdiff_t>(n) || cm.end() - cm.begin() != static_cast<std::ptrdiff_t>(n))
        fail(who + ": the iterators span " + std::to_string(m.end() - m.begin()) + " elements");
    if (n == 0)
        return;
    if (m.data() != &m[0] || k.data() != &m[0] || b.data() != &m[0] || m.begin() != &m[0] || cm.begin() != &m[0])
        fail(who + ": data pointer, iterator and first element differ");
    std::size_t i = 0;
    for (const auto &x : cm)
        same(x, e.a[i], i, who, "iterator"), ++i;
    for (i = 0; i < n; ++i)
        same(m.data()[i], e.a[i], i, who, "data");
}
template <class T>
void VBox<T>::check(const J &o, const std::string &who)
{
    const J &e               = o["e"];
    const std::size_t n      = e.size();
    const malg::Vector<T> &k = v;
    if (v.size() != n)
        fail(who + ": size is " + std::to_string(v.size()) + ", expected " + std::to_string(n));
    if (v.empty() != (n == 0))
        fail(who + ": empty() is wrong");
    if (v.end() - v.begin() != static_cast<std::ptrdiff_t>(n) || k.end() - k.begin() != static_cast<std::ptrdiff_t>(n) || k.cend() - k.cbegin() != static_cast<std::ptrdiff_t>(n))
        fail(who + ": the iterators span a different number of elements");
    if (n == 0)
        return;
    if (v.data() != &v[0] || k.data() != &v[0] || v.begin() != &v[0] || k.begin() != &k[0] || k.cbegin() != &k[0])
        fail(who + ": data pointer, iterator and first element differ");
    for (std::size_t i = 0; i < n; ++i) {
        same(v[i], e.a[i], i, who, "[]");
        same(k[i], e.a[i], i, who, "[] const");
        same(k.data()[i], e.a[i], i, who, "data");
    }
}

// ------------------------------------------------------------------ world --
struct World {
    std::array<BoxP, 128> slot;
    Box &box(const J &name)
    {
        auto &b = slot[static_cast<std::size_t>(name.ch())];
        if (!b)
            throw std::string("harness: empty slot ") + name.str();
        return *b;
    }
    Box &box(char name) { return *slot[static_cast<std::size_t>(name)]; }
    void put(const J &name, BoxP b) { slot[static_cast<std::size_t>(name.ch())] = std::move(b); }
};
template <class T> malg::Matrix<T> &matOf(Box &b) { return static_cast<MBox<T> &>(b).m; }
template <class T> malg::Vector<T> &vecOf(Box &b) { return static_cast<VBox<T> &>(b).v; }

// f(Matrix<T> &)
template <class L, class F>
void onMat(L l, Box &b, F &&f)
{
    if (b.k != 'M')
        throw std::string("harness: not a matrix");
    withT(l, b.t, [&](auto tg) { f(matOf<typename decltype(tg)::type>(b)); });
}
template <class L, class F>
void onVec(L l, Box &b, F &&f)
{
    if (b.k != 'V')
        throw std::string("harness: not a vector");
    withT(l, b.t, [&](auto tg) { f(vecOf<typename decltype(tg)::type>(b)); });
}
// f(Matrix<T> &), f(MatrixBase<T> &) or f(MatrixBase<const T> &)
template <class L, class F>
void onAny(L l, Box &b, F &&f)
{
    withT(l, b.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (b.k == 'M')
            f(matOf<T>(b));
        else if (b.k == 'V')
            throw std::string("harness: not a matrix-like object");
        else if (b.cst)
            f(*static_cast<malg::MatrixBase<const T> *>(b.mb));
        else
            f(*static_cast<malg::MatrixBase<T> *>(b.mb));
    });
}
// f(MatrixBase<T> &) or f(MatrixBase<const T> &): fewer instantiations.
template <class L, class F>
void onBase(L l, Box &b, F &&f)
{
    withT(l, b.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (b.k == 'V')
            throw std::string("harness: not a matrix-like object");
        else if (b.cst)
            f(*static_cast<malg::MatrixBase<const T> *>(b.mb));
        else
            f(*static_cast<malg::MatrixBase<T> *>(b.mb));
    });
}
// The same with the elements multiplied by 2^unit (exactly), if the call says so.
inline int unitOf(const J &a) { return a.has("unit") ? static_cast<int>(a["unit"].num()) : 0; }
template <class T>
void rescale(T &x, int e)
{
    if constexpr (std::is_floating_point_v<T>)
        x = std::ldexp(x, e);
    else if constexpr (malg::is_complex_v<T>)
        x = T(std::ldexp(x.real(), e), std::ldexp(x.imag(), e));
    else if (e != 0)
        throw std::string("harness: an integer in other units");
}
template <class T>
void MBox<T>::rescale(int e)
{
    for (std::size_t i = 0; i < m.size(); ++i)
        hx::rescale(m[i], e);
}
template <class T>
void VBox<T>::rescale(int e)
{
    for (std::size_t i = 0; i < v.size(); ++i)
        hx::rescale(v[i], e);
}
template <class T>
malg::Matrix<std::remove_const_t<T>> inUnits(const malg::MatrixBase<T> &A, int e)
{
    malg::Matrix<std::remove_const_t<T>> m(A.rows(), A.cols());
    for (std::size_t i = 0; i < A.rows(); ++i)
        for (std::size_t j = 0; j < A.cols(); ++j) {
            m(i, j) = A(i, j);
            rescale(m(i, j), e);
        }
    return m;
}
template <class T>
malg::Vector<T> inUnits(const malg::Vector<T> &A, int e)
{
    malg::Vector<T> v(A.size());
    for (std::size_t i = 0; i < A.size(); ++i) {
        v[i] = A[i];
        rescale(v[i], e);
    }
    return v;
}
template <class L, class F>
void onBaseU(L l, const J &a, Box &b, F &&f)
{
    onBase(l, b, [&](const auto &A) {
        using T = std::remove_const_t<typename std::decay_t<decltype(A)>::value_type>;
        if (const int e = unitOf(a)) {
            const auto m = inUnits(A, e);
            f(static_cast<const malg::MatrixBase<T> &>(m));
        } else
            f(A);
    });
}
// f(MatrixBase<T> &), writable objects only.
template <class L, class F>
void onWritable(L l, Box &b, F &&f)
{
    withT(l, b.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (b.k == 'V' || b.cst)
            throw std::string("harness: not a writable matrix-like object");
        f(*static_cast<malg::MatrixBase<T> *>(b.mb));
    });
}
// f(T value)
template <class L, class F>
void onScalar(L l, const J &sc, F &&f) // {t, v}
{
    withT(l, sc["t"].ch(), [&](auto tg) { f(toT<typename decltype(tg)::type>(sc["v"])); });
}

BoxP makeObj(const J &o); // a matrix or vector with the given content
template <class T>
malg::Matrix<T> mkM(const J &o)
{
    malg::Matrix<T> m(o["r"].idx(), o["c"].idx());
    for (std::size_t i = 0; i < o["e"].size(); ++i)
        m.data()[i] = toT<T>(o["e"].at(i));
    return m;
}
template <class T>
malg::Vector<T> mkV(const J &o)
{
    malg::Vector<T> v(o["e"].size());
    for (std::size_t i = 0; i < o["e"].size(); ++i)
        v.data()[i] = toT<T>(o["e"].at(i));
    return v;
}

// --------------------------------------------------------------- handlers --
using Handler = std::function<void(World &, const J &, Out &)>;
std::map<std::string, Handler> &registry();
struct Reg {
    Reg(const char *name, Handler h) { registry()[name] = std::move(h); }
};
#define HX_CAT2(a, b) a##b
#define HX_CAT(a, b) HX_CAT2(a, b)
#define OP(name) static hx::Reg HX_CAT(reg_, __LINE__)(name, [](hx::World &w, const hx::J &a, hx::Out &out)
#define PO )
void quietExit(); // this process may exit without that being a finding
// run at the beginning of every behaviour
std::vector<std::function<void()>> &resets();

} // namespace hx
