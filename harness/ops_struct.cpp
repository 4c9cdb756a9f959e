// Stacking, extraction, removal, exchange, generation, conversion.
#include "ops_arith.hpp"
#include "malg/linalg.hpp"

using namespace hx;
namespace mu = malg::utility;

namespace
{
constexpr std::size_t inf = std::numeric_limits<std::size_t>::max();
std::size_t bound(const J &x) { return x.num() == 9999 ? inf : x.idx(); }
template <class V, class W>
void sameRef(const V &x, const W &y)
{
    if (static_cast<const void *>(&x) != static_cast<const void *>(&y))
        fail("the call does not return its operand");
}
} // namespace

OP("stack")
{
    const bool v = a["f"].ch() == 'v';
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onBase(TL5{}, w.box(a["b"]), [&](const auto &B) {
            if (v)
                keep(w, a, out, mu::vstack(A, B));
            else
                keep(w, a, out, mu::hstack(A, B));
        });
    });
}
PO;

OP("stackv")
{
    const bool v = a["f"].ch() == 'v';
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) {
            if (v)
                keep(w, a, out, mu::vstack(A, B));
            else
                keep(w, a, out, mu::hstack(A, B));
        });
    });
}
PO;

OP("concat")
{
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) { keep(w, a, out, mu::concatenate(A, B)); });
    });
}
PO;

OP("extract")
{
    const std::size_t r0 = a["r0"].idx(), r1 = bound(a["r1"]), c0 = a["c0"].idx(), c1 = bound(a["c1"]);
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        if (r0 == 0 && r1 == inf && c0 == 0 && c1 == inf)
            keep(w, a, out, mu::extract(A));
        else
            keep(w, a, out, mu::extract(A, r0, r1, c0, c1));
    });
}
PO;

OP("extractline")
{
    const std::size_t i = a["i"].idx(), lo = a["lo"].idx(), hi = bound(a["hi"]);
    const bool row = a["f"].str() == "row", def = lo == 0 && hi == inf;
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        if (row)
            keep(w, a, out, def ? mu::extract_row(A, i) : mu::extract_row(A, i, lo, hi));
        else
            keep(w, a, out, def ? mu::extract_column(A, i) : mu::extract_column(A, i, lo, hi));
    });
}
PO;

OP("swaplines")
{
    const std::size_t i = a["i"].idx(), j = a["j"].idx(), lo = a["lo"].idx(), hi = bound(a["hi"]);
    const bool row = a["f"].str() == "row", def = lo == 0 && hi == inf;
    onWritable(TL5{}, w.box(a["a"]), [&](auto &A) {
        if (row) {
            if (def)
                mu::swap_rows(A, i, j);
            else
                mu::swap_rows(A, i, j, lo, hi);
        } else {
            if (def)
                mu::swap_cols(A, i, j);
            else
                mu::swap_cols(A, i, j, lo, hi);
        }
    });
}
PO;

OP("remove")
{
    const bool row = a["f"].str() == "row";
    onMat(TL5{}, w.box(a["a"]), [&](auto &A) {
        if (row)
            sameRef(mu::remove_row(A, a["i"].idx()), A);
        else
            sameRef(mu::remove_column(A, a["i"].idx()), A);
    });
}
PO;

OP("gen")
{
    const std::string f = a["f"].str();
    const std::size_t r = a["r"].idx(), c = a["c"].idx();
    withT(TL5{}, a["t"].ch(), [&](auto tg) {
        using T   = typename decltype(tg)::type;
        const T v = toT<T>(a["v"]);
        if (f == "identity")
            keep(w, a, out, mu::identity<T>(r));
        else if (f == "identityv")
            keep(w, a, out, mu::identity<T>(r, v));
        else if (f == "eye")
            keep(w, a, out, mu::eye<T>(r, c, v));
        else if (f == "zeros")
            keep(w, a, out, mu::zeros<T>(r, c));
        else if (f == "ones")
            keep(w, a, out, mu::ones<T>(r, c));
        else if (f == "zerosv")
            keep(w, a, out, mu::zeros<T>(r));
        else if (f == "onesv")
            keep(w, a, out, mu::ones<T>(r));
        else
            throw std::string("harness: generator ") + f;
    });
}
PO;

OP("mtov")
{
    const std::string f = a["f"].str();
    if (f == "tovector")
        onMat(TL5{}, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, mu::to_vector(A)); });
    else
        onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
            if (f == "diag")
                keep(w, a, out, mu::diag(A));
            else
                keep(w, a, out, mu::ravel(A));
        });
}
PO;

OP("vtom")
{
    const std::string f = a["f"].str();
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        if (f == "diag")
            keep(w, a, out, mu::diag(A));
        else
            keep(w, a, out, mu::to_matrix(A, f == "row"));
    });
}
PO;

OP("space")
{
    const bool lin  = a["f"].str() == "lin";
    const auto num  = static_cast<unsigned>(a["num"].idx());
    const long base = a["base"].num();
    withT(TLR{}, a["t"].ch(), [&](auto tg) {
        using T   = typename decltype(tg)::type;
        const T x = toT<T>(a["x"]), y = toT<T>(a["y"]);
        if (lin)
            keep(w, a, out, mu::linspace<T>(x, y, num));
        else if (base == 10)
            keep(w, a, out, mu::logspace<T>(x, y, num));
        else
            keep(w, a, out, mu::logspace<T>(x, y, num, static_cast<T>(base)));
    });
}
PO;

OP("flatnonzero")
{
    onMat(TL5{}, w.box(a["a"]), [&](const auto &A) {
        const std::vector<std::size_t> idx = mu::flatnonzero(A);
        Obj o;
        o.k = 'V', o.t = 'u', o.r = 1, o.c = idx.size();
        for (std::size_t i : idx)
            o.e.push_back(fromT(i));
        out.ret(o);
    });
}
PO;

OP("find")
{
    const long k     = a["k"].num();
    const bool first = a["first"].truth();
    onMat(TL5{}, w.box(a["a"]), [&](const auto &A) {
        if (k == 9999 && first)
            out.mat(mu::find(A));
        else if (first)
            out.mat(mu::find(A, bound(a["k"])));
        else
            out.mat(mu::find(A, bound(a["k"]), false));
    });
}
PO;

OP("sum")
{
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) { out.sca(malg::sum(A)); });
}
PO;

OP("trace")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) { out.sca(malg::trace(A)); });
}
PO;

OP("minmaxv")
{
    const bool mn = a["f"].str() == "min";
    onVec(TLR{}, w.box(a["a"]), [&](const auto &A) {
        const auto p = mn ? malg::min(A) : malg::max(A);
        out.ret(Out::capL({ Out::capS(p.first), Out::capI(static_cast<long>(p.second)) }));
    });
}
PO;

OP("minmaxm")
{
    const bool mn = a["f"].str() == "min";
    onMat(TLR{}, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, mn ? malg::min(A) : malg::max(A)); });
}
PO;

OP("accumulate")
{
    auto go = [&](auto &A) {
        using T = std::remove_const_t<std::remove_reference_t<decltype(A[0])>>;
        T *p    = A.data();
        out.sca(mu::accumulate(p + a["lo"].num(), p + a["hi"].num(), toT<T>(a["v"])));
    };
    Box &b = w.box(a["a"]);
    if (b.k == 'V')
        onVec(TL5{}, b, go);
    else
        onMat(TL5{}, b, go);
}
PO;

OP("inner")
{
    Box &x = w.box(a["a"]), &y = w.box(a["b"]);
    withT(TL5{}, x.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        T *p    = vecOf<T>(x).data();
        T *q    = y.k == 'V' ? vecOf<T>(y).data() : matOf<T>(y).data();
        out.sca(mu::inner_product(p + a["lo"].num(), p + a["hi"].num(), q + a["lo2"].num(), toT<T>(a["v"])));
    });
}
PO;

OP("misc")
{
    const char t = a["t"].ch();
    const long k = a["k"].num();
    if (a["f"].str() == "basis")
        out.sca(t == 'f' ? mu::basis<float>() : mu::basis<double>());
    else if (t == 'i')
        out.sca(malg::linalg::factorial<int>(static_cast<int>(k)));
    else if (t == 'u')
        out.sca(malg::linalg::factorial<std::size_t>(static_cast<std::size_t>(k)));
    else
        out.sca(malg::linalg::factorial<double>(static_cast<double>(k)));
}
PO;
