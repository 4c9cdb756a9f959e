// Construction, copies, moves, assignment, element access, shapes.
#include "core.hpp"
#include "lists.hpp"

#include <type_traits>

using namespace hx;
using malg::CofactorView;
using malg::Matrix;
using malg::MatrixBase;
using malg::Vector;
using malg::View;

namespace
{

template <class S, class T>
constexpr bool conv = malg::is_complex_v<T> || !malg::is_complex_v<S>;

// f(Matrix<T> &), a concrete view class when there is one, or the generic interface.
template <class L, class F>
void onConcrete(L l, Box &b, F &&f)
{
    withT(l, b.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (b.k == 'M')
            f(matOf<T>(b));
        else if (b.concrete == 1)
            f(static_cast<View<Matrix<T>> &>(*static_cast<MatrixBase<T> *>(b.mb)));
        else if (b.concrete == 2)
            f(static_cast<CofactorView<Matrix<T>> &>(*static_cast<MatrixBase<T> *>(b.mb)));
        else if (b.cst)
            f(*static_cast<MatrixBase<const T> *>(b.mb));
        else
            f(*static_cast<MatrixBase<T> *>(b.mb));
    });
}

} // namespace

OP("new")
{
    const J &o            = a["o"];
    const std::string how = a["how"].str();
    withT(TL5{}, o["t"].ch(), [&](auto tg) {
        using T             = typename decltype(tg)::type;
        const std::size_t r = o["r"].idx(), c = o["c"].idx();
        const auto e = elems<T>(o);
        BoxP b;
        if (how == "empty") {
            b.reset(new MBox<T>(tg));
        } else if (how == "fill") {
            if (e.empty())
                b.reset(new MBox<T>(Matrix<T>(r, c)));
            else
                b.reset(new MBox<T>(tg, r, c, e[0]));
        } else if (how == "list") {
            withFlat(e, [&](std::initializer_list<T> l) { b.reset(new MBox<T>(tg, r, c, l)); });
        } else if (how == "stdvec") {
            b.reset(new MBox<T>(tg, r, c, e));
        } else if (how == "nested") {
            withNested(e, r, c, [&](const std::initializer_list<std::initializer_list<T>> &l) { b.reset(new MBox<T>(tg, l)); });
        } else {
            Matrix<T> m(r, c);
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j < c; ++j) {
                    if (m(i, j) != T(0))
                        fail("new: an element of a fresh matrix is not zero");
                    m(i, j) = e[i * c + j];
                }
            b.reset(new MBox<T>(std::move(m)));
        }
        w.put(a["a"], std::move(b));
    });
}
PO;

OP("newv")
{
    const J &o            = a["o"];
    const std::string how = a["how"].str();
    withT(TL5{}, o["t"].ch(), [&](auto tg) {
        using T      = typename decltype(tg)::type;
        const auto e = elems<T>(o);
        BoxP b;
        if (how == "fill") {
            b.reset(new VBox<T>(tg, e.size(), e.empty() ? T(1) : e[0]));
        } else if (how == "list") {
            withFlat(e, [&](std::initializer_list<T> l) { b.reset(new VBox<T>(tg, l)); });
        } else if (how == "sizedlist") {
            withFlat(e, [&](std::initializer_list<T> l) { b.reset(new VBox<T>(tg, l.size(), l)); });
        } else if (how == "sized" && e.empty()) {
            b.reset(new VBox<T>(tg));
        } else {
            auto *vb = new VBox<T>(tg, e.size());
            b.reset(vb);
            for (std::size_t i = 0; i < e.size(); ++i) {
                if (vb->v[i] != T(0))
                    fail("newv: an element of a fresh vector is not zero");
                if (how != "sized")
                    vb->v[i] = e[i];
            }
        }
        w.put(a["a"], std::move(b));
    });
}
PO;

OP("drop")
{
    w.put(a["a"], nullptr);
}
PO;

OP("copyctor")
{
    BoxP d;
    onConcrete(TL5{}, w.box(a["a"]), [&](auto &src) {
        using S = std::remove_const_t<typename std::decay_t<decltype(src)>::value_type>;
        withT(TL5{}, a["t"].ch(), [&](auto tg) {
            using T = typename decltype(tg)::type;
            if constexpr (conv<S, T>) {
                const auto &csrc = src;
                d.reset(new MBox<T>(tg, csrc));
            }
        });
    });
    w.put(a["d"], std::move(d));
}
PO;

OP("movector")
{
    BoxP d;
    onMat(TL5{}, w.box(a["a"]), [&](auto &src) {
        using S = typename std::decay_t<decltype(src)>::value_type;
        withT(TL5{}, a["t"].ch(), [&](auto tg) {
            using T = typename decltype(tg)::type;
            if constexpr (conv<S, T>)
                d.reset(new MBox<T>(tg, std::move(src)));
        });
    });
    w.put(a["d"], std::move(d));
}
PO;

OP("assign")
{
    onMat(TL5{}, w.box(a["a"]), [&](auto &dst) {
        using T = typename std::decay_t<decltype(dst)>::value_type;
        onConcrete(TL5{}, w.box(a["b"]), [&](auto &src) {
            using S = std::remove_const_t<typename std::decay_t<decltype(src)>::value_type>;
            if constexpr (conv<S, T>) {
                const auto &csrc = src;
                auto &r          = (dst = csrc);
                if (static_cast<const void *>(&r) != static_cast<const void *>(&dst))
                    fail("assign: the assignment does not return the destination");
            }
        });
    });
}
PO;

OP("moveassign")
{
    onMat(TL5{}, w.box(a["a"]), [&](auto &dst) {
        using T = typename std::decay_t<decltype(dst)>::value_type;
        onMat(TL5{}, w.box(a["b"]), [&](auto &src) {
            using S = typename std::decay_t<decltype(src)>::value_type;
            if constexpr (conv<S, T>) {
                auto &r = (dst = std::move(src));
                if (&r != &dst)
                    fail("moveassign: the assignment does not return the destination");
            }
        });
    });
}
PO;

OP("assignlist")
{
    onMat(TL5{}, w.box(a["a"]), [&](auto &dst) {
        using T = typename std::decay_t<decltype(dst)>::value_type;
        withNested(elems<T>(a["o"]), a["o"]["r"].idx(), a["o"]["c"].idx(), [&](const std::initializer_list<std::initializer_list<T>> &l) {
            auto &r = (dst = l);
            if (&r != &dst)
                fail("assignlist: the assignment does not return the destination");
        });
    });
}
PO;

OP("swap")
{
    onMat(TL5{}, w.box(a["a"]), [&](auto &x) {
        using T = typename std::decay_t<decltype(x)>::value_type;
        std::swap(x, matOf<T>(w.box(a["b"])));
    });
}
PO;

OP("copyctorv")
{
    BoxP d;
    onVec(TL5{}, w.box(a["a"]), [&](auto &src) {
        using S = typename std::decay_t<decltype(src)>::value_type;
        withT(TL5{}, a["t"].ch(), [&](auto tg) {
            using T = typename decltype(tg)::type;
            if constexpr (conv<S, T>) {
                const auto &csrc = src;
                d.reset(new VBox<T>(tg, csrc));
            }
        });
    });
    w.put(a["d"], std::move(d));
}
PO;

OP("movectorv")
{
    BoxP d;
    onVec(TL5{}, w.box(a["a"]), [&](auto &src) {
        using S = typename std::decay_t<decltype(src)>::value_type;
        withT(TL5{}, a["t"].ch(), [&](auto tg) {
            using T = typename decltype(tg)::type;
            if constexpr (conv<S, T>)
                d.reset(new VBox<T>(tg, std::move(src)));
        });
    });
    w.put(a["d"], std::move(d));
}
PO;

OP("assignv")
{
    onVec(TL5{}, w.box(a["a"]), [&](auto &dst) {
        using T = typename std::decay_t<decltype(dst)>::value_type;
        onVec(TL5{}, w.box(a["b"]), [&](auto &src) {
            using S = typename std::decay_t<decltype(src)>::value_type;
            if constexpr (conv<S, T>) {
                const auto &csrc = src;
                auto &r          = (dst = csrc);
                if (&r != &dst)
                    fail("assignv: the assignment does not return the destination");
            }
        });
    });
}
PO;

OP("moveassignv")
{
    onVec(TL5{}, w.box(a["a"]), [&](auto &dst) {
        using T = typename std::decay_t<decltype(dst)>::value_type;
        onVec(TL5{}, w.box(a["b"]), [&](auto &src) {
            using S = typename std::decay_t<decltype(src)>::value_type;
            if constexpr (conv<S, T>) {
                auto &r = (dst = std::move(src));
                if (&r != &dst)
                    fail("moveassignv: the assignment does not return the destination");
            }
        });
    });
}
PO;

// ------------------------------------------------------------ elements -----
namespace
{
template <class X, class T>
void writeMat(X &x, const std::string &path, std::size_t i, T v)
{
    const std::size_t c = x.cols();
    if (path == "call")
        x(i / c, i % c) = v;
    else if (path == "at")
        x.at(i / c, i % c) = v;
    else if (path == "lin")
        x[i] = v;
    else if (path == "ref") {
        T &r = x(i / c, i % c);
        r    = v;
    } else
        throw std::string("harness: path ") + path;
}
template <class X>
auto readMat(const X &x, const std::string &path, std::size_t i)
{
    const std::size_t c = x.cols();
    if (path == "call")
        return x(i / c, i % c);
    if (path == "at")
        return x.at(i / c, i % c);
    if (path == "lin")
        return x[i];
    const auto &r = x(i / c, i % c);
    return r;
}
template <class F>
void onPath(World &w, const J &a, F &&put)
{
    Box &b                 = w.box(a["a"]);
    const std::string path = a["path"].str();
    if (b.k == 'V') {
        onVec(TL5{}, b, [&](auto &v) {
            using T = typename std::decay_t<decltype(v)>::value_type;
            put(tag<T>{}, [&](std::size_t i, T x) {
                if (path == "data")
                    v.data()[i] = x;
                else if (path == "iter")
                    *(v.begin() + static_cast<std::ptrdiff_t>(i)) = x;
                else if (path == "ref") {
                    T &r = v[i];
                    r    = x;
                } else
                    v[i] = x;
            });
        });
    } else if (b.k == 'M' && path != "base") {
        onMat(TL5{}, b, [&](auto &m) {
            using T = typename std::decay_t<decltype(m)>::value_type;
            put(tag<T>{}, [&](std::size_t i, T x) {
                if (path == "data")
                    m.data()[i] = x;
                else if (path == "iter")
                    *(m.begin() + static_cast<std::ptrdiff_t>(i)) = x;
                else
                    writeMat(m, path, i, x);
            });
        });
    } else {
        onWritable(TL5{}, b, [&](auto &m) {
            using T = typename std::decay_t<decltype(m)>::value_type;
            put(tag<T>{}, [&](std::size_t i, T x) { writeMat(m, path == "base" ? "at" : path, i, x); });
        });
    }
}
} // namespace

OP("set")
{
    onPath(w, a, [&](auto tg, auto write) { write(a["i"].idx(), toT<typename decltype(tg)::type>(a["v"])); });
}
PO;

OP("fill")
{
    onPath(w, a, [&](auto tg, auto write) {
        for (std::size_t i = 0; i < a["e"].size(); ++i)
            write(i, toT<typename decltype(tg)::type>(a["e"].at(i)));
    });
}
PO;

OP("read")
{
    Box &b                 = w.box(a["a"]);
    const std::string path = a["path"].str();
    if (b.k == 'V') {
        onVec(TL5{}, b, [&](auto &v) {
            using T = typename std::decay_t<decltype(v)>::value_type;
            Vector<T> r(v.size());
            const Vector<T> &k = v;
            for (std::size_t i = 0; i < v.size(); ++i)
                r[i] = path == "data" ? k.data()[i] : path == "iter" ? *(k.begin() + static_cast<std::ptrdiff_t>(i)) :
                                                                       k[i];
            out.vec(r);
        });
    } else {
        onAny(TL5{}, b, [&](auto &m) {
            using T = std::remove_const_t<typename std::decay_t<decltype(m)>::value_type>;
            Vector<T> r(m.size());
            for (std::size_t i = 0; i < m.size(); ++i) {
                if constexpr (std::is_same_v<std::decay_t<decltype(m)>, Matrix<T>>) {
                    const Matrix<T> &k = m;
                    if (path == "data") {
                        r[i] = k.data()[i];
                        continue;
                    }
                    if (path == "iter") {
                        r[i] = *(k.begin() + static_cast<std::ptrdiff_t>(i));
                        continue;
                    }
                }
                r[i] = readMat(m, path, i);
            }
            out.vec(r);
        });
    }
}
PO;

// --------------------------------------------------------------- shapes ----
OP("reshape")
{
    onMat(TL5{}, w.box(a["a"]), [&](auto &m) {
        auto &r = a["via"].str() == "member" ? m.reshape(a["r"].idx(), a["c"].idx()) : malg::utility::reshape(m, a["r"].idx(), a["c"].idx());
        if (&r != &m)
            fail("reshape: does not return the matrix");
    });
}
PO;
OP("resize")
{
    onMat(TL5{}, w.box(a["a"]), [&](auto &m) {
        auto &r = a["via"].str() == "member" ? m.resize(a["r"].idx(), a["c"].idx()) : malg::utility::resize(m, a["r"].idx(), a["c"].idx());
        if (&r != &m)
            fail("resize: does not return the matrix");
    });
}
PO;
OP("resizev")
{
    onVec(TL5{}, w.box(a["a"]), [&](auto &v) {
        auto &r = v.resize(a["n"].idx());
        if (&r != &v)
            fail("resizev: does not return the vector");
    });
}
PO;
OP("resizelikev")
{
    onVec(TL5{}, w.box(a["a"]), [&](auto &v) {
        using T = typename std::decay_t<decltype(v)>::value_type;
        v.resize(vecOf<T>(w.box(a["b"])));
    });
}
PO;
