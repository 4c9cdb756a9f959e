// The concrete view classes.
#pragma once
#include "core.hpp"
#include "lists.hpp"

#include <type_traits>

namespace hx
{

template <class V>
struct WBox : AnyView {
    using T = typename V::T; // const for constant views
    using N = std::remove_const_t<T>;
    V v;
    WBox(char kind, V &&x) : AnyView(kind, code<T>()), v(x)
    {
        cst = std::is_const_v<T>;
        mb  = static_cast<malg::MatrixBase<T> *>(&v);
        if (std::is_same_v<V, malg::View<malg::Matrix<N>>>)
            concrete = 1;
        if (std::is_same_v<V, malg::CofactorView<malg::Matrix<N>>>)
            concrete = 2;
    }
    void check(const J &o, const std::string &who) override
    {
        checkShape(v, o, who);
        checkAccess(v, o, who);
        malg::MatrixBase<T> &b = v;
        checkShape(b, o, who + " (as MatrixBase)");
        checkAccess(b, o, who + " (as MatrixBase)");
    }
    void assign(Box &rhs) override;
    void assignList(const J &o) override;
};

// Puts into slot d a view on the object b, made with the given function
// (called with a pointer to the concrete base).
template <class F>
BoxP onViewBase(Box &b, bool cst, bool deep, F &&f)
{
    BoxP r;
    withT(TL5{}, b.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        using malg::MatrixBase;
        if (b.k == 'M') {
            auto &m = matOf<T>(b);
            r       = cst ? f(static_cast<const malg::Matrix<T> *>(&m)) : f(&m);
        } else if (b.cst) {
            r = f(static_cast<MatrixBase<const T> *>(b.mb));
        } else if (b.concrete == 1 && deep) {
            auto *v = static_cast<malg::View<malg::Matrix<T>> *>(static_cast<MatrixBase<T> *>(b.mb));
            r       = cst ? f(static_cast<const malg::View<malg::Matrix<T>> *>(v)) : f(v);
        } else if (b.concrete == 2 && deep) {
            auto *v = static_cast<malg::CofactorView<malg::Matrix<T>> *>(static_cast<MatrixBase<T> *>(b.mb));
            r       = cst ? f(static_cast<const malg::CofactorView<malg::Matrix<T>> *>(v)) : f(v);
        } else {
            auto *v = static_cast<MatrixBase<T> *>(b.mb);
            r       = cst ? f(static_cast<const MatrixBase<T> *>(v)) : f(v);
        }
    });
    return r;
}

template <class V>
void WBox<V>::assign(Box &rhs)
{
    if constexpr (!std::is_const_v<T>) {
        withT(TL5{}, rhs.t, [&](auto tg) {
            using S = typename decltype(tg)::type;
            if constexpr (malg::is_complex_v<T> || !malg::is_complex_v<S>) {
                auto put = [&](auto &x) {
                    const auto &k = x;
                    auto &ret     = (v = k);
                    if (static_cast<const void *>(&ret) != static_cast<const void *>(&v))
                        fail("assignment to a view does not return the view");
                };
                if (rhs.k == 'M')
                    put(matOf<S>(rhs));
                else if (rhs.concrete == 1)
                    put(static_cast<malg::View<malg::Matrix<S>> &>(*static_cast<malg::MatrixBase<S> *>(rhs.mb)));
                else if (rhs.concrete == 2)
                    put(static_cast<malg::CofactorView<malg::Matrix<S>> &>(*static_cast<malg::MatrixBase<S> *>(rhs.mb)));
                else if (rhs.cst)
                    put(*static_cast<malg::MatrixBase<const S> *>(rhs.mb));
                else if (auto *sv = dynamic_cast<WBox<V> *>(&rhs))
                    put(sv->v);
                else
                    put(*static_cast<malg::MatrixBase<S> *>(rhs.mb));
            } else {
                throw std::string("harness: view assignment from complex to real");
            }
        });
    } else {
        throw std::string("harness: assignment to a constant view");
    }
}
template <class V>
struct is_window : std::false_type {
};
template <class M>
struct is_window<malg::View<M>> : std::true_type {
};
template <class V>
void WBox<V>::assignList(const J &o)
{
    if constexpr (!std::is_const_v<T> && is_window<V>::value) {
        withNested(elems<N>(o), o["r"].idx(), o["c"].idx(), [&](const std::initializer_list<std::initializer_list<T>> &l) { v = l; });
    } else {
        throw std::string("harness: list assignment to a constant or cofactor view");
    }
}

} // namespace hx
