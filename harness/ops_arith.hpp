// Helpers for calls that return a new object.
#pragma once
#include "core.hpp"

namespace hx
{

template <class M>
struct elem_of;
template <class T>
struct elem_of<malg::Matrix<T>> {
    using type = T;
};
template <class T>
struct elem_of<malg::Vector<T>> {
    using type = T;
};

// Reports the returned matrix or vector, and keeps it in slot d (if any).
template <class T>
void keep(World &w, const J &a, Out &out, malg::Matrix<T> &&m)
{
    out.mat(m);
    if (a.has("d") && !a["d"].str().empty())
        w.put(a["d"], BoxP(new MBox<T>(std::move(m))));
}
template <class T>
void keep(World &w, const J &a, Out &out, malg::Vector<T> &&m)
{
    out.vec(m);
    if (a.has("d") && !a["d"].str().empty())
        w.put(a["d"], BoxP(new VBox<T>(tag<T>{}, std::move(m))));
}
template <class S, class T>
constexpr bool convertible = malg::is_complex_v<T> || !malg::is_complex_v<S>;

template <class X, class Y>
void sameRef(const X &x, const Y &y, const char *what)
{
    if (static_cast<const void *>(&x) != static_cast<const void *>(&y))
        fail(std::string(what) + " does not return its left operand");
}

} // namespace hx
