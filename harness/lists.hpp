// Initializer lists of run-time length.
#pragma once
#include "core.hpp"
#include <utility>

namespace hx
{

template <class T, std::size_t... I, class F>
void flat_n(const std::vector<T> &e, std::index_sequence<I...>, F &&f)
{
    f(std::initializer_list<T>{ e[I]... });
}
template <class T, class F>
void withFlat(const std::vector<T> &e, F &&f)
{
    switch (e.size()) {
#define HXN(n) \
    case n: flat_n(e, std::make_index_sequence<n>{}, f); break;
        HXN(1) HXN(2) HXN(3) HXN(4) HXN(5) HXN(6) HXN(7) HXN(8) HXN(9)
#undef HXN
    default: throw std::string("harness: list length");
    }
}
template <class T, class F>
void withNested(const std::vector<T> &e, std::size_t r, std::size_t c, F &&f)
{
    using IL                         = std::initializer_list<std::initializer_list<T>>;
    auto x                           = [&](std::size_t i, std::size_t j) { return e[i * c + j]; };
    switch (r * 10 + c) {
    case 0: f(IL{}); break;
    case 10: f(IL{ {} }); break;
    case 20: f(IL{ {}, {} }); break;
    case 30: f(IL{ {}, {}, {} }); break;
    case 11: f(IL{ { x(0, 0) } }); break;
    case 12: f(IL{ { x(0, 0), x(0, 1) } }); break;
    case 13: f(IL{ { x(0, 0), x(0, 1), x(0, 2) } }); break;
    case 21: f(IL{ { x(0, 0) }, { x(1, 0) } }); break;
    case 22: f(IL{ { x(0, 0), x(0, 1) }, { x(1, 0), x(1, 1) } }); break;
    case 23: f(IL{ { x(0, 0), x(0, 1), x(0, 2) }, { x(1, 0), x(1, 1), x(1, 2) } }); break;
    case 31: f(IL{ { x(0, 0) }, { x(1, 0) }, { x(2, 0) } }); break;
    case 32: f(IL{ { x(0, 0), x(0, 1) }, { x(1, 0), x(1, 1) }, { x(2, 0), x(2, 1) } }); break;
    case 33: f(IL{ { x(0, 0), x(0, 1), x(0, 2) }, { x(1, 0), x(1, 1), x(1, 2) }, { x(2, 0), x(2, 1), x(2, 2) } }); break;
    default: throw std::string("harness: nested list shape");
    }
}
template <class T>
std::vector<T> elems(const J &o)
{
    std::vector<T> e;
    for (auto &q : o["e"].a)
        e.push_back(toT<T>(q));
    return e;
}

} // namespace hx
