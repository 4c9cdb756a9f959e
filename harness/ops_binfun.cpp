// Binary element-wise functions.
#include "ops_arith.hpp"

using namespace hx;

namespace
{
template <class T>
using elem = std::remove_const_t<T>;
template <class T>
auto realOf(const T &x)
{
    if constexpr (malg::is_complex_v<T>)
        return x.real();
    else
        return x;
}
} // namespace

OP("binfun")
{
    const std::string f = a["f"].str();
    Box &b              = w.box(a["a"]);
    auto user           = [&](const auto &A, const auto &B) {
        using X = elem<std::remove_reference_t<decltype(A[0])>>;
        using Y = elem<std::remove_reference_t<decltype(B[0])>>;
        if (f == "sub")
            keep(w, a, out, malg::element_wise_binary_function(A, B, [](const X &x, const Y &y) { return x - y; }));
        else if (f == "less")
            keep(w, a, out, malg::element_wise_binary_function(A, B, [](const X &x, const Y &y) { return realOf(x) < realOf(y); }));
        else
            throw std::string("harness: binary function ") + f;
    };
    if (b.k == 'V')
        onVec(TL5{}, b, [&](const auto &A) {
            onVec(TL5{}, w.box(a["b"]), [&](const auto &B) {
                if (f == "proj")
                    keep(w, a, out, malg::projection(A, B));
                else
                    user(A, B);
            });
        });
    else
        onBase(TL5{}, b, [&](const auto &A) {
            onBase(TL5{}, w.box(a["b"]), [&](const auto &B) {
                if (f == "prod")
                    keep(w, a, out, malg::element_wise_product(A, B));
                else
                    user(A, B);
            });
        });
}
PO;
