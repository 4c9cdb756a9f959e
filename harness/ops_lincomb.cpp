// Linear combinations: operands and scalars of many types.
#include "ops_arith.hpp"

using namespace hx;

OP("lincomb")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onBase(TL5{}, w.box(a["b"]), [&](const auto &B) {
            // The scalars have the types of the operands or are real doubles
            // (all 25 x 25 combinations of types would take minutes to compile).
            using X = std::remove_const_t<std::remove_reference_t<decltype(A[0])>>;
            using Y = std::remove_const_t<std::remove_reference_t<decltype(B[0])>>;
            onScalar(TL<X, double>{}, a["sa"], [&](auto x) {
                onScalar(TL<Y, double>{}, a["sb"], [&](auto y) { keep(w, a, out, malg::linear_combination(A, x, B, y)); });
            });
        });
    });
}
PO;
