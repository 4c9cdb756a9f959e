// Division of matrices.
#include "ops_arith.hpp"
#include "malg/linalg.hpp"

using namespace hx;

OP("div")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onBase(TL5{}, w.box(a["b"]), [&](const auto &B) { keep(w, a, out, malg::linalg::div(A, B)); });
    });
}
PO;
