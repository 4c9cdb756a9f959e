// Determinant, inverse, adjoint, cofactor, division, LU.
#include "ops_arith.hpp"
#include "malg/linalg.hpp"

using namespace hx;
namespace ml = malg::linalg;

OP("det")
{
    onBaseU(TL5{}, a, w.box(a["a"]), [&](const auto &A) { out.sca(ml::determinant(A)); });
}
PO;

OP("adj")
{
    onBaseU(TL5{}, a, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, ml::adjoint(A)); });
}
PO;

OP("cof")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, ml::cofactor(A, a["p"].idx(), a["q"].idx())); });
}
PO;

OP("inv")
{
    onBaseU(TL5{}, a, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, ml::inverse(A)); });
}
PO;

OP("lu")
{
    onBaseU(TL5{}, a, w.box(a["a"]), [&](const auto &A) {
        const auto p = ml::lu_decomposition(A);
        out.ret(Out::capL({ Out::capM(p.first), Out::capM(p.second) }));
    });
}
PO;
