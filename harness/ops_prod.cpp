// Products, powers, transposes.
#include "ops_arith.hpp"
#include "malg/linalg.hpp"

using namespace hx;

OP("mul")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onBase(TL5{}, w.box(a["b"]), [&](const auto &B) { keep(w, a, out, A * B); });
    });
}
PO;

OP("mulinp")
{
    onWritable(TL5{}, w.box(a["a"]), [&](auto &A) {
        onBase(TL5{}, w.box(a["b"]), [&](const auto &B) {
            using T = typename std::decay_t<decltype(A)>::value_type;
            using S = std::remove_const_t<typename std::decay_t<decltype(B)>::value_type>;
            if constexpr (convertible<S, T>)
                sameRef(A *= B, A, "*=");
            else
                throw std::string("harness: types of an in-place operation");
        });
    });
}
PO;

OP("mulv")
{
    const bool dot = a["via"].str() == "dot";
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) {
            if (dot)
                keep(w, a, out, malg::dot(A, B));
            else
                keep(w, a, out, A * B);
        });
    });
}
PO;

OP("dot")
{
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) { out.sca(malg::dot(A, B)); });
    });
}
PO;

OP("powm")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, malg::linalg::powm(A, a["p"].idx())); });
}
PO;

OP("transpose")
{
    const char f = a["via"].ch();
    if (f == 't') {
        onBase(TL5{}, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, malg::linalg::transpose(A)); });
    } else {
        onWritable(TL<Z, C>{}, w.box(a["a"]), [&](const auto &A) {
            if (f == 'h')
                keep(w, a, out, malg::linalg::hermitian_transpose(A));
            else
                keep(w, a, out, malg::linalg::conjugate_transpose(A));
        });
    }
}
PO;
