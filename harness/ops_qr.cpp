// QR and linear systems, exponentials.
#include "ops_arith.hpp"
#include "malg/linalg.hpp"

using namespace hx;
namespace ml = malg::linalg;

namespace
{
// The transpose of A times B, in long double and without the library.
Obj product(const malg::Matrix<double> &A, const malg::Matrix<double> &B, bool transposed)
{
    Obj o;
    const std::size_t n = transposed ? A.rows() : A.cols();
    o.k = 'M', o.t = 'd', o.r = transposed ? A.cols() : A.rows(), o.c = B.cols();
    if (n != B.rows())
        fail("the factors do not fit: " + std::to_string(A.rows()) + "x" + std::to_string(A.cols()) + " and " + std::to_string(B.rows()) + "x" + std::to_string(B.cols()));
    for (std::size_t i = 0; i < o.r; ++i)
        for (std::size_t j = 0; j < o.c; ++j) {
            long double s = 0;
            for (std::size_t k = 0; k < n; ++k)
                s += static_cast<long double>(transposed ? A(k, i) : A(i, k)) * static_cast<long double>(B(k, j));
            o.e.push_back({ s, 0 });
        }
    return o;
}
} // namespace

OP("qr")
{
    onMat(TLR{}, w.box(a["a"]), [&](const auto &M) {
        const int e                   = unitOf(a);
        const auto tmp                = e ? inUnits(M, e) : std::decay_t<decltype(M)>();
        const auto &A                 = e ? tmp : M;
        const auto p                  = ml::qr_decomposition(A);
        const malg::Matrix<double> &Q = p.first;
        const malg::Matrix<double> &R = p.second;
        Obj low;
        low.k = 'V', low.t = 'd', low.r = 1;
        for (std::size_t i = 0; i < R.rows(); ++i)
            for (std::size_t j = 0; j < R.cols() && j < i; ++j)
                low.e.push_back({ R(i, j), 0 });
        low.c = low.e.size();
        out.ret(Out::capL({ product(Q, Q, true), product(Q, R, false), low }));
    });
}
PO;

OP("solve")
{
    Box &b = w.box(a["b"]);
    onMat(TLR{}, w.box(a["a"]), [&](const auto &M) {
        const int e    = unitOf(a);
        const auto tmp = e ? inUnits(M, e) : std::decay_t<decltype(M)>();
        const auto &A  = e ? tmp : M;
        using T = std::decay_t<decltype(A(0, 0))>;
        if (b.t != code<T>())
            throw std::string("harness: solve with mixed types");
        out.vec(ml::solve(A, static_cast<const malg::Vector<T> &>(vecOf<T>(b))));
    });
}
PO;
