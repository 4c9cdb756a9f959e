// Norms, structural predicates, element-wise functions.
#include "ops_arith.hpp"

using namespace hx;
namespace mu = malg::utility;

namespace
{
constexpr std::size_t inf = std::numeric_limits<std::size_t>::max();
std::size_t bound(const J &x) { return x.num() == 9999 ? inf : x.idx(); }
template <class T>
using elem = std::remove_const_t<T>;
using TLN  = TL<double, Z, float, C>;
template <class T>
auto realOf(const T &x)
{
    if constexpr (malg::is_complex_v<T>)
        return x.real();
    else
        return x;
}
} // namespace

OP("norm")
{
    const std::string f = a["f"].str();
    Box &b              = w.box(a["a"]);
    if (b.k == 'V')
        onVec(TL5{}, b, [&](const auto &V) {
            const int e    = unitOf(a);
            const auto tmp = e ? inUnits(V, e) : std::decay_t<decltype(V)>();
            const auto &A  = e ? tmp : V;
            if (f == "square")
                out.sca(malg::square_norm(A));
            else
                out.sca(malg::infinity_norm(A));
        });
    else if (f == "sub")
        onBaseU(TLN{}, a, b, [&](const auto &A) { out.sca(malg::sub_norm(A)); });
    else
        onBaseU(TL5{}, a, b, [&](const auto &A) {
            if (f == "square")
                out.sca(malg::square_norm(A));
            else
                out.sca(malg::infinity_norm(A));
        });
}
PO;

OP("collen")
{
    const std::size_t hi = bound(a["hi"]);
    onWritable(TL5{}, w.box(a["a"]), [&](auto &A) {
        if (hi == inf)
            out.sca(malg::vector_length(A, a["i"].idx(), a["lo"].idx()));
        else
            out.sca(malg::vector_length(A, a["i"].idx(), a["lo"].idx(), hi));
    });
}
PO;

OP("log2ceil")
{
    onBase(TLN{}, w.box(a["a"]), [&](const auto &A) {
        const auto p = malg::log2_ceil(A);
        out.ret(Out::capL({ Out::capI(static_cast<long>(p.first)), Out::capS(p.second) }));
    });
}
PO;

OP("pred")
{
    const std::string f = a["f"].str();
    onBaseU(TL5{}, a, w.box(a["a"]), [&](const auto &A) {
        out.boolean(f == "square"      ? mu::is_square(A)
                    : f == "row"       ? mu::is_row_vector(A)
                    : f == "column"    ? mu::is_column_vector(A)
                    : f == "symmetric" ? mu::is_symmetric(A)
                    : f == "skew"      ? mu::is_skew_symmetric(A)
                    : f == "diagonal"  ? mu::is_diagonal(A)
                    : f == "zero"      ? mu::is_zero(A)
                    : f == "constant"  ? mu::is_constant(A)
                    : f == "identity"  ? mu::is_identity(A)
                    : f == "lower"     ? mu::is_lower_triangular(A)
                    : f == "upper"     ? mu::is_upper_triangular(A)
                                       : throw std::string("harness: predicate ") + f);
    });
}
PO;

OP("fun")
{
    const std::string f = a["f"].str();
    auto go             = [&](const auto &A) {
        using T = elem<std::remove_reference_t<decltype(A[0])>>;
        using R = malg::is_complex_t<T>;
        (void)sizeof(R);
        if (f == "abs")
            keep(w, a, out, malg::abs(A));
        else if (f == "sign")
            keep(w, a, out, malg::sign(A));
        else if (f == "sq")
            keep(w, a, out, malg::element_wise_function(A, [](const T &x) { return x * x; }));
        else if (f == "half")
            keep(w, a, out, malg::element_wise_function(A, [](const T &x) { return static_cast<double>(realOf(x)) * 0.5; }));
        else if (f == "neg")
            keep(w, a, out, malg::element_wise_function(A, [](const T &x) { return realOf(x) < 0; }));
        else if (f == "cplx")
            keep(w, a, out, malg::element_wise_function(A, [](const T &x) { return Z(static_cast<double>(realOf(x)), 1.0); }));
        else
            throw std::string("harness: function ") + f;
    };
    auto parts = [&](const auto &A) {
        if (f == "real")
            keep(w, a, out, malg::real(A));
        else
            keep(w, a, out, malg::imag(A));
    };
    Box &b = w.box(a["a"]);
    if (f == "real" || f == "imag") {
        if (b.k == 'V')
            onVec(TL<Z, C>{}, b, parts);
        else
            onWritable(TL<Z, C>{}, b, parts);
    } else if (b.k == 'V') {
        onVec(TL5{}, b, go);
    } else {
        onBase(TL5{}, b, go);
    }
}
PO;
