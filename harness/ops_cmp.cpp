// Comparisons of matrices and vectors.
#include "ops_arith.hpp"

using namespace hx;

namespace
{

template <class X, class Y>
constexpr bool comparable = malg::is_complex_v<X> == malg::is_complex_v<Y> || std::is_floating_point_v<X> || std::is_floating_point_v<Y>;

template <class R>
void put(Out &out, const std::string &red, const R &r)
{
    if (red == "all")
        out.boolean(malg::all(r));
    else if (red == "any")
        out.boolean(malg::any(r));
    else if constexpr (std::is_same_v<R, malg::Matrix<bool>>)
        out.mat(r);
    else
        out.vec(r);
}
template <class T>
using elem = std::remove_const_t<T>;

} // namespace

OP("cmpmm")
{
    const std::string f = a["f"].str(), red = a["red"].str();
    onBaseU(TL5{}, a, w.box(a["a"]), [&](const auto &A) {
        onBaseU(TL5{}, a, w.box(a["b"]), [&](const auto &B) {
            using X = elem<typename std::decay_t<decltype(A)>::value_type>;
            using Y = elem<typename std::decay_t<decltype(B)>::value_type>;
            if constexpr (comparable<X, Y>) {
                if (f == "==")
                    return put(out, red, A == B);
                if (f == "!=")
                    return put(out, red, A != B);
            }
            if constexpr (!malg::is_complex_v<X> && !malg::is_complex_v<Y>) {
                if (f == "<")
                    return put(out, red, A < B);
                if (f == ">")
                    return put(out, red, A > B);
                if (f == "<=")
                    return put(out, red, A <= B);
                if (f == ">=")
                    return put(out, red, A >= B);
            }
            throw std::string("harness: comparison ") + f;
        });
    });
}
PO;

OP("cmpms")
{
    const std::string f = a["f"].str(), red = a["red"].str();
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onScalar(TL5{}, a["sc"], [&](auto b) {
            using X = elem<typename std::decay_t<decltype(A)>::value_type>;
            using Y = decltype(b);
            if constexpr (comparable<X, Y>) {
                if (f == "==")
                    return put(out, red, A == b);
                if (f == "!=")
                    return put(out, red, A != b);
            }
            if constexpr (!malg::is_complex_v<X> && !malg::is_complex_v<Y>) {
                if (f == "<")
                    return put(out, red, A < b);
                if (f == ">")
                    return put(out, red, A > b);
                if (f == "<=")
                    return put(out, red, A <= b);
                if (f == ">=")
                    return put(out, red, A >= b);
            }
            throw std::string("harness: comparison ") + f;
        });
    });
}
PO;

OP("cmpvv")
{
    const std::string f = a["f"].str(), red = a["red"].str();
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) {
            using X = typename elem_of<std::decay_t<decltype(A)>>::type;
            using Y = typename elem_of<std::decay_t<decltype(B)>>::type;
            if constexpr (comparable<X, Y>)
                f == "==" ? put(out, red, A == B) : put(out, red, A != B);
            else
                throw std::string("harness: comparison ") + f;
        });
    });
}
PO;

OP("cmpvs")
{
    const std::string f = a["f"].str(), red = a["red"].str();
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onScalar(TL5{}, a["sc"], [&](auto b) {
            using X = typename elem_of<std::decay_t<decltype(A)>>::type;
            if constexpr (comparable<X, decltype(b)>)
                f == "==" ? put(out, red, A == b) : put(out, red, A != b);
            else
                throw std::string("harness: comparison ") + f;
        });
    });
}
PO;

OP("allany")
{
    const bool all = a["f"].str() == "all";
    auto go        = [&](const auto &x) { out.boolean(all ? malg::all(x) : malg::any(x)); };
    Box &b         = w.box(a["a"]);
    if (b.k == 'V')
        onVec(TL5{}, b, go);
    else
        onBase(TL5{}, b, go);
}
PO;

OP("allclose")
{
    const double q = 1.0 / static_cast<double>(a["q"].num());
    const bool def = a["q"].num() == 10000;
    auto go        = [&](const auto &x, const auto &y) {
        if (def)
            out.boolean(malg::utility::all_close(x, y));
        else
            out.boolean(malg::utility::all_close(x, y, q));
    };
    Box &x = w.box(a["a"]), &y = w.box(a["b"]);
    withT(TL5{}, x.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (x.k == 'V')
            go(vecOf<T>(x), vecOf<T>(y));
        else
            go(*static_cast<malg::MatrixBase<T> *>(x.mb), *static_cast<malg::MatrixBase<T> *>(y.mb));
    });
}
PO;

OP("compare")
{
    Box &x = w.box(a["a"]), &y = w.box(a["b"]);
    withT(TLR{}, x.t, [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (x.k == 'V')
            out.nat(malg::utility::compare(vecOf<T>(x), vecOf<T>(y)));
        else
            out.nat(malg::utility::compare(*static_cast<malg::MatrixBase<T> *>(x.mb), *static_cast<malg::MatrixBase<T> *>(y.mb)));
    });
}
PO;
