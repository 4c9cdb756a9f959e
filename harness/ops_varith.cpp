// Element-wise arithmetic of vectors.
#include "ops_arith.hpp"

using namespace hx;

OP("vbin")
{
    const char f = a["f"].ch();
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) {
            if (f == '+')
                keep(w, a, out, A + B);
            else if (f == '-')
                keep(w, a, out, A - B);
            else
                keep(w, a, out, A * B);
        });
    });
}
PO;

OP("vinp")
{
    const char f = a["f"].ch();
    onVec(TL5{}, w.box(a["a"]), [&](auto &A) {
        onVec(TL5{}, w.box(a["b"]), [&](const auto &B) {
            using T = typename elem_of<std::decay_t<decltype(A)>>::type;
            using S = typename elem_of<std::decay_t<decltype(B)>>::type;
            if constexpr (convertible<S, T>) {
                if (f == '+')
                    sameRef(A += B, A, "+=");
                else
                    sameRef(A -= B, A, "-=");
            } else {
                throw std::string("harness: types of an in-place operation");
            }
        });
    });
}
PO;

OP("vscal")
{
    const char f   = a["f"].ch();
    const bool lft = a["side"].ch() == 'l';
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) {
        auto go = [&](const auto &x) {
            if (f == '+')
                keep(w, a, out, A + x);
            else if (f == '-')
                keep(w, a, out, A - x);
            else if (f == '*' && lft)
                keep(w, a, out, x * A);
            else if (f == '*')
                keep(w, a, out, A * x);
            else
                keep(w, a, out, A / x);
        };
        if (a["own"].num() >= 0)
            go(A[a["own"].idx()]);
        else
            onScalar(TL5{}, a["sc"], [&](auto x) { go(x); });
    });
}
PO;

OP("vscalinp")
{
    const char f = a["f"].ch();
    onVec(TL5{}, w.box(a["a"]), [&](auto &A) {
        using T = typename elem_of<std::decay_t<decltype(A)>>::type;
        auto go = [&](auto &x) {
            if (f == '+')
                sameRef(A += x, A, "+=");
            else if (f == '-')
                sameRef(A -= x, A, "-=");
            else if (f == '*')
                sameRef(A *= x, A, "*=");
            else
                sameRef(A /= x, A, "/=");
        };
        if (a["own"].num() >= 0)
            go(A[a["own"].idx()]);
        else
            onScalar(TL5{}, a["sc"], [&](auto x) {
                if constexpr (convertible<decltype(x), T>)
                    go(x);
                else
                    throw std::string("harness: types of an in-place operation");
            });
    });
}
PO;
