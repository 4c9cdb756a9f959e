// The tolerance and the scalar comparisons, as seen from one translation unit (HX_TU).
#include "core.hpp"

using namespace hx;

namespace
{
const bool registered = [] {
    resets().push_back([] { malg::feq::tolerance() = 1e-06; });
    return true;
}();
} // namespace

OP("settol" HX_TU)
{
    malg::feq::tolerance() = static_cast<double>(a["q"].at(0).num()) / static_cast<double>(a["q"].at(1).num());
}
PO;
OP("gettol" HX_TU)
{
    out.sca(static_cast<double>(malg::feq::tolerance()));
}
PO;
OP("feq" HX_TU)
{
    const std::string f = a["f"].str();
    onScalar(TL5{}, a["x"], [&](auto x) {
        onScalar(TL5{}, a["y"], [&](auto y) {
            using X = decltype(x);
            using Y = decltype(y);
            if (f == "zero")
                return out.boolean(malg::feq::approximately_equal_to_zero(x));
            if constexpr (malg::is_complex_v<X> == malg::is_complex_v<Y>) {
                if (f == "eq")
                    return out.boolean(malg::feq::approximately_equal(x, y));
                if constexpr (!malg::is_complex_v<X>) {
                    if (f == "le")
                        return out.boolean(malg::feq::approximately_lesser_than_equal(x, y));
                    if (f == "ge")
                        return out.boolean(malg::feq::approximately_greater_than_equal(x, y));
                }
            }
            throw std::string("harness: scalar comparison ") + f;
        });
    });
}
PO;
