// Arithmetic of scalars of mixed types.
#include "ops_arith.hpp"

using namespace hx;

OP("sbin")
{
    const char f = a["f"].ch();
    onScalar(TL5{}, a["x"], [&](const auto x) {
        onScalar(TL5{}, a["y"], [&](const auto y) {
            if constexpr (malg::is_complex_v<decltype(x)> || malg::is_complex_v<decltype(y)>) {
                if (f == '+')
                    out.sca(x + y);
                else if (f == '-')
                    out.sca(x - y);
                else if (f == '*')
                    out.sca(x * y);
                else
                    out.sca(x / y);
            } else {
                throw std::string("harness: no complex scalar");
            }
        });
    });
}
PO;
