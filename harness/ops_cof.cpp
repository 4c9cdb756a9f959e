// Cofactor views.
#include "views.hpp"

using namespace hx;
using malg::CofactorView;

OP("cofview")
{
    BoxP v = onViewBase(w.box(a["b"]), a["cst"].truth(), true, [&](auto *base) -> BoxP {
        using B = std::remove_pointer_t<decltype(base)>;
        using V = CofactorView<B>;
        return BoxP(new WBox<V>('C', V(base, a["p"].idx(), a["q"].idx())));
    });
    w.put(a["a"], std::move(v));
}
PO;
