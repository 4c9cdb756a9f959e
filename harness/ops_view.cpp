// Window views.
#include "views.hpp"

using namespace hx;
using malg::Range;
using malg::View;

OP("view")
{
    const std::string how = a["how"].str();
    const std::size_t inf = static_cast<std::size_t>(-1);
    auto bound            = [&](const J &x) { return x.num() == 9999 ? inf : x.idx(); };
    const std::size_t r0 = a["r0"].idx(), r1 = bound(a["r1"]), c0 = a["c0"].idx(), c1 = bound(a["c1"]);
    BoxP v = onViewBase(w.box(a["b"]), a["cst"].truth(), true, [&](auto *base) -> BoxP {
        using B = std::remove_pointer_t<decltype(base)>;
        using V = View<B>;
        if (how == "rctor")
            return BoxP(new WBox<V>('W', V(base, Range{ r0, r1 }, Range{ c0, c1 })));
        if (how == "util")
            return BoxP(new WBox<V>('W', malg::utility::view(*base, r0, r1, c0, c1)));
        if (how == "row")
            return BoxP(new WBox<V>('W', malg::utility::row(*base, r0, c0, c1)));
        if (how == "col")
            return BoxP(new WBox<V>('W', malg::utility::col(*base, c0, r0, r1)));
        using M = malg::Matrix<std::remove_const_t<typename B::value_type>>;
        if constexpr (std::is_same_v<std::remove_const_t<B>, M>) {
            if (how == "call")
                return BoxP(new WBox<V>('W', (*base)(Range{ r0, r1 }, Range{ c0, c1 })));
        }
        if (r0 == 0 && r1 == inf && c0 == 0 && c1 == inf)
            return BoxP(new WBox<V>('W', V(base, Range::all(), Range::all())));
        return BoxP(new WBox<V>('W', V(base, r0, r1, c0, c1)));
    });
    w.put(a["a"], std::move(v));
}
PO;

OP("vassign")
{
    static_cast<AnyView &>(w.box(a["a"])).assign(w.box(a["b"]));
}
PO;
OP("vassignlist")
{
    static_cast<AnyView &>(w.box(a["a"])).assignList(a["o"]);
}
PO;
