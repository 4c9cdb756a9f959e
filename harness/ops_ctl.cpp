// State-space models.
#include "ops_arith.hpp"
#include "malg/control/control.hpp"

using namespace hx;
namespace mc = malg::control;

namespace
{
template <class T>
bool identical(const malg::Matrix<T> &x, const malg::Matrix<T> &y)
{
    if (x.rows() != y.rows() || x.cols() != y.cols())
        return false;
    for (std::size_t i = 0; i < x.size(); ++i)
        if (x[i] != y[i])
            return false;
    return true;
}
template <class T>
bool identical(const malg::Vector<T> &x, const malg::Vector<T> &y)
{
    if (x.size() != y.size())
        return false;
    for (std::size_t i = 0; i < x.size(); ++i)
        if (x[i] != y[i])
            return false;
    return true;
}
template <class T, class S>
void unchanged(const S &sys, const J &a)
{
    if (!identical(sys.A, mkM<T>(a["A"])) || !identical(sys.B, mkM<T>(a["B"])) || !identical(sys.C, mkM<T>(a["C"])) || !identical(sys.D, mkM<T>(a["D"])))
        fail("the given system changed");
}
template <class T>
malg::Vector<T> vecFrom(const J &e)
{
    malg::Vector<T> v(e.size());
    for (std::size_t i = 0; i < e.size(); ++i)
        v[i] = toT<T>(e.at(i));
    return v;
}
} // namespace

OP("c2d")
{
    withT(TLDZ{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        const mc::StateSpace<T> sys(mkM<T>(a["A"]), mkM<T>(a["B"]), mkM<T>(a["C"]), mkM<T>(a["D"]));
        const auto d = mc::c2d(sys, toT<T>(a["st"]));
        unchanged<T>(sys, a);
        out.ret(Out::capL({ Out::capM(d.A), Out::capM(d.B), Out::capM(d.C), Out::capM(d.D), Out::capS(d.sample_time) }));
    });
}
PO;

OP("simstep")
{
    withT(TL<float, double>{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        const mc::DiscreteStateSpace<T> sys(mkM<T>(a["A"]), mkM<T>(a["B"]), mkM<T>(a["C"]), mkM<T>(a["D"]), toT<T>(a["st"]));
        const malg::Vector<T> x = vecFrom<T>(a["x"]), u = vecFrom<T>(a["u"]);
        const auto p = mc::simulate_step(sys, x, u);
        unchanged<T>(sys, a);
        if (!identical(x, vecFrom<T>(a["x"])) || !identical(u, vecFrom<T>(a["u"])))
            fail("the given state or input changed");
        out.ret(Out::capL({ Out::capV(p.first), Out::capV(p.second) }));
    });
}
PO;

OP("simulate")
{
    withT(TL<float, double>{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        const mc::DiscreteStateSpace<T> sys(mkM<T>(a["A"]), mkM<T>(a["B"]), mkM<T>(a["C"]), mkM<T>(a["D"]), toT<T>(a["st"]));
        const malg::Vector<T> x = vecFrom<T>(a["x"]);
        std::vector<malg::Vector<T>> u;
        for (auto &e : a["us"].a)
            u.push_back(vecFrom<T>(e));
        const auto r = mc::simulate(sys, u, toT<T>(a["time"]), x);
        unchanged<T>(sys, a);
        if (!identical(x, vecFrom<T>(a["x"])))
            fail("the initial state changed");
        for (std::size_t i = 0; i < u.size(); ++i)
            if (!identical(u[i], vecFrom<T>(a["us"].at(i))))
                fail("an input changed");
        Obj t, xs, ys;
        t.k = 'V', t.t = code<T>(), t.r = 1, t.c = std::get<0>(r).size();
        for (auto &v : std::get<0>(r))
            t.e.push_back(fromT(v));
        xs.k = ys.k = 'L';
        for (auto &v : std::get<1>(r))
            xs.l.push_back(Out::capV(v));
        for (auto &v : std::get<2>(r))
            ys.l.push_back(Out::capV(v));
        out.ret(Out::capL({ t, xs, ys }));
    });
}
PO;

OP("syszero")
{
    withT(TL<float, double>{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        const mc::StateSpace<T> sys(mkM<T>(a["A"]), mkM<T>(a["B"]), mkM<T>(a["C"]), mkM<T>(a["D"]));
        out.ret(Out::capL({ Out::capV(mc::generate_input_zero(sys)), Out::capV(mc::generate_state_zero(sys)) }));
    });
}
PO;
