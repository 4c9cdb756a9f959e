// Eigenvalues.
#include "ops_arith.hpp"
#include "malg/eigen.hpp"
#include "malg/eigen.hpp" // it can be included twice

#include <algorithm>

using namespace hx;
namespace me = malg::eigen;

namespace
{
using Z  = std::complex<double>;
using L  = std::complex<long double>;
using MZ = malg::Matrix<Z>;

// Products in long double, without the library.
struct Dense {
    std::size_t r, c;
    std::vector<L> e;
    Dense(std::size_t _r, std::size_t _c) : r(_r), c(_c), e(_r * _c) {}
    explicit Dense(const MZ &m) : Dense(m.rows(), m.cols())
    {
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < c; ++j)
                at(i, j) = L(m(i, j).real(), m(i, j).imag());
    }
    L &at(std::size_t i, std::size_t j) { return e[i * c + j]; }
    const L &at(std::size_t i, std::size_t j) const { return e[i * c + j]; }
    Dense operator*(const Dense &o) const
    {
        if (c != o.r)
            fail("the factors do not fit: " + std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(o.r) + "x" + std::to_string(o.c));
        Dense q(r, o.c);
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < o.c; ++j)
                for (std::size_t k = 0; k < c; ++k)
                    q.at(i, j) += at(i, k) * o.at(k, j);
        return q;
    }
    Dense adjoint() const
    {
        Dense q(c, r);
        for (std::size_t i = 0; i < r; ++i)
            for (std::size_t j = 0; j < c; ++j)
                q.at(j, i) = std::conj(at(i, j));
        return q;
    }
    Obj obj() const
    {
        Obj o;
        o.k = 'M', o.t = 'z', o.r = r, o.c = c;
        for (const L &x : e)
            o.e.push_back({ x.real(), x.imag() });
        return o;
    }
};

Obj vec(const std::vector<L> &v)
{
    Obj o;
    o.k = 'V', o.t = 'z', o.r = 1, o.c = v.size();
    for (const L &x : v)
        o.e.push_back({ x.real(), x.imag() });
    return o;
}

Obj flag(bool b)
{
    return Out::capB(b);
}

// The elements more than d below the diagonal.
Obj below(const MZ &m, std::size_t d)
{
    std::vector<L> v;
    for (std::size_t i = 0; i < m.rows(); ++i)
        for (std::size_t j = 0; j < m.cols() && j + d < i; ++j)
            v.emplace_back(m(i, j).real(), m(i, j).imag());
    return vec(v);
}

struct Operand {
    const int e;
    const MZ tmp;
    const MZ &m;
    Operand(World &w, const J &a) : e(unitOf(a)), tmp(e ? inUnits(matOf<Z>(w.box(a["a"])), e) : MZ()), m(e ? tmp : matOf<Z>(w.box(a["a"]))) {}
};
} // namespace

OP("hess")
{
    const Operand A(w, a);
    const auto p = me::hessenberg(A.m);
    const Dense P(p.first), H(p.second);
    out.ret(Out::capL({ (P.adjoint() * P).obj(), (P * H * P.adjoint()).obj(), below(p.second, 1) }));
}
PO;

OP("givens")
{
    const Operand A(w, a);
    const auto p = me::qr_factorise_givens(A.m);
    const Dense Q(p.first), R(p.second);
    out.ret(Out::capL({ (Q.adjoint() * Q).obj(), (Q * R).obj(), below(p.second, 0) }));
}
PO;

OP("schur")
{
    const Operand A(w, a);
    const auto p = me::QRHessenberg(A.m);
    const Dense Q(p.first), T(p.second);
    std::vector<L> v;
    if (a["eig"].truth()) {
        for (std::size_t i = 0; i < T.r; ++i)
            v.push_back(T.at(i, i));
        // The eigenvalues that occur are multiples of a quarter.
        auto q = [](long double x) { return std::llround(4 * x); };
        std::sort(v.begin(), v.end(), [&](const L &x, const L &y) {
            return q(x.real()) != q(y.real()) ? q(x.real()) < q(y.real()) : q(x.imag()) < q(y.imag());
        });
    }
    out.ret(Out::capL({ (Q.adjoint() * Q).obj(), (Q * T * Q.adjoint()).obj(), below(p.second, 0), vec(v) }));
}
PO;

OP("eigvec")
{
    const Operand A(w, a);
    const MZ &M       = A.m;
    const auto p      = me::eigenvectorUpper(M);
    const Dense T(M), E(p.first);
    Dense res = T * E;
    bool ok = E.r == T.r && E.c == T.c, full = true;
    for (std::size_t j = 0; ok && j < E.c; ++j) {
        long double len = 0;
        for (std::size_t i = 0; i < E.r; ++i) {
            res.at(i, j) -= E.at(i, j) * T.at(j, j);
            len += std::norm(E.at(i, j));
            ok = ok && (i <= j || E.at(i, j) == L(0));
        }
        const bool none = len == 0;
        full            = full && !none;
        ok              = ok && (none || (std::fabs(len - 1) < 1e-12L && std::abs(E.at(j, j)) > 1e-9L));
    }
    ok = ok && full == p.second;
    out.ret(Out::capL({ res.obj(), flag(ok), flag(p.second) }));
}
PO;
