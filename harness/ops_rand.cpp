// Random matrices and vectors: what comes back is logged for RandTrace.
#include "core.hpp"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <malg/utility.hpp>

using namespace hx;

namespace
{
std::string quote(const J &q)
{
    return "[" + std::to_string(q.at(0).num()) + "," + std::to_string(q.at(1).num()) + "," + std::to_string(q.at(2).num()) + "]";
}
template <class T>
struct Parts {
    static void add(std::vector<T> &v, const T &x) { v.push_back(x); }
};
template <class T>
struct Parts<std::complex<T>> {
    static void add(std::vector<T> &v, const std::complex<T> &x) { v.push_back(x.real()), v.push_back(x.imag()); }
};
template <class T, class X>
auto partsOf(const X &m)
{
    if constexpr (malg::is_complex_v<T>) {
        std::vector<typename T::value_type> v;
        for (std::size_t i = 0; i < m.size(); ++i)
            Parts<T>::add(v, m[i]);
        return v;
    } else {
        std::vector<T> v;
        for (std::size_t i = 0; i < m.size(); ++i)
            v.push_back(m[i]);
        return v;
    }
}
template <class T>
std::string result(const std::vector<T> &v, char t, std::size_t r, std::size_t c, bool cplx)
{
    std::string lo, hi;
    bool same = true, partsame = true, rowsame = false;
    for (std::size_t i = 0; i < v.size(); ++i) {
        long l, h;
        if constexpr (std::is_integral_v<T>) {
            l = h = static_cast<long>(v[i]);
        } else {
            double x = static_cast<double>(v[i]) * 256;
            if (!(std::fabs(x) < 1e9))
                x = x > 0 ? 1e9 : -1e9; // beyond every range (or not a number)
            l = static_cast<long>(std::floor(x)), h = static_cast<long>(std::ceil(x));
        }
        lo += (i ? "," : "") + std::to_string(l);
        hi += (i ? "," : "") + std::to_string(h);
        same = same && v[i] == v[0];
        if (cplx)
            partsame = partsame && (i % 2 == 0 || v[i] == v[i - 1]);
    }
    // two successive rows that are equal
    const std::size_t w = r ? v.size() / r : 0;
    for (std::size_t i = 1; i < r && w >= 4; ++i)
        rowsame = rowsame || std::equal(v.begin() + static_cast<long>(i * w), v.begin() + static_cast<long>((i + 1) * w), v.begin() + static_cast<long>((i - 1) * w));
    auto b = [](bool x) { return x ? "true" : "false"; };
    return std::string("{\"t\":\"") + t + "\",\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + ",\"lo\":[" + lo + "],\"hi\":[" + hi +
           "],\"same\":" + b(same) + ",\"partsame\":" + b(partsame) + ",\"rowsame\":" + b(rowsame) + "}";
}
template <class T>
struct Elem;
template <class T>
struct Elem<malg::Matrix<T>> {
    using type = T;
    static std::size_t r(const malg::Matrix<T> &m) { return m.rows(); }
    static std::size_t c(const malg::Matrix<T> &m) { return m.cols(); }
};
template <class T>
struct Elem<malg::Vector<T>> {
    using type = T;
    static std::size_t r(const malg::Vector<T> &) { return 1; }
    static std::size_t c(const malg::Vector<T> &m) { return m.size(); }
};
template <class M>
void log(const J &a, const M &x, const M &y)
{
    using E         = Elem<M>;
    using T         = typename E::type;
    const char *out = std::getenv("HX_TRACE");
    if (!out)
        return;
    const auto v = partsOf<T>(x), w = partsOf<T>(y);
    std::string l = std::string("{\"a\":{\"vec\":") + (a["vec"].truth() ? "true" : "false") + ",\"t\":\"" + a["t"].str() + "\",\"r\":" + std::to_string(a["r"].num()) +
                    ",\"c\":" + std::to_string(a["c"].num()) + ",\"lo\":" + quote(a["lo"]) + ",\"hi\":" + quote(a["hi"]) + "},\"first\":" +
                    result(v, code<T>(), E::r(x), E::c(x), malg::is_complex_v<T>) + ",\"second\":" + result(w, code<T>(), E::r(y), E::c(y), malg::is_complex_v<T>) +
                    ",\"repeated\":" + (v == w ? "true" : "false") + "}\n";
    std::FILE *f = std::fopen(out, "a");
    if (!f)
        throw std::string("harness: the trace cannot be written");
    std::fputs(l.c_str(), f);
    std::fclose(f);
}
} // namespace

OP("rand")
{
    const std::size_t r = a["r"].idx(), c = a["c"].idx();
    withT(TL5{}, a["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        withT(TLR{}, a["tb"].ch(), [&](auto tb) {
            using B    = typename decltype(tb)::type;
            const B lo = toT<B>(a["lo"]), hi = toT<B>(a["hi"]);
            if (a["vec"].truth()) {
                const auto x = malg::utility::rand_vector<T>(c, lo, hi);
                const auto y = malg::utility::rand_vector<T>(c, lo, hi);
                log(a, x, y);
            } else {
                const auto x = malg::utility::rand_matrix<T>(r, c, lo, hi);
                const auto y = malg::utility::rand_matrix<T>(r, c, lo, hi);
                log(a, x, y);
            }
        });
    });
}
PO;
