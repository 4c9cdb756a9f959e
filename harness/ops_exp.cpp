// Exponentials.
#include "ops_arith.hpp"
#include "malg/linalg.hpp"

using namespace hx;
namespace ml = malg::linalg;

OP("expe")
{
    onBase(TL5{}, w.box(a["a"]), [&](const auto &A) { out.mat(ml::exp(A)); });
}
PO;

OP("expm")
{
    const double acc = std::pow(10.0, -static_cast<double>(a["acc"].num()));
    onWritable(TLDZ{}, w.box(a["a"]), [&](const auto &A) { out.mat(ml::expm(A, acc)); });
}
PO;
