// Controllability and observability, polynomials, pole placement.
#include "ops_arith.hpp"
#include "malg/control/control.hpp"

#include <sys/wait.h>
#include <unistd.h>

using namespace hx;
namespace mc = malg::control;

OP("blocks")
{
    const bool ctrb = a["f"].str() == "ctrb";
    onWritable(TL5{}, w.box(a["a"]), [&](const auto &A) {
        using T = typename std::decay_t<decltype(A)>::value_type;
        onWritable(TL<T>{}, w.box(a["b"]), [&](const auto &B) {
            if (ctrb)
                keep(w, a, out, mc::ctrb(A, B));
            else
                keep(w, a, out, mc::obsv(A, B));
        });
    });
}
PO;

OP("poly")
{
    Box &b = w.box(a["a"]);
    if (b.k == 'V')
        onVec(TL5{}, b, [&](const auto &A) { keep(w, a, out, mc::poly(A)); });
    else
        onWritable(TL5{}, b, [&](const auto &A) { keep(w, a, out, mc::poly(A)); });
}
PO;

OP("polyreduce")
{
    onVec(TL5{}, w.box(a["a"]), [&](const auto &A) { keep(w, a, out, mc::polyreduce(A)); });
}
PO;

OP("acker")
{
    withT(TLDZ{}, a["A"]["t"].ch(), [&](auto tg) {
        using T = typename decltype(tg)::type;
        const malg::Matrix<T> A = mkM<T>(a["A"]), B = mkM<T>(a["B"]), p = mkM<T>(a["p"]);
        auto call = [&]() -> malg::Matrix<T> {
            return mc::acker(static_cast<const malg::MatrixBase<T> &>(A), static_cast<const malg::MatrixBase<T> &>(B), static_cast<const malg::MatrixBase<T> &>(p));
        };
        if (a.has("prec")) {
            out.mat(call());
            return;
        }
        // The call must end the program with a failure status.
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid < 0)
            throw std::string("harness: fork");
        if (pid == 0) {
            quietExit();
            alarm(30);
            try {
                (void)call();
            } catch (...) {
                _exit(0);
            }
            _exit(0);
        }
        int st = 0;
        if (waitpid(pid, &st, 0) != pid)
            throw std::string("harness: waitpid");
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            fail("the call returns, it must end the program with a failure status");
        if (!WIFEXITED(st) || WEXITSTATUS(st) >= 4)
            fail("the call does not end the program in an orderly way: status " + std::to_string(st));
        out.str("exit");
    });
}
PO;
