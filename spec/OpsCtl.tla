------------------------------- MODULE OpsCtl --------------------------------
(* State-space models: discretisation, simulation, controllability and
   observability, polynomials, pole placement.                              *)
EXTENDS OpsLin

IntM(t, r, c, b) == MObj(t, [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |-> SmallInt(b)])])
CtlTypes == {t \in Types : t \in {"f", "d"}}

(* Zero-order hold: A_d = exp(A T), B_d = inv(A) (A_d - I) B. *)
C2dTypes == {t \in Types : t \in {"d", "z"}}
InvertibleBs(t, k) == LET bs == Blocks(t, k)
                      IN  [i \in 1..Len(bs) |-> IF bs[i].kind = "rot" THEN bs[i] ELSE IF bs[i].x = Zero THEN [bs[i] EXCEPT !.x = Int2Q(-1)] ELSE bs[i]]
(* The inverse of the block-diagonal matrix, exact. *)
DetJ(m) == Det(m)
SymSum(ts) == IF ts = <<>> THEN Zero ELSE <<"sum">> \o ts
ActC2d ==
    \E t \in Pick(C2dTypes), k \in Pick(1..3), q \in Pick(1..3), p \in Pick(1..2), st \in Pick({One, Q(1, 0, 2), Q(1, 0, 4), Q(1, 0, 10), Int2Q(2)}) :
    \E bs \in {InvertibleBs(t, k)} :
    \E w0 \in {WithBasis(bs, k, MulM(UnitTri(k, TRUE), UnitTri(k, FALSE)))} :
    \E w \in {IF Within(w0.m.e, 12, 4) THEN w0 ELSE WithBasis(bs, k, Eye(k))} :
    \E j \in {JordanM(bs, k)} :
    \E ai \in {LET dj == Det(j) F(x) == Div(x, dj) IN MulM(MulM(w.p, MapE(AdjM(j), F)), w.pi)} :
    \E b \in {IntM(t, k, q, 3)}, c \in {IntM(t, p, k, 5)}, d \in {IntM(t, p, q, 2)} :
    \E ad \in {ExpJ(bs, k, w.p, w.pi, st)} :
    \E aib \in {MulM(ai, b)} :
    LET F(i, l) == LET ts == SelectSeq([n1 \in 1..(k * k) |-> <<Mul(El(ai, i, (n1 - 1) \div k), El(b, (n1 - 1) % k, l)), (n1 - 1) \div k, (n1 - 1) % k>>], LAMBDA x : x[1] # Zero)
                   IN  <<"sum">> \o [n2 \in 1..Len(ts) |-> <<"mul", ts[n2][1], El(ad, ts[n2][2], ts[n2][3])>>] \o <<Neg(El(aib, i, l))>>
    IN  Do([op |-> "c2d", t |-> t, A |-> MObj(t, w.m), B |-> b, C |-> c, D |-> d, st |-> st, prec |-> 3], store,
           Ret(store, RList(<<RMat(t, ad), RMat(t, Mk(k, q, F)), RMat(t, c), RMat(t, d), RSca(t, st)>>)))

(* A discrete system with small elements, and its steps. *)
HalfInt == RandomElement({Zero, One, Int2Q(-1), Q(1, 0, 2), Q(-1, 0, 2)})
SysObj(t, k, q, p) ==
    [A |-> MObj(t, [r |-> k, c |-> k, e |-> TLCEval([i \in 1..(k * k) |-> HalfInt])]), B |-> IntM(t, k, q, 2),
     C |-> IntM(t, p, k, 2), D |-> IntM(t, p, q, 2)]
StepX(sy, x, u) == AddM(MulM(sy.A, x), MulM(sy.B, u))
StepY(sy, x, u) == AddM(MulM(sy.C, x), MulM(sy.D, u))
ActSimStep ==
    \E t \in Pick(CtlTypes), k \in Pick(1..4), q \in Pick(1..3), p \in Pick(1..3) :
    \E sy \in {SysObj(t, k, q, p)} :
    \E x \in {IntM(t, k, 1, 4)}, u \in {IntM(t, q, 1, 3)} :
        Do([op |-> "simstep", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D, st |-> One, x |-> x.e, u |-> u.e], store,
           Ret(store, RList(<<RVec(t, StepX(sy, x, u).e), RVec(t, StepY(sy, x, u).e)>>)))
RECURSIVE Run(_, _, _, _)
Run(sy, us, xs, ys) == IF us = <<>> THEN [xs |-> xs, ys |-> ys]
                       ELSE LET x == xs[Len(xs)] IN Run(sy, Tail(us), Append(xs, StepX(sy, x, us[1])), Append(ys, StepY(sy, x, us[1])))
ActSimulate ==
    \E t \in Pick(CtlTypes), k \in Pick(1..3), q \in Pick(1..2), p \in Pick(1..2), nu \in Pick(0..6), st \in Pick({One, Q(1, 0, 2), Q(1, 0, 4), Q(3, 0, 4), Q(5, 0, 2)}) :
    \E whole \in Bias(70, 0..nu, 0..8), frac \in Pick({Zero, Zero, Q(1, 0, 2), Q(1, 0, 8), Q(7, 0, 8)}) :
    \E sy \in {SysObj(t, k, q, p)} :
    \E x \in {IntM(t, k, 1, 4)} :
    \E us \in {TLCEval([i \in 1..nu |-> IntM(t, q, 1, 3)])} :
    \E steps \in {Min2(nu, whole)} :
    \E rn \in {Run(sy, SubSeq(us, 1, steps), <<x>>, <<>>)} :
        Do([op |-> "simulate", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D, st |-> st, x |-> x.e, us |-> [i \in 1..nu |-> us[i].e],
            time |-> Mul(Add(Int2Q(whole), frac), st)], store,
           Ret(store, RList(<<RVec(t, [i \in 1..(steps + 1) |-> Mul(Int2Q(i - 1), st)]),
                              RList([i \in 1..(steps + 1) |-> RVec(t, rn.xs[i].e)]), RList([i \in 1..steps |-> RVec(t, rn.ys[i].e)])>>)))
ActZeros ==
    \E t \in Pick(CtlTypes), k \in Pick(1..5), q \in Pick(1..5), p \in Pick(1..3) :
    \E sy \in {SysObj(t, k, q, p)} :
        Do([op |-> "syszero", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D], store,
           Ret(store, RList(<<RVec(t, ZeroM(1, q).e), RVec(t, ZeroM(1, k).e)>>)))

-----------------------------------------------------------------------------
RECURSIVE StackPow(_, _, _, _, _)
StackPow(f, a, b, acc, i) ==    \* b: the last block
    IF i >= a.r THEN acc
    ELSE LET x == IF f = "ctrb" THEN MulM(a, b) ELSE MulM(b, a) IN StackPow(f, a, x, IF f = "ctrb" THEN HStack(acc, x) ELSE VStack(acc, x), i + 1)
BlocksOf(f, a, b) == StackPow(f, a, b, b, 1)
CtlFit(m) == m.r <= 5 /\ m.r >= 1 /\ m.c >= 1 /\ (Within(m.e, 3, 1) \/ (m.r <= 3 /\ Within(m.e, 6, 2) /\ AllReal(m)))
CtlSq(t, m) == CtlFit(m)
CtlM(t, r, c) == MObj(t, [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |->
                    IF IsCplx(t) THEN Add(SmallInt(1), Mul(ImU, SmallInt(1))) ELSE IF r <= 3 /\ t # "i" /\ RandomElement(1..3) = 1 THEN Q(RandomElement(-3..3), 0, 2) ELSE SmallInt(2)])])
WrSq(s, ts) == {x \in MatLike(s) : s[x].t \in ts /\ Writable(s, x) /\ LET m == Val(s, x) IN m.r = m.c /\ CtlFit(m)}
ActBlocks ==
    \E f \in Pick({"ctrb", "obsv"}) :
    \E sq \in Coin(92) :
    \E a \in (IF sq THEN PickOp(40, store, WrSq(store, Types), FreeM(store), UNION {{CtlM(t, k, k)} : t \in Pick(Types), k \in Pick(1..4)})
              ELSE PickOp(50, store, {x \in NotSquare(store) : Writable(store, x)}, FreeM(store), NewOblong)) :
    \E m \in {TVal(a.s, a.x)} :
    \E k \in Bias(88, {m.r}, {m.r + 1, Max2(1, m.r - 1), m.c}) :
    \E b \in PickOp(40, a.s, {x \in MatLike(a.s) : a.s[x].t = m.t /\ Writable(a.s, x) /\ LET o == Val(a.s, x) IN (IF f = "ctrb" THEN o.r ELSE o.c) = k /\ o.c <= 6 /\ CtlFit(o)},
                    FreeM(a.s) \ {a.x}, UNION {{IF f = "ctrb" THEN CtlM(m.t, k, l) ELSE CtlM(m.t, l, k)} : l \in Pick(1..3)}) :
    \E o \in {TVal(b.s, b.x)} :
        IF m.r = m.c /\ (IF f = "ctrb" THEN o.r ELSE o.c) = m.r
        THEN \E q \in {BlocksOf(f, m, o)} : \E d \in DestM(b.s, q) :
             Do([op |-> "blocks", f |-> f, a |-> a.x, b |-> b.x, d |-> d], b.s, EffM(b.s, d, m.t, q))
        ELSE Do([op |-> "blocks", f |-> f, a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))

-----------------------------------------------------------------------------
(* Polynomials. *)
PolyFit(e) == (Len(e) <= 3 /\ Within(e, 16, 2)) \/ (Len(e) <= 5 /\ Within(e, 8, 2)) \/ (Len(e) <= 7 /\ Within(e, 5, 2))
PolyVec(t) == LET k == RandomElement(0..6) IN
    VObj(t, TLCEval([i \in 1..k |-> IF IsCplx(t) THEN Add(SmallInt(2), Mul(ImU, SmallInt(2))) ELSE IF t # "i" /\ RandomElement(1..3) = 1 THEN Q(RandomElement(-5..5), 0, 2) ELSE SmallInt(4)]))
ActPolyV ==
    \E a \in PickOp(30, store, {x \in Vecs(store) : PolyFit(store[x].e)}, FreeV(store), UNION {{PolyVec(t)} : t \in Pick(Types)}) :
    \E o \in {a.s[a.x]} :
    \E q \in {[r |-> 1, c |-> o.c + 1, e |-> PolyRoots(o.e)]} : \E d \in DestV(a.s, q) :
        Do([op |-> "poly", a |-> a.x, d |-> d], a.s, EffV(a.s, d, o.t, q))
CharFit(m) == m.r <= 5 /\ (IF m.r <= 2 THEN Within(m.e, 16, 4) ELSE IF m.r = 3 THEN Within(m.e, 8, 2) ELSE Within(m.e, 4, 1))
(* Faddeev-LeVerrier divides the trace: exact only for real and Gaussian. *)
ActPolyM ==
    \E g \in Pick({"row", "col", "sq", "sq", "bad", "empty"}) :
    \E k \in Pick(1..5) :
    \E a \in (CASE g = "sq"  -> PickOp(40, store, {x \in MatLike(store) : Writable(store, x) /\ LET m == Val(store, x) IN m.r = m.c /\ CharFit(m)}, FreeM(store),
                                       UNION {{CtlM(t, k, k)} : t \in Pick(Types)})
                [] g = "row" -> PickOp(30, store, {x \in MatLike(store) : Writable(store, x) /\ LET m == Val(store, x) IN m.r = 1 /\ PolyFit(m.e)}, FreeM(store),
                                       UNION {{CtlM(t, 1, k)} : t \in Pick(Types)})
                [] g = "col" -> PickOp(30, store, {x \in MatLike(store) : Writable(store, x) /\ LET m == Val(store, x) IN m.c = 1 /\ PolyFit(m.e)}, FreeM(store),
                                       UNION {{CtlM(t, k, 1)} : t \in Pick(Types)})
                [] g = "empty" -> PickOp(90, store, {x \in Mats(store) : Size(store[x]) = 0}, FreeM(store), {MObj(t, EmptyM) : t \in Pick(Types)})
                [] OTHER     -> PickOp(50, store, {x \in NotSquare(store) : Writable(store, x) /\ LET m == Val(store, x) IN m.r >= 2 /\ m.c >= 2}, FreeM(store),
                                       UNION {{CtlM(t, 2, 3)} : t \in Pick(Types)} \cup {})) :
    \E m \in {TVal(a.s, a.x)} :
        IF Size(m) # 0 /\ m.r >= 2 /\ m.c >= 2 /\ m.r # m.c THEN Do([op |-> "poly", a |-> a.x, d |-> ""], a.s, Thr(a.s))
        ELSE \E e \in {IF m.r = 1 \/ m.c = 1 \/ Size(m) = 0 THEN PolyRoots(m.e) ELSE CharPoly(m)} :
             \E q \in {[r |-> 1, c |-> Len(e), e |-> e]} : \E d \in (IF m.r <= 2 \/ m.t \in {"i", "d"} THEN DestV(a.s, q) ELSE {""}) :
             Do([op |-> "poly", a |-> a.x, d |-> d], a.s, EffV(a.s, d, m.t, q))
RECURSIVE Strip(_)
Strip(e) == IF e = <<>> THEN <<Zero>> ELSE IF e[1] # Zero THEN e ELSE Strip(Tail(e))
ZeroLed(t, z, k) == VObj(t, TLCEval([i \in 1..(z + k) |-> IF i <= z THEN Zero ELSE IF RandomElement(1..3) = 1 THEN Zero ELSE RandVal(t)]))
ActPolyReduce ==
    \E a \in PickOp(30, store, Plain(store, Vecs(store)), FreeV(store), UNION {{ZeroLed(t, z, k)} : t \in Pick(Types), z \in Pick(0..4), k \in Pick(0..4)}) :
    \E o \in {a.s[a.x]} :
    \E q \in {[r |-> 1, c |-> Len(Strip(o.e)), e |-> Strip(o.e)]} : \E d \in DestV(a.s, q) :
        Do([op |-> "polyreduce", a |-> a.x, d |-> d], a.s, EffV(a.s, d, o.t, q))

(* Pole placement (Ackermann). *)
AckTypes == {t \in Types : t \in {"d", "z"}}
PoleV(t, k) == MObj(t, [r |-> 1, c |-> k, e |-> TLCEval([i \in 1..k |-> IF IsCplx(t) THEN Add(SmallInt(2), Mul(ImU, SmallInt(1))) ELSE IF RandomElement(1..3) = 1 THEN Q(RandomElement(-3..3), 0, 2) ELSE SmallInt(3)])])
ActAcker ==
    \E t \in Pick(AckTypes), g \in Pick({"good", "good", "good", "good", "good", "unreach", "oblong", "brows", "bcols", "prow", "pfew", "pmany"}) :
    \E k \in Pick(IF IsCplx(t) THEN 1..2 ELSE 1..3) :
    \E a0 \in {IF g = "oblong" THEN CtlM(t, k, k + 1) ELSE IF k = 3 THEN IntM(t, k, k, 2) ELSE CtlM(t, k, k)} :
    \E b0 \in {IF g = "brows" THEN IntM(t, k + 1, 1, 2) ELSE IF g = "bcols" THEN IntM(t, k, 2, 2) ELSE IntM(t, k, 1, 2)} :
    (* not reachable: the last state is not driven by anything *)
    \E a \in {LET F(i, j) == IF g = "unreach" /\ i = k - 1 /\ j < k - 1 THEN Zero ELSE El(a0, i, j) IN MObj(t, Mk(a0.r, a0.c, F))} :
    \E b \in {LET F(i, j) == IF g = "unreach" /\ i = k - 1 THEN Zero ELSE El(b0, i, j) IN MObj(t, Mk(b0.r, b0.c, F))} :
    \E p \in {IF g = "prow" THEN (LET v == PoleV(t, k + 1) IN MObj(t, ColM(v.e))) ELSE PoleV(t, IF g = "pfew" THEN k - 1 ELSE IF g = "pmany" THEN k + 1 ELSE k)} :
    \E ok \in {a.r = a.c /\ b.c = 1 /\ a.r = b.r /\ p.r = 1 /\ p.c = a.r} :
    \E ct \in {IF ok THEN BlocksOf("ctrb", a, b) ELSE EmptyM} :
    \E dt \in {IF ok THEN Det(ct) ELSE Zero} :
        IF dt = Zero THEN Do([op |-> "acker", A |-> a, B |-> b, p |-> p], store, Ret(store, RStr("exit")))
        ELSE LET ad == AdjM(ct)
                 last == SubMat(ad, k - 1, k, 0, k)
                 kk == MulM(last, PolyAtM(PolyRoots(p.e), a))
                 F(x) == Div(x, dt)
             IN  Do([op |-> "acker", A |-> a, B |-> b, p |-> p, prec |-> 9], store, Ret(store, RMat(t, MapE(kk, F))))

-----------------------------------------------------------------------------
LawCtl ==
    LET o == out' IN
    /\ o.op = "blocks" /\ o.ok /\ o.a.f = "ctrb" =>
          LET m == Arg(o.a.a)  b == Arg(o.a.b)  q == b.c IN
          \A i \in 0..(m.r - 1) : SubMat(o.res, 0, m.r, i * q, (i + 1) * q).e = MulM(PowM(m, i), b).e
    /\ o.op = "blocks" /\ o.ok /\ o.a.f = "obsv" =>
          LET m == Arg(o.a.a)  b == Arg(o.a.b)  q == b.r IN
          \A i \in 0..(m.r - 1) : SubMat(o.res, i * q, (i + 1) * q, 0, m.r).e = MulM(b, PowM(m, i)).e
    (* two systems that are each other's transpose *)
    /\ o.op = "blocks" /\ o.ok => LET m == Arg(o.a.a)  b == Arg(o.a.b) IN
          o.res.e = TransposeM(BlocksOf(IF o.a.f = "ctrb" THEN "obsv" ELSE "ctrb", TransposeM(m), TransposeM(b))).e
(* Horner. *)
RECURSIVE PolyAt(_, _)
PolyAt(p, x) == IF Len(p) = 1 THEN p[1] ELSE Add(Mul(PolyAt(SubSeq(p, 1, Len(p) - 1), x), x), p[Len(p)])
LawPoly ==
    LET o == out' IN
    /\ o.op = "poly" /\ o.ok => LET m == Arg(o.a.a) IN
          /\ o.res.e[1] = One
          /\ (m.r = 1 \/ m.c = 1) /\ Len(m.e) <= 4 => \A i \in 1..Len(m.e) : PolyAt(o.res.e, m.e[i]) = Zero
          /\ m.r = m.c /\ m.r \in 2..3 /\ Within(m.e, 6, 1) => PolyAtM(o.res.e, m).e = ZeroM(m.r, m.c).e     \* Cayley-Hamilton
          /\ m.r = m.c /\ m.r \in 2..4 /\ Within(m.e, 4, 1) => o.res.e[m.r + 1] = (IF m.r % 2 = 0 THEN Det(m) ELSE Neg(Det(m)))
    /\ o.op = "polyreduce" => Len(o.res.e) = 1 \/ o.res.e[1] # Zero
    /\ o.op = "acker" /\ o.res.k = "M" /\ Within(o.res.e, 20, 2) =>
          CharPoly(SubM(o.a.A, MulM(o.a.B, o.res))) = PolyRoots(o.a.p.e)
LawSim ==
    LET o == out' IN
    o.op = "simulate" => /\ Len(o.res.v[2].v) = Len(o.res.v[1].e) /\ Len(o.res.v[3].v) + 1 = Len(o.res.v[1].e)
                         /\ Le(o.res.v[1].e[Len(o.res.v[1].e)], o.a.time)
=============================================================================
