------------------------------- MODULE OpsProd -------------------------------
(* Products, powers and transposes. *)
EXTENDS OpsArith

(* Operands whose products and sums of products stay exact. *)
ProdOk(s, X) == {x \in X : Within(Val(s, x).e, 32, 16)}
PickPM(s, av, ts) == PickOp(75, s, {x \in ProdOk(s, MatLike(s)) : s[x].t \in ts}, FreeM(s) \ av, FreshAnyM(ts, Dims, Dims))
(* An operand with r rows, mostly. *)
PickRows(s, av, ts, r, cs) ==
    UNION {IF k THEN PickOp(60, s, {x \in ProdOk(s, MatLike(s)) : s[x].t \in ts /\ Val(s, x).r = r /\ Val(s, x).c \in cs}, FreeM(s) \ av, FreshAnyM(ts, {r}, cs))
                ELSE PickOp(50, s, {x \in ProdOk(s, MatLike(s)) : s[x].t \in ts}, FreeM(s) \ av,
                            FreshAnyM(ts, {r + 1, Max2(1, r - 1)} \ {0}, (cs \cup {r}) \ {0})) : k \in Coin(88)}
PickPV(s, av, ts, l) ==
    UNION {IF k THEN PickOp(60, s, {x \in ProdOk(s, Vecs(s)) : s[x].t \in ts /\ s[x].c = l}, FreeV(s) \ av, FreshAnyV(ts, {l}))
                ELSE PickOp(50, s, {x \in ProdOk(s, Vecs(s)) : s[x].t \in ts}, FreeV(s) \ av, FreshAnyV(ts, {l + 1, Max2(0, l - 1)}))
           : k \in Coin(88)}

ActMul ==
    \E a \in PickPM(store, {}, Types) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in PickRows(a.s, {a.x}, Types, m.c, Dims) :
    \E o \in {TVal(b.s, b.x)} :
        LET t == CommonT(m.t, o.t) IN
        IF m.c = o.r
        THEN \E q \in {MulM(m, o)} : \E d \in DestM(b.s, q) :
             \E rec \in InUnits2([op |-> "mul", a |-> a.x, b |-> b.x, d |-> d], b.s, a.x, b.x, 1, 1) : Do(rec, b.s, EffM(b.s, d, t, q))
        ELSE Do([op |-> "mul", a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))

(* A *= B: the shape of A is kept, so B must be square. *)
ActMulInp ==
    \E a \in PickOp(85, store, {x \in ProdOk(store, MatLike(store)) : Writable(store, x)}, FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in {y \in UNION {IF k THEN PickRows(a.s, {a.x}, {t \in Types : Convertible(t, m.t)}, m.c, {m.c})
                           ELSE PickRows(a.s, {a.x}, {t \in Types : Convertible(t, m.t)}, m.c, 1..MaxDim) : k \in Coin(80)} : AliasOk(y.s, a.x, y.x)} :
    \E o \in {TVal(b.s, b.x)} :
        Do([op |-> "mulinp", a |-> a.x, b |-> b.x], b.s,
           IF m.c = o.r /\ o.r = o.c THEN Ret(Write(b.s, a.x, MulM(m, o)), None) ELSE Thr(b.s))

(* Matrix by vector, by the operator or by dot. *)
ActMulV ==
    \E via \in Pick({"op", "dot"}) :
    \E a \in PickPM(store, {}, Types) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in PickPV(a.s, {}, Types, m.c) :
    \E o \in {b.s[b.x]} :
        LET t == CommonT(m.t, o.t) IN
        IF m.c = o.c
        THEN \E q \in {[r |-> 1, c |-> m.r, e |-> MulM(m, ColM(o.e)).e]} : \E d \in DestV(b.s, q) :
             \E rec \in InUnits2([op |-> "mulv", via |-> via, a |-> a.x, b |-> b.x, d |-> d], b.s, a.x, b.x, 1, 1) : Do(rec, b.s, EffV(b.s, d, t, q))
        ELSE Do([op |-> "mulv", via |-> via, a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))

ActDot ==
    \E a \in PickOp(75, store, ProdOk(store, Vecs(store)), FreeV(store), FreshAnyV(Types, VDims)) :
    \E m \in {a.s[a.x]} :
    \E b \in PickPV(a.s, {a.x}, Types, m.c) :
    \E o \in {b.s[b.x]} :
        \E rec \in InUnits2([op |-> "dot", a |-> a.x, b |-> b.x, d |-> ""], b.s, a.x, b.x, 1, 1) :
        Do(rec, b.s,
           IF m.c = o.c THEN Ret(b.s, RSca(CommonT(m.t, o.t), SumQ([i \in 1..m.c |-> Mul(m.e[i], o.e[i])], m.c)))
           ELSE Thr(b.s))

(* Powers of square matrices; a non-square matrix has no power. *)
PowBound(m) == IF Within(m.e, 3, 1) /\ m.r <= 4 THEN 6 ELSE IF Within(m.e, 10, 8) /\ m.r <= 5 THEN 3 ELSE IF Within(m.e, 32, 16) THEN 2 ELSE 0
SmallSq(ts) == UNION {FreshM(t, k, k) : t \in Pick(ts), k \in Pick(1..4)}
UnitSq(ts) == UNION {{MObj(t, [r |-> k, c |-> k, e |-> TLCEval([i \in 1..(k * k) |-> Int2Q(RandomElement({-1, 0, 0, 1, 1, 2}))])])} : t \in Pick(ts), k \in Pick(1..4)}
ActPow ==
    \E k \in (IF Sim THEN {RandomElement(1..10)} ELSE {1}) :
    \E a \in (IF k <= 4 THEN PickOp(70, store, {x \in ProdOk(store, MatLike(store)) : LET m == Val(store, x) IN m.r = m.c /\ m.r >= 1}, FreeM(store), SmallSq(Types))
              ELSE IF k <= 8 THEN PickOp(10, store, {x \in ProdOk(store, MatLike(store)) : LET m == Val(store, x) IN m.r = m.c /\ m.r >= 1}, FreeM(store), UnitSq(Types))
              ELSE PickOp(60, store, {x \in ProdOk(store, MatLike(store)) : LET m == Val(store, x) IN m.r # m.c /\ m.r >= 1 /\ m.c >= 1}, FreeM(store), FreshAnyM(Types, 3..4, 1..2))) :
    \E m \in {TVal(a.s, a.x)} :
    \E p \in Pick(IF m.r = m.c THEN 0..PowBound(m) ELSE 1..3) :
        IF m.r = m.c
        THEN \E q \in {PowM(m, p)} : \E d \in DestM(a.s, q) : Do([op |-> "powm", a |-> a.x, p |-> p, d |-> d], a.s, EffM(a.s, d, m.t, q))
        ELSE Do([op |-> "powm", a |-> a.x, p |-> p, d |-> ""], a.s, Thr(a.s))

(* via: transpose, hermitian (complex only), conjugate (complex only). *)
ActTranspose ==
    \E via \in Pick({"transpose", "hermitian", "conjugate"}) :
    \E a \in (IF via = "transpose" \/ ~\E t \in Types : IsCplx(t) THEN PickM(store, {})
              ELSE PickOp(75, store, {x \in Plain(store, MatLike(store)) : IsCplx(store[x].t) /\ Writable(store, x)}, FreeM(store),
                          FreshAnyM({t \in Types : IsCplx(t)}, Dims, Dims))) :
    \E m \in {TVal(a.s, a.x)} :
    \E v \in {IF IsCplx(m.t) /\ Writable(a.s, a.x) THEN via ELSE "transpose"} :
    \E q \in {IF v = "transpose" THEN TransposeM(m) ELSE ConjM(TransposeM(m))} : \E d \in DestM(a.s, q) :
        Do([op |-> "transpose", via |-> v, a |-> a.x, d |-> d], a.s, EffM(a.s, d, m.t, q))

-----------------------------------------------------------------------------
(* Laws. *)
LawProd ==
    LET o == out' IN
    /\ o.op = "mul" /\ o.ok =>
         /\ TransposeM(o.res).e = MulM(TransposeM(Arg(o.a.b)), TransposeM(Arg(o.a.a))).e
         /\ o.res.r = Arg(o.a.a).r /\ o.res.c = Arg(o.a.b).c
    /\ o.op = "transpose" => TransposeM(o.res).e = (IF o.a.via = "transpose" THEN Arg(o.a.a).e ELSE ConjM(Arg(o.a.a)).e)
    /\ o.op = "powm" /\ o.ok =>
         LET m == Arg(o.a.a) IN MulM(m, o.res).e = MulM(o.res, m).e
    /\ o.op = "dot" /\ o.ok => o.res.v = MulM(RowM(Arg(o.a.a).e), ColM(Arg(o.a.b).e)).e[1]
=============================================================================
