-------------------------------- MODULE OpsCmp -------------------------------
(* Comparisons and the process-wide relative tolerance. *)
EXTENDS OpsProd

(* x and y over a common denominator. *)
Align(x, y) ==
    LET g == Gcd(x[3], y[3])
        p == y[3] \div g
        q == x[3] \div g
    IN  [a |-> <<x[1] * p, x[2] * p>>, b |-> <<y[1] * q, y[2] * q>>, d |-> x[3] * p]

(* |x - y| <= (tn/td) * max(|x|, |y|) for reals given over one denominator;
   tn is 0 or 1. *)
NearInt(a, b, tt) == LET D == Abs(a - b)  M == Max2(Abs(a), Abs(b)) IN IF tt[1] = 0 THEN D = 0 ELSE D <= M \div tt[2]
Sq(p) == p[1] * p[1] + p[2] * p[2]
Dif(p, q) == <<p[1] - q[1], p[2] - q[2]>>
(* The relation "equal" of elements of types t1 and t2. *)
EqEl(t1, t2, x, y, tt) ==
    IF IsFloat(t1) \/ IsFloat(t2)
    THEN LET z == Align(x, y) IN
         IF IsCplx(t1) \/ IsCplx(t2)
         THEN LET D2 == Sq(Dif(z.a, z.b))  M2 == Max2(Sq(z.a), Sq(z.b)) IN
              IF D2 = 0 THEN TRUE ELSE IF tt[1] = 0 \/ tt[2] > 40000 THEN FALSE ELSE D2 <= M2 \div (tt[2] * tt[2])
         ELSE NearInt(z.a[1], z.b[1], tt)
    ELSE IF IsCplx(t1) /\ IsCplx(t2)
    THEN LET z == Align(x, y) IN NearInt(z.a[1], z.b[1], tt) /\ NearInt(z.a[2], z.b[2], tt)
    ELSE x = y
(* Exactly on the edge of the tolerance, with irrational magnitudes. *)
Edge(t1, t2, x, y, tt) ==
    /\ IsCplx(t1) # IsCplx(t2)
    /\ LET z == Align(x, y)  D2 == Sq(Dif(z.a, z.b))  M2 == Max2(Sq(z.a), Sq(z.b)) IN
       D2 # 0 /\ tt[1] # 0 /\ tt[2] <= 40000 /\ M2 % (tt[2] * tt[2]) = 0 /\ D2 = M2 \div (tt[2] * tt[2])
HasEdge(t1, t2, m, o, tt) == \E i \in 1..Min2(Len(m.e), Len(o.e)) : Edge(t1, t2, m.e[i], o.e[i], tt)

Rel(f, t1, t2, x, y, tt) ==
    CASE f = "==" -> EqEl(t1, t2, x, y, tt)
      [] f = "!=" -> ~EqEl(t1, t2, x, y, tt)
      [] f = "<"  -> Lt(x, y)
      [] f = ">"  -> Lt(y, x)
      [] f = "<=" -> Le(x, y)
      [] f = ">=" -> Le(y, x)
(* Which types may be compared by relation f. *)
CmpTypes(f, t) ==
    IF f \in {"==", "!="} THEN {u \in Types : ~(IsCplx(t) /\ u = "i") /\ ~(t = "i" /\ IsCplx(u))}
    ELSE {u \in Types : ~IsCplx(u)}
FirstTypes(f) == IF f \in {"==", "!="} THEN Types ELSE {u \in Types : ~IsCplx(u)}

B2Q(b) == IF b THEN One ELSE Zero
(* The result of a comparison: element by element, or reduced by all or any. *)
CmpRes(red, kind, r, c, e) ==
    IF red = "all" THEN RBool(\A i \in 1..Len(e) : e[i]) ELSE IF red = "any" THEN RBool(\E i \in 1..Len(e) : e[i])
    ELSE [k |-> kind, t |-> "b", r |-> r, c |-> c, e |-> [i \in 1..Len(e) |-> B2Q(e[i])]]

(* Values near x, to make the tolerance matter. *)
Nudge(t, x, fine) ==
    LET k == RandomElement(1..9) IN
    IF t \in {"i", "u"} THEN (IF k <= 4 THEN Trunc(x) ELSE IF k <= 6 THEN Trunc(Add(x, One)) ELSE IF k <= 8 THEN Trunc(Sub(x, One)) ELSE Trunc(Neg(x)))
    ELSE LET y == IF IsCplx(t) THEN x ELSE RePart(x)
             fr == IF fine THEN RandomElement({4, 16, 1024, 8192, 8}) ELSE RandomElement({4, 8, 16})
             eps == Q(1, 0, fr)
         IN  IF k <= 3 THEN y
             ELSE IF k <= 5 THEN Add(y, Mul(y, eps))
             ELSE IF k = 6 THEN Sub(y, Mul(y, eps))
             ELSE IF k = 7 THEN Add(y, eps)
             ELSE IF k = 8 THEN (IF IsCplx(t) THEN Add(y, Mul(ImU, eps)) ELSE Neg(y))
             ELSE Zero
NearObj(k, t, m, fine) ==
    {[k |-> k, t |-> t, r |-> m.r, c |-> m.c, e |-> TLCEval([i \in 1..Len(m.e) |-> Nudge(t, m.e[i], fine)])]}
Tame(s, X) == {x \in X : Within(Val(s, x).e, 100, 8)}
(* The second operand: an object of the same shape with near values, or any. *)
PickNear(s, av, ts, m, fine) ==
    UNION {IF k <= 70 THEN PickNew(s, FreeM(s) \ av, UNION {NearObj("M", t, m, fine) : t \in Pick(ts)})
           ELSE IF k <= 88 THEN PickOp(75, s, {x \in Tame(s, MatLike(s)) : s[x].t \in ts /\ Val(s, x).r = m.r /\ Val(s, x).c = m.c}, FreeM(s) \ av, UNION {NearObj("M", t, m, fine) : t \in Pick(ts)})
           ELSE PickOp(50, s, {x \in Tame(s, MatLike(s)) : s[x].t \in ts}, FreeM(s) \ av, FreshAnyM(ts, {m.r, m.r + 1, m.c} \ {0}, {m.c, m.c + 1, m.r} \ {0}))
           : k \in Pick(1..100)}
PickNearV(s, av, ts, m, fine) ==
    UNION {IF k <= 70 THEN PickNew(s, FreeV(s) \ av, UNION {NearObj("V", t, m, fine) : t \in Pick(ts)})
           ELSE IF k <= 88 THEN PickOp(75, s, {x \in Tame(s, Vecs(s)) : s[x].t \in ts /\ s[x].c = m.c}, FreeV(s) \ av, UNION {NearObj("V", t, m, fine) : t \in Pick(ts)})
           ELSE PickOp(50, s, {x \in Tame(s, Vecs(s)) : s[x].t \in ts}, FreeV(s) \ av, FreshAnyV(ts, {m.c + 1, Max2(0, m.c - 1)}))
           : k \in Pick(1..100)}
PickTM(s, ts) == PickOp(70, s, {x \in Tame(s, MatLike(s)) : s[x].t \in ts}, FreeM(s), FreshAnyM(ts, Dims, Dims))
PickTV(s, ts) == PickOp(70, s, {x \in Tame(s, Vecs(s)) : s[x].t \in ts}, FreeV(s), FreshAnyV(ts, VDims))
Rels == {"==", "!=", "<", ">", "<=", ">="}
Fine(t, u) == IsCplx(t) = IsCplx(u)

UnitT(t, u) == IF "i" \in {t, u} THEN "i" ELSE IF "f" \in {t, u} \/ "c" \in {t, u} THEN "f" ELSE "d"
ActCmpMM ==
    \E f \in Pick(Rels), red \in Pick({"", "", "all", "any"}) :
    \E a \in PickTM(store, FirstTypes(f)) :
    \E m \in {TVal(a.s, a.x)} :
    \E fine \in Coin(60) :
    \E b \in PickNear(a.s, {a.x}, IF fine THEN {u \in CmpTypes(f, m.t) : Fine(u, m.t)} ELSE CmpTypes(f, m.t), m, fine) :
    \E o \in {TVal(b.s, b.x)} :
        /\ ~HasEdge(m.t, o.t, m, o, tol)
        /\ \E rec \in Units([op |-> "cmpmm", f |-> f, red |-> red, a |-> a.x, b |-> b.x], UnitT(m.t, o.t), 0) :
           Do(rec, b.s,
              IF m.r = o.r /\ m.c = o.c
              THEN Ret(b.s, CmpRes(red, "M", m.r, m.c, [i \in 1..Len(m.e) |-> Rel(f, m.t, o.t, m.e[i], o.e[i], tol)]))
              ELSE Thr(b.s))
ActCmpVV ==
    \E f \in Pick({"==", "!="}), red \in Pick({"", "", "all", "any"}) :
    \E a \in PickTV(store, FirstTypes(f)) :
    \E m \in {a.s[a.x]} :
    \E fine \in Coin(60) :
    \E b \in PickNearV(a.s, {a.x}, IF fine THEN {u \in CmpTypes(f, m.t) : Fine(u, m.t)} ELSE CmpTypes(f, m.t), m, fine) :
    \E o \in {b.s[b.x]} :
        /\ ~HasEdge(m.t, o.t, m, o, tol)
        /\ \E rec \in InUnitBoth([op |-> "cmpvv", f |-> f, red |-> red, a |-> a.x, b |-> b.x], b.s, a.x, b.x, 0) :
           Do(rec, b.s,
              IF m.c = o.c
              THEN Ret(b.s, CmpRes(red, "V", 1, m.c, [i \in 1..Len(m.e) |-> Rel(f, m.t, o.t, m.e[i], o.e[i], tol)]))
              ELSE Thr(b.s))
(* with a scalar, which is near one of the elements *)
ScNear(m, u, fine) == {[t |-> u, v |-> IF Len(m.e) = 0 THEN RandVal(u) ELSE LET v == Nudge(u, m.e[RandomElement(1..Len(m.e))], fine) IN v]}
ActCmpMS ==
    \E f \in Pick(Rels), red \in Pick({"", "", "all", "any"}) :
    \E a \in PickTM(store, FirstTypes(f)) :
    \E m \in {TVal(a.s, a.x)} :
    \E u \in Pick(CmpTypes(f, m.t)) :
    \E sc \in ScNear(m, u, Fine(u, m.t)) :
        /\ ~\E i \in 1..Len(m.e) : Edge(m.t, u, m.e[i], sc.v, tol)
        /\ Do([op |-> "cmpms", f |-> f, red |-> red, a |-> a.x, sc |-> sc], a.s,
              Ret(a.s, CmpRes(red, "M", m.r, m.c, [i \in 1..Len(m.e) |-> Rel(f, m.t, u, m.e[i], sc.v, tol)])))
ActCmpVS ==
    \E f \in Pick({"==", "!="}), red \in Pick({"", "", "all", "any"}) :
    \E a \in PickTV(store, FirstTypes(f)) :
    \E m \in {a.s[a.x]} :
    \E u \in Pick(CmpTypes(f, m.t)) :
    \E sc \in ScNear(m, u, Fine(u, m.t)) :
        /\ ~\E i \in 1..Len(m.e) : Edge(m.t, u, m.e[i], sc.v, tol)
        /\ Do([op |-> "cmpvs", f |-> f, red |-> red, a |-> a.x, sc |-> sc], a.s,
              Ret(a.s, CmpRes(red, "V", 1, m.c, [i \in 1..Len(m.e) |-> Rel(f, m.t, u, m.e[i], sc.v, tol)])))

(* all and any of a numeric matrix or vector: some elements are zero. *)
Sparse(t, r, c) == [k |-> "M", t |-> t, r |-> r, c |-> c, e |-> LET p == RandomElement({0, 15, 50, 100}) IN TLCEval([i \in 1..(r * c) |-> IF RandomElement(1..100) <= p THEN RandVal(t) ELSE Zero])]
ActAllAny ==
    \E f \in Pick({"all", "any"}), vec \in Coin(40), old \in Coin(40) :
    \E a \in (IF vec THEN (IF old /\ Vecs(store) # {} THEN PickOld(store, Vecs(store))
                           ELSE PickNew(store, FreeV(store), UNION {{[Sparse(t, 1, l) EXCEPT !.k = "V"]} : t \in Pick(Types), l \in Pick(VDims)}))
              ELSE (IF old THEN PickTM(store, Types) ELSE PickNew(store, FreeM(store), UNION {{Sparse(t, r, c)} : t \in Pick(Types), r \in Pick(Dims), c \in Pick(Dims)}))) :
        LET m == Val(a.s, a.x) IN
        \E rec \in {IF "scale" \in DOMAIN r THEN [r EXCEPT !.rexp = 0] ELSE r : r \in InUnit1([op |-> "allany", f |-> f, a |-> a.x], a.s, a.x, <<>>)} :
        Do(rec, a.s,
           Ret(a.s, RBool(IF f = "all" THEN \A i \in 1..Len(m.e) : m.e[i] # Zero ELSE \E i \in 1..Len(m.e) : m.e[i] # Zero)))

(* all_close: absolute tolerance q (<<1, Q>>, or the default 1e-4 = <<0, 0>>). *)
CloseEl(cplx, x, y, tt) ==
    LET z == Align(x, y) IN
    IF cplx THEN (LET D2 == Sq(Dif(z.a, z.b)) IN IF tt[2] > 40000 THEN D2 = 0 ELSE D2 <= (z.d * z.d) \div (tt[2] * tt[2]))
    ELSE Abs(z.a[1] - z.b[1]) <= z.d \div tt[2]
CloseEdge(cplx, x, y, tt) ==
    cplx /\ LET z == Align(x, y)  D2 == Sq(Dif(z.a, z.b)) IN
            D2 # 0 /\ tt[2] <= 40000 /\ (z.d * z.d) % (tt[2] * tt[2]) = 0 /\ D2 = (z.d * z.d) \div (tt[2] * tt[2])
ActAllClose ==
    \E vec \in Coin(40), tt \in Pick({<<1, 10000>>, <<1, 4>>, <<1, 64>>, <<1, 1>>}) :
    \E a \in (IF vec THEN PickTV(store, Types) ELSE {y \in PickTM(store, Types) : Writable(y.s, y.x)}) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in {y \in (IF vec THEN PickNearV(a.s, {a.x}, {m.t}, m, ~IsCplx(m.t)) ELSE PickNear(a.s, {a.x}, {m.t}, m, ~IsCplx(m.t))) : Writable(y.s, y.x)} :
    \E o \in {TVal(b.s, b.x)} :
        /\ ~\E i \in 1..Min2(Len(m.e), Len(o.e)) : CloseEdge(IsCplx(m.t), m.e[i], o.e[i], tt)
        /\ Do([op |-> "allclose", a |-> a.x, b |-> b.x, q |-> tt[2]], b.s,
              IF m.r = o.r /\ m.c = o.c
              THEN Ret(b.s, RBool(\A i \in 1..Len(m.e) : CloseEl(IsCplx(m.t), m.e[i], o.e[i], tt)))
              ELSE Thr(b.s))

FirstDiff(m, o) ==
    LET D == {i \in 1..Len(m.e) : m.e[i] # o.e[i]} IN
    IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : \A k \in D : j <= k IN IF Lt(m.e[i], o.e[i]) THEN -i ELSE i
ActCompare ==
    \E vec \in Coin(40) :
    \E a \in (IF vec THEN PickTV(store, FirstTypes("<")) ELSE {y \in PickTM(store, FirstTypes("<")) : Writable(y.s, y.x)}) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in {y \in (IF vec THEN PickNearV(a.s, {a.x}, {m.t}, m, TRUE) ELSE PickNear(a.s, {a.x}, {m.t}, m, TRUE)) : Writable(y.s, y.x)} :
    \E o \in {TVal(b.s, b.x)} :
        \E rec \in InUnitBoth([op |-> "compare", a |-> a.x, b |-> b.x], b.s, a.x, b.x, 0) :
        Do(rec, b.s,
           IF Len(m.e) = Len(o.e) THEN Ret(b.s, RNat(FirstDiff(m, o))) ELSE Thr(b.s))

-----------------------------------------------------------------------------
(* The tolerance, read and set in one of two parts of the program, and the
   scalar comparisons made there. *)
Tols == {<<0, 1>>, <<1, 4>>, <<1, 8>>, <<1, 16>>, <<1, 1024>>, <<1, 1000000>>}
ActSetTol ==
    \E tu \in Pick({"1", "2"}), tt \in Pick(Tols) :
        Do([op |-> IF tu = "1" THEN "settol1" ELSE "settol2", q |-> tt], store, [ok |-> TRUE, s |-> store, res |-> None, tol |-> tt])
ActGetTol ==
    \E tu \in Pick({"1", "2"}) :
        Do([op |-> IF tu = "1" THEN "gettol1" ELSE "gettol2"], store, Ret(store, RSca("d", Q(tol[1], 0, tol[2]))))
ActFeq ==
    \E tu \in Pick({"1", "2"}), f \in Pick({"eq", "le", "ge", "zero"}) :
    \E t \in Pick(Types \ {"i"}) :
    \E x \in Scalars({t}, "+", FALSE) :
    \E u \in Pick(IF IsCplx(t) THEN {v \in Types : IsCplx(v)} ELSE {v \in Types : ~IsCplx(v)}) :
    \E y \in ScNear([e |-> <<x.v>>], u, FALSE) :
    \E g \in {IF IsCplx(t) /\ f \in {"le", "ge"} THEN "eq" ELSE f} :
        LET z == Align(x.v, y.v)
            D2 == Sq(Dif(z.a, z.b))  M2 == Max2(Sq(z.a), Sq(z.b))
            near == IF IsCplx(t) THEN D2 = 0 \/ (tol[1] # 0 /\ tol[2] <= 40000 /\ D2 <= M2 \div (tol[2] * tol[2]))
                    ELSE NearInt(z.a[1], z.b[1], tol)
        IN
        /\ ~(IsCplx(t) /\ D2 # 0 /\ tol[1] # 0 /\ tol[2] <= 40000 /\ M2 % (tol[2] * tol[2]) = 0 /\ D2 = M2 \div (tol[2] * tol[2]))
        /\ Do([op |-> IF tu = "1" THEN "feq1" ELSE "feq2", f |-> g, x |-> x, y |-> y], store,
              Ret(store, RBool(CASE g = "eq" -> near
                                 [] g = "le" -> Lt(x.v, y.v) \/ near
                                 [] g = "ge" -> Lt(y.v, x.v) \/ near
                                 [] g = "zero" -> x.v = Zero)))

-----------------------------------------------------------------------------
Flip(f) == CASE f = "==" -> "!=" [] f = "!=" -> "==" [] f = "<" -> ">=" [] f = ">=" -> "<" [] f = ">" -> "<=" [] f = "<=" -> ">"
Swap(f) == CASE f = "==" -> "==" [] f = "!=" -> "!=" [] f = "<" -> ">" [] f = ">" -> "<" [] f = "<=" -> ">=" [] f = ">=" -> "<="
(* Every relation is the negation of another and the converse of another. *)
LawCmp ==
    LET o == out' IN
    /\ o.op \in {"cmpmm", "cmpvv"} /\ o.ok =>
         LET m == Arg(o.a.a)  p == Arg(o.a.b)
             tt(x) == IF x \in DOMAIN o.mk THEN o.mk[x].t ELSE store[x].t
             t1 == tt(o.a.a)  t2 == tt(o.a.b) IN
         \A i \in 1..Len(m.e) :
            /\ Rel(o.a.f, t1, t2, m.e[i], p.e[i], tol) # Rel(Flip(o.a.f), t1, t2, m.e[i], p.e[i], tol)
            /\ Rel(o.a.f, t1, t2, m.e[i], p.e[i], tol) = Rel(Swap(o.a.f), t2, t1, p.e[i], m.e[i], tol)
            /\ m.e[i] = p.e[i] => EqEl(t1, t2, m.e[i], p.e[i], tol)
            /\ tol[1] = 0 => (EqEl(t1, t2, m.e[i], p.e[i], tol) <=> m.e[i] = p.e[i])
    /\ tol' # tol => o.op \in {"settol1", "settol2"}
=============================================================================
