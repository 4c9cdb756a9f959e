------------------------------ MODULE OpsArith -------------------------------
(* Element-wise arithmetic of matrices (and views), of vectors, with scalars,
   functional and in place, and arithmetic of scalars of mixed types.       *)
EXTENDS OpsCore

Bnd == 1000
MaxLen == 600
Plain(s, X) == {x \in X : Len(Val(s, x).e) <= MaxLen /\ ~HasOpaque(s, x) /\ Mag(s, x) <= Bnd}
(* A value that can be kept for later calls: exact in floating point. *)
(* A call may be made with its operands in other units, that is with all their
   elements multiplied by 2^unit.  What it returns scales with the power deg of
   that factor (a list: with one power for each of its parts), for values of
   every magnitude.  The result of such a call is not kept. *)
UnitOf(t, d) == IF ~Sim \/ t \in {"i", "u", "b"} \/ d # "" THEN {0}
                ELSE UNION {IF k THEN Pick(IF t \in {"f", "c"} THEN {-20, -12, -7, 5, 18} ELSE {-60, -33, -25, -14, -5, 8, 21, 40}) ELSE {0} : k \in Coin(25)}
Units(rec, t, deg) == {IF u = 0 THEN rec ELSE rec @@ [unit |-> u, deg |-> deg] : u \in UnitOf(t, IF "d" \in DOMAIN rec THEN rec.d ELSE "")}
(* The same for calls of which the operands are objects with a unit of their
   own: the elements are multiplied in place for the call, and the result has
   the unit rexp. *)
UnitFor(s, x, d) == IF s[x].k \in {"M", "V"} THEN UnitOf(s[x].t, d) ELSE {0}
InUnit1(rec, s, x, deg) ==
    {IF u = 0 THEN rec ELSE rec @@ [scale |-> x :> u, rexp |-> IF deg = <<>> THEN u ELSE TLCEval([i \in 1..Len(deg) |-> u * deg[i]])]
     : u \in UnitFor(s, x, IF "d" \in DOMAIN rec THEN rec.d ELSE "")}
InUnits2(rec, s, x, y, degx, degy) ==     \* each with its own
    {IF x = y \/ (uv[1] = 0 /\ uv[2] = 0) THEN rec ELSE rec @@ [scale |-> x :> uv[1] @@ y :> uv[2], rexp |-> degx * uv[1] + degy * uv[2]]
     : uv \in UNION {{<<u, v>> : v \in IF s[x].k \in {"M", "V"} THEN UnitFor(s, y, rec.d) ELSE {0}} : u \in IF s[y].k \in {"M", "V"} THEN UnitFor(s, x, rec.d) ELSE {0}}}
InUnitBoth(rec, s, x, y, deg) ==          \* both with the same
    {IF x = y \/ u = 0 THEN rec ELSE rec @@ [scale |-> x :> u @@ y :> u, rexp |-> deg * u]
     : u \in IF s[x].k \in {"M", "V"} /\ s[y].k \in {"M", "V"} /\ "i" \notin {s[x].t, s[y].t}
             THEN UnitOf(IF {"f", "c"} \cap {s[x].t, s[y].t} # {} THEN "f" ELSE "d", IF "d" \in DOMAIN rec THEN rec.d ELSE "") ELSE {0}}
Storable(m) == Len(m.e) <= MaxLen /\ AllDyadic(m.e) /\ MaxMag(m.e, Len(m.e)) <= 1000000

PickM(s, av) == PickOp(80, s, Plain(s, MatLike(s)), FreeM(s) \ av, FreshAnyM(Types, Dims, Dims))
PickMT(s, av, ts) == PickOp(75, s, {x \in Plain(s, MatLike(s)) : s[x].t \in ts}, FreeM(s) \ av, FreshAnyM(ts, Dims, Dims))
PickV(s, av) == PickOp(80, s, Plain(s, Vecs(s)), FreeV(s) \ av, FreshAnyV(Types, VDims))
PickVT(s, av, ts) == PickOp(75, s, {x \in Plain(s, Vecs(s)) : s[x].t \in ts}, FreeV(s) \ av, FreshAnyV(ts, VDims))
PickW(s, av) == PickOp(85, s, {x \in Plain(s, MatLike(s)) : Writable(s, x)}, FreeM(s) \ av, FreshAnyM(Types, Dims, Dims))
(* An operand of the given shape, mostly. *)
PickShaped(s, av, ts, r, c) ==
    UNION {IF k THEN PickOp(60, s, {x \in Plain(s, MatLike(s)) : s[x].t \in ts /\ Val(s, x).r = r /\ Val(s, x).c = c},
                            FreeM(s) \ av, FreshAnyM(ts, {r}, {c}))
                ELSE PickOp(50, s, {x \in Plain(s, MatLike(s)) : s[x].t \in ts}, FreeM(s) \ av,
                            FreshAnyM(ts, {r, r + 1, c, Max2(1, c - 1)} \ {0}, {c, r, c + 1, Max2(1, r - 1)} \ {0}))
           : k \in Coin(90)}
PickSized(s, av, ts, l) ==
    UNION {IF k THEN PickOp(60, s, {x \in Plain(s, Vecs(s)) : s[x].t \in ts /\ s[x].c = l}, FreeV(s) \ av, FreshAnyV(ts, {l}))
                ELSE PickOp(50, s, {x \in Plain(s, Vecs(s)) : s[x].t \in ts}, FreeV(s) \ av, FreshAnyV(ts, {l + 1, Max2(0, l - 1)}))
           : k \in Coin(90)}

(* Where the result goes: nowhere, or to a slot (possibly that of an operand). *)
DestM(s, m) == IF Storable(m) THEN UNION {IF k THEN Pick(FreeM(s)) ELSE {""} : k \in Coin(45)} ELSE {""}
DestV(s, m) == IF Storable(m) THEN UNION {IF k THEN Pick(FreeV(s)) ELSE {""} : k \in Coin(45)} ELSE {""}
EffM(s, d, t, m) == Ret(IF d = "" THEN s ELSE Put(s, d, MObj(t, m)), RMat(t, m))
EffV(s, d, t, m) == Ret(IF d = "" THEN s ELSE Put(s, d, VObj(t, m.e)), RVec(t, m.e))

Apply(f, t, x, y) ==
    CASE f = "+" -> Add(x, y) [] f = "-" -> Sub(x, y) [] f = "*" -> Mul(x, y) [] f = "/" -> DivT(t, x, y)
ZipF(f, t, m, o) == LET F(x, y) == Apply(f, t, x, y) IN Zip(m, o, F)
MapF(f, t, m, y) == LET F(x) == Apply(f, t, x, y) IN MapE(m, F)
Exact(x) == x # Zero /\ Dyadic(Inv(x))

ActMBin ==
    \E f \in Pick({"+", "-"}) :
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in PickShaped(a.s, {a.x}, Types, m.r, m.c) :
    \E o \in {TVal(b.s, b.x)} :
        LET t == CommonT(m.t, o.t) IN
        IF m.r = o.r /\ m.c = o.c
        THEN \E q \in {ZipF(f, t, m, o)} : \E d \in DestM(b.s, q) :
             \E rec \in InUnitBoth([op |-> "mbin", f |-> f, a |-> a.x, b |-> b.x, d |-> d], b.s, a.x, b.x, 1) : Do(rec, b.s, EffM(b.s, d, t, q))
        ELSE Do([op |-> "mbin", f |-> f, a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))

(* in place: A += B *)
ActMInp ==
    \E f \in Pick({"+", "-"}) :
    \E a \in PickW(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in {y \in PickShaped(a.s, {a.x}, {t \in Types : Convertible(t, m.t)}, m.r, m.c) : AliasOk(y.s, a.x, y.x)} :
    \E o \in {TVal(b.s, b.x)} :
        LET t == CommonT(m.t, o.t) IN
        Do([op |-> "minp", f |-> f, a |-> a.x, b |-> b.x], b.s,
           IF m.r = o.r /\ m.c = o.c THEN Ret(Write(b.s, a.x, ZipF(f, t, m, o)), None) ELSE Thr(b.s))

(* Scalars: [t, v], or an element of the operand itself (own, 0-based). *)
Divisors(t) == {x \in ValsD : Exact(x) /\ (t \in {"i"} => IsInt(x))}
ScVal(t, f, exact) ==
    IF f # "/" THEN RandVal(t)
    ELSE IF exact THEN (IF IsCplx(t) /\ n % 2 = 0 THEN Mul(Q(1, 1, 1), RandomElement(Divisors("d"))) ELSE RandomElement(Divisors(t)))
    ELSE IF t = "i" THEN RandomElement(ValsI \ {Zero})
    ELSE IF IsCplx(t) THEN Add(RandomElement(ValsD \ {Zero}), Mul(ImU, RandomElement(ValsD)))
    ELSE RandomElement(ValsD \ {Zero})
Scalars(ts, f, exact) == UNION {{[t |-> t, v |-> ScVal(t, f, exact)]} : t \in Pick(ts)}
(* The elements of m that may be the scalar of operation f. *)
OwnIdx(m, f) == IF f = "/" THEN {i \in 1..Len(m.e) : Exact(m.e[i])} ELSE 1..Len(m.e)
(* <<scalar, own>>: own is -1 for a separate scalar. *)
ScOrOwn(m, ts, f, exact) ==
    UNION {IF k /\ OwnIdx(m, f) # {} THEN {<<[t |-> m.t, v |-> m.e[i]], i - 1>> : i \in Pick(OwnIdx(m, f))}
           ELSE {<<x, -1>> : x \in Scalars(ts, f, exact)} : k \in Coin(25)}

ActMScal ==
    \E f \in Pick({"+", "-", "*", "/"}), side \in Pick({"r", "r", "l"}) :
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E so \in ScOrOwn(m, Types, f, FALSE) :
    \E sd \in {IF side = "l" /\ f = "*" THEN "l" ELSE "r"} :
        LET t == CommonT(m.t, so[1].t) IN
        \E q \in {MapF(f, t, m, so[1].v)} : \E d \in DestM(a.s, q) :
        Do([op |-> "mscal", f |-> f, side |-> sd, a |-> a.x, sc |-> so[1], own |-> so[2], d |-> d], a.s, EffM(a.s, d, t, q))

ActMScalInp ==
    \E f \in Pick({"+", "-", "*", "/"}) :
    \E a \in PickW(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E so \in ScOrOwn(m, {t \in Types : Convertible(t, m.t)}, f, m.t # "i") :
        LET t == CommonT(m.t, so[1].t) IN
        Do([op |-> "mscalinp", f |-> f, a |-> a.x, sc |-> so[1], own |-> so[2]], a.s,
           Ret(Write(a.s, a.x, MapF(f, t, m, so[1].v)), None))

ActVBin ==
    \E f \in Pick({"+", "-", "*"}) :
    \E a \in PickV(store, {}) :
    \E m \in {a.s[a.x]} :
    \E b \in PickSized(a.s, {a.x}, Types, m.c) :
    \E o \in {b.s[b.x]} :
        LET t == CommonT(m.t, o.t) IN
        IF m.c = o.c
        THEN \E q \in {ZipF(f, t, m, o)} : \E d \in DestV(b.s, q) :
             Do([op |-> "vbin", f |-> f, a |-> a.x, b |-> b.x, d |-> d], b.s, EffV(b.s, d, t, q))
        ELSE Do([op |-> "vbin", f |-> f, a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))
ActVInp ==
    \E f \in Pick({"+", "-"}) :
    \E a \in PickV(store, {}) :
    \E m \in {a.s[a.x]} :
    \E b \in PickSized(a.s, {a.x}, {t \in Types : Convertible(t, m.t)}, m.c) :
    \E o \in {b.s[b.x]} :
        LET t == CommonT(m.t, o.t) IN
        Do([op |-> "vinp", f |-> f, a |-> a.x, b |-> b.x], b.s,
           IF m.c = o.c THEN Ret(Write(b.s, a.x, ZipF(f, t, m, o)), None) ELSE Thr(b.s))
ActVScal ==
    \E f \in Pick({"+", "-", "*", "/"}), side \in Pick({"r", "r", "l"}) :
    \E a \in PickV(store, {}) :
    \E m \in {a.s[a.x]} :
    \E so \in ScOrOwn(m, Types, f, FALSE) :
    \E sd \in {IF side = "l" /\ f = "*" THEN "l" ELSE "r"} :
        LET t == CommonT(m.t, so[1].t) IN
        \E q \in {MapF(f, t, m, so[1].v)} : \E d \in DestV(a.s, q) :
        Do([op |-> "vscal", f |-> f, side |-> sd, a |-> a.x, sc |-> so[1], own |-> so[2], d |-> d], a.s, EffV(a.s, d, t, q))
ActVScalInp ==
    \E f \in Pick({"+", "-", "*", "/"}) :
    \E a \in PickV(store, {}) :
    \E m \in {a.s[a.x]} :
    \E so \in ScOrOwn(m, {t \in Types : Convertible(t, m.t)}, f, m.t # "i") :
        LET t == CommonT(m.t, so[1].t) IN
        Do([op |-> "vscalinp", f |-> f, a |-> a.x, sc |-> so[1], own |-> so[2]], a.s,
           Ret(Write(a.s, a.x, MapF(f, t, m, so[1].v)), None))

-----------------------------------------------------------------------------
(* x f y for scalars of different types, at least one of them complex. *)
ScTypes == {"i", "f", "d", "c", "z"}
ActSBin ==
    \E f \in Pick({"+", "-", "*", "/"}) :
    \E tt \in Pick({p \in ScTypes \X ScTypes : IsCplx(p[1]) \/ IsCplx(p[2])}) :
    \E x \in Scalars({tt[1]}, "+", FALSE), y \in Scalars({tt[2]}, f, FALSE) :
        LET t == CommonT(tt[1], tt[2]) IN
        Do([op |-> "sbin", f |-> f, x |-> x, y |-> y], store, Ret(store, RSca(t, Apply(f, t, x.v, y.v))))
=============================================================================
