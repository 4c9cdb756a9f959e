------------------------------ MODULE OpsStruct ------------------------------
(* Rearranging, generating, converting, searching, reducing.                *)
EXTENDS OpsCmp

(* An operand with its number of rows in rs and of columns in cs, mostly. *)
PickDim(s, av, ts, rs, cs) ==
    UNION {IF k THEN PickOp(60, s, {x \in Plain(s, MatLike(s)) : s[x].t \in ts /\ Val(s, x).r \in rs /\ Val(s, x).c \in cs},
                            FreeM(s) \ av, FreshAnyM(ts, rs \ {0}, cs \ {0}))
                ELSE PickOp(50, s, {x \in Plain(s, MatLike(s)) : s[x].t \in ts}, FreeM(s) \ av, FreshAnyM(ts, 1..(MaxDim + 1), 1..(MaxDim + 1)))
           : k \in Coin(85)}
NZ(S) == IF S \ {0} = {} THEN {1} ELSE S \ {0}
MoveT(t, m) == ConvM(t, m)

ActStack ==
    \E f \in Pick({"v", "h"}) :
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in (IF f = "v" THEN PickDim(a.s, {a.x}, Types, Dims, NZ({m.c})) ELSE PickDim(a.s, {a.x}, Types, NZ({m.r}), Dims)) :
    \E o \in {TVal(b.s, b.x)} :
        LET t == CommonT(m.t, o.t) IN
        IF (f = "v" /\ m.c = o.c) \/ (f = "h" /\ m.r = o.r)
        THEN \E q \in {IF f = "v" THEN VStack(m, o) ELSE HStack(m, o)} : \E d \in DestM(b.s, q) :
             Do([op |-> "stack", f |-> f, a |-> a.x, b |-> b.x, d |-> d], b.s, EffM(b.s, d, t, q))
        ELSE Do([op |-> "stack", f |-> f, a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))
ActStackV ==
    \E f \in Pick({"v", "h"}) :
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in PickSized(a.s, {}, Types, IF f = "v" THEN m.c ELSE m.r) :
    \E o \in {b.s[b.x]} :
        LET t == CommonT(m.t, o.t) IN
        IF (f = "v" /\ m.c = o.c) \/ (f = "h" /\ m.r = o.c)
        THEN \E q \in {IF f = "v" THEN VStack(m, RowM(o.e)) ELSE HStack(m, ColM(o.e))} : \E d \in DestM(b.s, q) :
             Do([op |-> "stackv", f |-> f, a |-> a.x, b |-> b.x, d |-> d], b.s, EffM(b.s, d, t, q))
        ELSE Do([op |-> "stackv", f |-> f, a |-> a.x, b |-> b.x, d |-> ""], b.s, Thr(b.s))
ActConcat ==
    \E a \in PickV(store, {}) :
    \E b \in PickVT(a.s, {a.x}, Types) :
        LET m == a.s[a.x]  o == b.s[b.x]  t == CommonT(b.s[a.x].t, o.t)
            q == [r |-> 1, c |-> b.s[a.x].c + o.c, e |-> b.s[a.x].e \o o.e] IN
        \E d \in DestV(b.s, q) :
           Do([op |-> "concat", a |-> a.x, b |-> b.x, d |-> d], b.s, EffV(b.s, d, t, q))

(* A range of rows or columns of a dimension of size k: mostly inside. *)
Lo(k) == Bias(88, 0..(k - 1), 0..(k + 1))
Hi(k, lo) == Bias(80, (lo + 1)..k, {lo, lo + 1, lo + 3, k + 2, All} \cup (IF lo > 0 THEN {lo - 1} ELSE {}))
RangeOk(k, lo, hi) == lo < hi /\ lo < k
ActExtract ==
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E r0 \in Lo(m.r), c0 \in Lo(m.c) : \E r1 \in Hi(m.r, r0), c1 \in Hi(m.c, c0) :
        IF RangeOk(m.r, r0, r1) /\ RangeOk(m.c, c0, c1)
        THEN \E q \in {SubMat(m, r0, Min2(r1, m.r), c0, Min2(c1, m.c))} : \E d \in DestM(a.s, q) :
             Do([op |-> "extract", a |-> a.x, r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1, d |-> d], a.s, EffM(a.s, d, m.t, q))
        ELSE Do([op |-> "extract", a |-> a.x, r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1, d |-> ""], a.s, Thr(a.s))
ActExtractLine ==
    \E f \in Pick({"row", "col"}) :
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} :
    \E kk \in {<<IF f = "row" THEN m.r ELSE m.c, IF f = "row" THEN m.c ELSE m.r>>} :
    \E i \in Lo(kk[1]), lo \in Lo(kk[2]) : \E hi \in Hi(kk[2], lo) :
        IF i < kk[1] /\ RangeOk(kk[2], lo, hi)
        THEN \E q \in {[r |-> 1, c |-> Min2(hi, kk[2]) - lo,
                        e |-> (IF f = "row" THEN SubMat(m, i, i + 1, lo, Min2(hi, m.c)) ELSE SubMat(m, lo, Min2(hi, m.r), i, i + 1)).e]} :
             \E d \in DestV(a.s, q) :
             Do([op |-> "extractline", f |-> f, a |-> a.x, i |-> i, lo |-> lo, hi |-> hi, d |-> d], a.s, EffV(a.s, d, m.t, q))
        ELSE Do([op |-> "extractline", f |-> f, a |-> a.x, i |-> i, lo |-> lo, hi |-> hi, d |-> ""], a.s, Thr(a.s))
(* Exchange two rows or columns, in a range of the other dimension. *)
ActSwapLines ==
    \E f \in Pick({"row", "col"}) :
    \E a \in PickOp(85, store, {x \in NonEmpty(store, MatLike(store)) : Writable(store, x)}, FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {TVal(a.s, a.x)} :
    \E kk \in {<<IF f = "row" THEN m.r ELSE m.c, IF f = "row" THEN m.c ELSE m.r>>} :
    \E i \in Pick(0..(kk[1] - 1)), j \in Pick(0..(kk[1] - 1)), lo \in Bias(50, {0}, 0..kk[2]) :
    \E hi \in Bias(40, {All}, {h \in {lo - 1, lo, lo + 1, lo + 2, kk[2], kk[2] + 2} : h >= 0}) :
        Do([op |-> "swaplines", f |-> f, a |-> a.x, i |-> i, j |-> j, lo |-> lo, hi |-> hi], a.s,
           Ret(Write(a.s, a.x, IF f = "row" THEN SwapRows(m, i, j, lo, Min2(hi, m.c)) ELSE SwapCols(m, i, j, lo, Min2(hi, m.r))), None))
ActRemove ==
    \E f \in Pick({"row", "col"}) :
    \E a \in PickOp(85, store, NonEmpty(store, Mats(store)), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E o \in {a.s[a.x]} :
    \E i \in Lo(IF f = "row" THEN o.r ELSE o.c) :
        Do([op |-> "remove", f |-> f, a |-> a.x, i |-> i], a.s,
           IF i < (IF f = "row" THEN o.r ELSE o.c) THEN Ret(Put(a.s, a.x, MObj(o.t, IF f = "row" THEN DropRow(o, i) ELSE DropCol(o, i))), None)
           ELSE Thr(a.s))

-----------------------------------------------------------------------------
(* Generators. *)
ActGen ==
    \E f \in Pick({"identity", "identityv", "eye", "eye", "zeros", "ones", "zerosv", "onesv"}) :
    \E t \in Pick(Types), r \in Bias(90, Dims, {0}), c \in Bias(90, Dims, {0}) :
    \E v \in FreshVals(t) :
        LET vec == f \in {"zerosv", "onesv"}
            bad == r = 0 \/ (f \in {"eye", "zeros", "ones"} /\ c = 0)
            q == CASE f = "identity" -> EyeRC(r, r, One) [] f = "identityv" -> EyeRC(r, r, v) [] f = "eye" -> EyeRC(r, c, v)
                   [] f = "zeros" -> ZeroM(r, c) [] f = "ones" -> ConstM(r, c, One)
                   [] f = "zerosv" -> ZeroM(1, r) [] f = "onesv" -> ConstM(1, r, One)
        IN
        IF bad THEN Do([op |-> "gen", f |-> f, t |-> t, r |-> r, c |-> c, v |-> v, d |-> ""], store, Thr(store))
        ELSE \E d \in (IF vec THEN DestV(store, q) ELSE DestM(store, q)) :
             Do([op |-> "gen", f |-> f, t |-> t, r |-> r, c |-> c, v |-> v, d |-> d], store,
                IF vec THEN EffV(store, d, t, q) ELSE EffM(store, d, t, q))
(* Matrix to vector: diag, ravel, to_vector. *)
ActMtoV ==
    \E f \in Pick({"diag", "ravel", "tovector"}) :
    \E a \in (IF f = "tovector" THEN PickOp(80, store, Plain(store, Mats(store)), FreeM(store), FreshAnyM(Types, Dims, Dims)) ELSE PickM(store, {})) :
    \E m \in {TVal(a.s, a.x)} :
    \E e \in {IF f = "diag" THEN DiagV(m) ELSE m.e} :
    \E q \in {[r |-> 1, c |-> Len(e), e |-> e]} : \E d \in DestV(a.s, q) :
        Do([op |-> "mtov", f |-> f, a |-> a.x, d |-> d], a.s, EffV(a.s, d, m.t, q))
(* Vector to matrix: diagonal, row, column. *)
ActVtoM ==
    \E f0 \in Pick({"diag", "row", "col"}) :
    \E a \in PickV(store, {}) :
    \E o \in {a.s[a.x]} :
    \E f \in {IF f0 = "diag" /\ o.c > 17 THEN "row" ELSE f0} :
    \E q \in {IF f = "diag" THEN (LET F(i, j) == IF i = j THEN o.e[i + 1] ELSE Zero IN Mk(o.c, o.c, F))
              ELSE IF f = "row" THEN RowM(o.e) ELSE ColM(o.e)} :
    \E d \in DestM(a.s, q) :
        Do([op |-> "vtom", f |-> f, a |-> a.x, d |-> d], a.s, EffM(a.s, d, o.t, q))
(* num evenly spaced values; the last one when only one is asked for. *)
LinVal(x, y, num, i) == IF num = 1 THEN y ELSE Add(x, Mul(Sub(y, x), Q(i - 1, 0, num - 1)))
RealTypes == {t \in Types : ~IsCplx(t)}
ActSpace ==
    \E f \in Pick({"lin", "lin", "log"}), t \in Pick(RealTypes) :
    \E x \in FreshVals(t), y \in FreshVals(t), num \in Pick({0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 17}), base \in Pick({10, 2, 3}) :
    \E p \in {IF t = "i" /\ num >= 2 /\ (y[1] - x[1]) % (num - 1) # 0 THEN 2 ELSE num} :
    \E xx \in {IF f = "log" /\ t = "i" THEN AbsR(x) ELSE x}, yy \in {IF f = "log" /\ t = "i" THEN AbsR(y) ELSE y} :
    \E pp \in {IF t = "i" /\ p >= 2 /\ (yy[1] - xx[1]) % (p - 1) # 0 THEN 2 ELSE p} :
    \E e \in {TLCEval([i \in 1..pp |-> LinVal(xx, yy, pp, i)])} :
    \E q \in {[r |-> 1, c |-> pp, e |-> IF f = "lin" THEN e
                                       ELSE IF t = "i" THEN [i \in 1..pp |-> PowQ(Int2Q(IF e[i][1] > 6 THEN 2 ELSE base), e[i][1])]
                                       ELSE [i \in 1..pp |-> <<"pow", Int2Q(base), e[i]>>]]} :
    \E bb \in {IF t = "i" /\ \E i \in 1..pp : e[i][1] > 6 THEN 2 ELSE base} :
    \E q2 \in {IF f = "log" /\ t = "i" THEN [q EXCEPT !.e = [i \in 1..pp |-> PowQ(Int2Q(bb), e[i][1])]] ELSE q} :
    \E d \in (IF f = "lin" /\ pp >= 2 /\ Dyadic(Mul(Sub(yy, xx), Q(1, 0, pp - 1))) THEN DestV(store, q2) ELSE {""}) :
        Do([op |-> "space", f |-> f, t |-> t, x |-> xx, y |-> yy, num |-> pp, base |-> bb, d |-> d], store, EffV(store, d, t, q2))

-----------------------------------------------------------------------------
(* Searches and reductions. *)
NonZeros(m) == SelectSeq([i \in 1..Len(m.e) |-> i - 1], LAMBDA i : m.e[i + 1] # Zero)
SparseM(t, r, c) == UNION {{Sparse(t, r, c)} : k \in Coin(50)}
PickSparse(s) == PickOp(45, s, Plain(s, Mats(s)), FreeM(s),
                        UNION {SparseM(t, r, c) : t \in Pick(Types), r \in Bias(30, {1}, Dims), c \in Bias(20, {1}, Dims)})
NatV(idx) == [k |-> "V", t |-> "u", r |-> 1, c |-> Len(idx), e |-> [i \in 1..Len(idx) |-> Int2Q(idx[i])]]
ActFlatNonZero ==
    \E a \in PickSparse(store) :
        Do([op |-> "flatnonzero", a |-> a.x], a.s, Ret(a.s, NatV(NonZeros(a.s[a.x]))))
ActFind ==
    \E a \in PickSparse(store) :
    \E m \in {a.s[a.x]} :
    \E idx \in {NonZeros(m)} :
    \E k \in Bias(40, {All}, 0..(Len(idx) + 1)), first \in Coin(50) :
        LET sel == IF k >= Len(idx) THEN idx ELSE IF first THEN SubSeq(idx, 1, k) ELSE SubSeq(idx, Len(idx) - k + 1, Len(idx))
            v == NatV(sel)
        IN  Do([op |-> "find", a |-> a.x, k |-> k, first |-> first], a.s,
               Ret(a.s, IF k = 0 THEN [k |-> "M", t |-> "u", r |-> 0, c |-> 0, e |-> <<>>]
                        ELSE IF m.r = 1 THEN [v EXCEPT !.k = "M"] ELSE [v EXCEPT !.k = "M", !.r = Len(sel), !.c = 1]))
ActSum ==
    \E a \in PickV(store, {}) :
        \E rec \in InUnit1([op |-> "sum", a |-> a.x], a.s, a.x, <<>>) : LET o == a.s[a.x] IN Do(rec, a.s, Ret(a.s, RSca(o.t, SumQ(o.e, o.c))))
ActTrace ==
    \E a \in PickM(store, {}) :
    \E m \in {TVal(a.s, a.x)} : \E rec \in InUnit1([op |-> "trace", a |-> a.x], a.s, a.x, <<>>) : Do(rec, a.s, Ret(a.s, RSca(m.t, TraceQ(m))))
(* The first position of the extreme value. *)
Best(f, e) == CHOOSE i \in 1..Len(e) : /\ \A j \in 1..Len(e) : IF f = "min" THEN Le(e[i], e[j]) ELSE Le(e[j], e[i])
                                       /\ \A j \in 1..(i - 1) : e[j] # e[i]
(* Values from a small set, so that the extreme one is there more than once. *)
FewVals(t, len) == LET S == {RandVal(t), RandVal(t)} IN TLCEval([i \in 1..len |-> IF RandomElement(1..10) <= 8 THEN RandomElement(S) ELSE RandVal(t)])
ActMinMaxV ==
    \E f \in Pick({"min", "max"}) :
    \E a \in PickOp(40, store, {x \in Plain(store, Vecs(store)) : ~IsCplx(store[x].t)}, FreeV(store),
                    UNION {{VObj(t, FewVals(t, l))} : t \in Pick(RealTypes), l \in Pick(VDims)}) :
    \E o \in {a.s[a.x]} :
        \E rec \in InUnit1([op |-> "minmaxv", f |-> f, a |-> a.x], a.s, a.x, <<1, 0>>) : Do(rec, a.s,
           Ret(a.s, RList(IF o.c = 0 THEN <<RSca(o.t, Zero), RNat(0)>> ELSE LET b == Best(f, o.e) IN <<RSca(o.t, o.e[b]), RNat(b - 1)>>)))
ActMinMaxM ==
    \E f \in Pick({"min", "max"}) :
    \E a \in PickOp(50, store, {x \in Plain(store, Mats(store)) : ~IsCplx(store[x].t)}, FreeM(store), FreshAnyM(RealTypes, Dims, Dims)) :
    \E o \in {a.s[a.x]} :
    \E q \in {[r |-> 1, c |-> IF Size(o) = 0 THEN 0 ELSE o.c,
               e |-> IF Size(o) = 0 THEN <<>> ELSE TLCEval([j \in 1..o.c |-> LET col == SubMat(o, 0, o.r, j - 1, j).e IN col[Best(f, col)]])]} :
    \E d \in DestV(a.s, q) :
        \E rec \in InUnit1([op |-> "minmaxm", f |-> f, a |-> a.x, d |-> d], a.s, a.x, <<>>) : Do(rec, a.s, EffV(a.s, d, o.t, q))
(* Sum and inner product of a part of the elements. *)
ActAccumulate ==
    \E a \in PickOp(70, store, Plain(store, Mats(store) \cup Vecs(store)), FreeV(store), FreshAnyV(Types, VDims)) :
    \E o \in {a.s[a.x]} :
    \E lo \in Pick(0..Len(o.e)) : \E hi \in Pick(lo..Len(o.e)), v \in FreshVals(o.t) :
        Do([op |-> "accumulate", a |-> a.x, lo |-> lo, hi |-> hi, v |-> v], a.s,
           Ret(a.s, RSca(o.t, Add(v, SumQ([i \in 1..(hi - lo) |-> o.e[lo + i]], hi - lo)))))
ActInner ==
    \E a \in PickOp(70, store, ProdOk(store, Vecs(store)), FreeV(store), FreshAnyV(Types, VDims)) :
    \E o \in {a.s[a.x]} :
    \E b \in PickOp(60, a.s, {x \in ProdOk(a.s, Mats(a.s) \cup Vecs(a.s)) : a.s[x].t = o.t}, FreeM(a.s), FreshAnyM({o.t}, Dims, Dims)) :
    \E p \in {b.s[b.x]} :
    \E len \in Pick(0..Min2(Len(o.e), Len(p.e))) :
    \E lo \in Pick(0..(Len(o.e) - len)), lo2 \in Pick(0..(Len(p.e) - len)), v \in FreshVals(o.t) :
        Do([op |-> "inner", a |-> a.x, b |-> b.x, lo |-> lo, hi |-> lo + len, lo2 |-> lo2, v |-> v], b.s,
           Ret(b.s, RSca(o.t, Add(v, SumQ([i \in 1..len |-> Mul(o.e[lo + i], p.e[lo2 + i])], len)))))
RECURSIVE Fact(_)
Fact(k) == IF k <= 0 THEN 1 ELSE k * Fact(k - 1)
ActMisc ==
    \E f \in Pick({"factorial", "factorial", "basis"}) :
    \E t \in Pick(IF f = "basis" THEN {"f", "d"} ELSE {"i", "u", "d"}), k \in Pick(0..12) :
        Do([op |-> "misc", f |-> f, t |-> t, k |-> k], store,
           Ret(store, IF f = "basis" THEN RSca("i", Int2Q(2)) ELSE RSca(t, Int2Q(Fact(k)))))

-----------------------------------------------------------------------------
SameElems(p, q) == LET All3(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})] IN All3(p) = All3(q)
(* Rearrangements lose and duplicate nothing. *)
LawStruct ==
    LET o == out' IN
    /\ o.op \in {"stack", "stackv"} /\ o.ok => LET m == Arg(o.a.a)  p == Arg(o.a.b) IN SameElems(o.res.e, m.e \o p.e)
    /\ o.op = "stack" /\ o.ok => LET m == Arg(o.a.a) IN (SubMat(o.res, 0, m.r, 0, m.c)).e = m.e
    /\ o.op = "swaplines" => LET m == Arg(o.a.a)  q == Val(store', o.a.a) IN SameElems(m.e, q.e) /\ m.r = q.r /\ m.c = q.c
    /\ o.op = "remove" /\ o.ok => LET m == Arg(o.a.a)  q == Val(store', o.a.a) IN Len(m.e) = Len(q.e) + (IF o.a.f = "row" THEN m.c ELSE m.r)
LawGen ==
    LET o == out' IN
    /\ o.op = "mtov" /\ o.a.f = "ravel" => o.res.e = Arg(o.a.a).e
    /\ o.op = "vtom" /\ o.a.f = "diag" => DiagV(o.res) = Arg(o.a.a).e
    /\ o.op = "space" /\ o.a.f = "lin" /\ o.a.num >= 2 => o.res.e[1] = o.a.x /\ o.res.e[o.a.num] = o.a.y
LawFind ==
    LET o == out' IN
    /\ o.op = "find" /\ o.a.k # 0 => \A i \in 1..(Len(o.res.e) - 1) : Lt(o.res.e[i], o.res.e[i + 1])
    /\ o.op = "flatnonzero" => LET m == Arg(o.a.a) IN
         {o.res.e[i][1] : i \in 1..Len(o.res.e)} = {i - 1 : i \in {j \in 1..Len(m.e) : m.e[j] # Zero}}
=============================================================================
