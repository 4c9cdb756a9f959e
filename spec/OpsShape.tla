------------------------------- MODULE OpsShape -------------------------------
(* Every combination of shapes: each operation that relates the shapes of its
   operands is applied, in a state with nothing but the operands, to every
   combination of small shapes (exhaustively, Sim = FALSE).  An allowed one
   gives its result, every other one is rejected and changes nothing.       *)
EXTENDS OpsRand

CONSTANT Lim                   \* the largest number of rows and columns

(* A fixed content for every shape: not singular when square. *)
CellA(i, j) == IF i = j THEN Int2Q(3 + i) ELSE Int2Q(((2 * i + 3 * j) % 4) - 1)
CellB(i, j) == IF i = j THEN Int2Q(2 + j) ELSE Int2Q(((i + 2 * j) % 3) - 1)
ShA(t, sh) == MObj(t, Mk(sh[1], sh[2], CellA))
ShB(t, sh) == MObj(t, Mk(sh[1], sh[2], CellB))
ShV(t, k) == VObj(t, [i \in 1..k |-> Int2Q(i - 2)])
ShW(t, k) == VObj(t, [i \in 1..k |-> Int2Q(2 * i - 3)])
Shapes == (0..Lim) \X (0..Lim)
Full == {sh \in Shapes : sh[1] > 0 /\ sh[2] > 0}
Lens == 0..(Lim + 1)
TPairs == {<<"i", "i">>, <<"d", "i">>, <<"z", "d">>, <<"c", "z">>}
SPairs == {<<"i", "i">>, <<"d", "d">>, <<"z", "z">>}

Two(a, b) == [store EXCEPT !["A"] = a, !["B"] = b]
MV(a, v) == [store EXCEPT !["A"] = a, !["u"] = v]
VV(v, w) == [store EXCEPT !["u"] = v, !["v"] = w]
One1(a) == [store EXCEPT !["A"] = a]

(* Two matrices. *)
ShapeMM ==
    \E p \in Shapes, q \in Shapes, tt \in TPairs :
        LET a == ShA(tt[1], p)  b == ShB(tt[2], q)  s == Two(a, b)  t == CommonT(tt[1], tt[2])
            same == p = q
            sc(u) == [t |-> u, v |-> Int2Q(2)]
        IN
        \/ \E f \in {"+", "-"} :
              Do([op |-> "mbin", f |-> f, a |-> "A", b |-> "B", d |-> ""], s, IF same THEN EffM(s, "", t, ZipF(f, t, a, b)) ELSE Thr(s))
        \/ /\ Convertible(tt[2], tt[1])
           /\ \E f \in {"+", "-"} :
              Do([op |-> "minp", f |-> f, a |-> "A", b |-> "B"], s, IF same THEN Ret(Write(s, "A", ZipF(f, t, a, b)), None) ELSE Thr(s))
        \/ /\ tt[2] \in CmpTypes("==", tt[1])
           /\ \E f \in {"==", "!="}, red \in {"", "all", "any"} :
              Do([op |-> "cmpmm", f |-> f, red |-> red, a |-> "A", b |-> "B"], s,
                 IF same THEN Ret(s, CmpRes(red, "M", p[1], p[2], [i \in 1..Len(a.e) |-> Rel(f, tt[1], tt[2], a.e[i], b.e[i], tol)])) ELSE Thr(s))
        \/ /\ tt[1] \in FirstTypes("<") /\ tt[2] \in CmpTypes("<", tt[1])
           /\ \E f \in {"<", ">", "<=", ">="}, red \in {"", "all", "any"} :
              Do([op |-> "cmpmm", f |-> f, red |-> red, a |-> "A", b |-> "B"], s,
                 IF same THEN Ret(s, CmpRes(red, "M", p[1], p[2], [i \in 1..Len(a.e) |-> Rel(f, tt[1], tt[2], a.e[i], b.e[i], tol)])) ELSE Thr(s))
        \/ Do([op |-> "mul", a |-> "A", b |-> "B", d |-> ""], s, IF p[2] = q[1] THEN EffM(s, "", t, MulM(a, b)) ELSE Thr(s))
        \/ /\ Convertible(tt[2], tt[1])
           /\ Do([op |-> "mulinp", a |-> "A", b |-> "B"], s, IF p[2] = q[1] /\ q[1] = q[2] THEN Ret(Write(s, "A", MulM(a, b)), None) ELSE Thr(s))
        \/ \E f \in {"prod", "sub", "less"} :
              Do([op |-> "binfun", f |-> f, a |-> "A", b |-> "B", sa |-> sc("i"), sb |-> sc("i"), d |-> ""], s,
                 IF same THEN EffM(s, "", t, BinOf(f, a, b, sc("i"), sc("i"))) ELSE Thr(s))
        \/ Do([op |-> "lincomb", f |-> "lin", a |-> "A", b |-> "B", sa |-> sc(tt[1]), sb |-> sc(tt[2]), d |-> ""], s,
              IF same THEN EffM(s, "", t, BinOf("lin", a, b, sc(tt[1]), sc(tt[2]))) ELSE Thr(s))
        \/ \E f \in {"v", "h"} :
              Do([op |-> "stack", f |-> f, a |-> "A", b |-> "B", d |-> ""], s,
                 IF f = "v" /\ p[2] = q[2] THEN EffM(s, "", t, VStack(a, b)) ELSE IF f = "h" /\ p[1] = q[1] THEN EffM(s, "", t, HStack(a, b)) ELSE Thr(s))
(* Two matrices of the same type. *)
ShapeSS ==
    \E p \in Shapes, q \in Shapes, tt \in SPairs :
        LET a == ShA(tt[1], p)  b == ShB(tt[2], q)  s == Two(a, b)  t == tt[1] IN
        \/ Do([op |-> "allclose", a |-> "A", b |-> "B", q |-> 1], s,
              IF p = q THEN Ret(s, RBool(\A i \in 1..Len(a.e) : CloseEl(IsCplx(t), a.e[i], b.e[i], <<1, 1>>))) ELSE Thr(s))
        \/ /\ ~IsCplx(t)
           /\ Do([op |-> "compare", a |-> "A", b |-> "B"], s, IF Len(a.e) = Len(b.e) THEN Ret(s, RNat(FirstDiff(a, b))) ELSE Thr(s))
        \/ /\ p \in Full /\ q \in Full
           /\ \E f \in {"ctrb", "obsv"} :
              Do([op |-> "blocks", f |-> f, a |-> "A", b |-> "B", d |-> ""], s,
                 IF p[1] = p[2] /\ (IF f = "ctrb" THEN q[1] ELSE q[2]) = p[1] THEN EffM(s, "", t, BlocksOf(f, a, b)) ELSE Thr(s))
        \/ /\ p \in Full /\ q \in Full
           /\ LET sq == q[1] = q[2]  dt == IF sq THEN Det(b) ELSE Zero
                  F(x) == Div(x, dt) IN
              Do([op |-> "div", a |-> "A", b |-> "B", d |-> "", prec |-> 9], s,
                 IF sq /\ dt # Zero /\ p[2] = q[1] THEN EffM(s, "", CommonT(t, "d"), MapE(MulM(a, AdjM(b)), F)) ELSE Thr(s))
(* A matrix and a vector. *)
ShapeMV ==
    \E p \in Shapes, k \in Lens, tt \in TPairs :
        LET a == ShA(tt[1], p)  v == ShV(tt[2], k)  s == MV(a, v)  t == CommonT(tt[1], tt[2]) IN
        \/ \E via \in {"op", "dot"} :
              Do([op |-> "mulv", via |-> via, a |-> "A", b |-> "u", d |-> ""], s,
                 IF p[2] = k THEN EffV(s, "", t, [r |-> 1, c |-> p[1], e |-> MulM(a, ColM(v.e)).e]) ELSE Thr(s))
        \/ \E f \in {"v", "h"} :
              Do([op |-> "stackv", f |-> f, a |-> "A", b |-> "u", d |-> ""], s,
                 IF f = "v" /\ p[2] = k THEN EffM(s, "", t, VStack(a, RowM(v.e))) ELSE IF f = "h" /\ p[1] = k THEN EffM(s, "", t, HStack(a, ColM(v.e))) ELSE Thr(s))
ShapeSolve ==
    \E p \in Full, k \in Lens, t \in {"d", "f", "i"} :
        LET a == ShA(t, p)  v == ShV(t, k)  s == MV(a, v)
            tr == TransposeM(a)
            g == IF p[1] = p[2] THEN a ELSE IF p[1] > p[2] THEN MulM(tr, a) ELSE MulM(a, tr)
            dt == Det(g)
            adj == AdjM(g)
            b == ColM(v.e)
            y == IF p[1] = p[2] THEN MulM(adj, b) ELSE IF p[1] > p[2] THEN MulM(adj, MulM(tr, b)) ELSE MulM(tr, MulM(adj, b))
        IN  /\ dt # Zero
            /\ Do([op |-> "solve", a |-> "A", b |-> "u", prec |-> IF t = "f" THEN 4 ELSE 8], s,
                  IF k = p[1] THEN Ret(s, RVec("d", TLCEval([i \in 1..p[2] |-> Div(y.e[i], dt)]))) ELSE Thr(s))
(* Two vectors. *)
ShapeVV ==
    \E k \in Lens, l \in Lens, tt \in TPairs :
        LET v == ShV(tt[1], k)  w == ShW(tt[2], l)  s == VV(v, w)  t == CommonT(tt[1], tt[2])  z == [t |-> "i", v |-> Zero] IN
        \/ \E f \in {"+", "-", "*"} :
              Do([op |-> "vbin", f |-> f, a |-> "u", b |-> "v", d |-> ""], s, IF k = l THEN EffV(s, "", t, ZipF(f, t, v, w)) ELSE Thr(s))
        \/ /\ Convertible(tt[2], tt[1])
           /\ \E f \in {"+", "-"} :
              Do([op |-> "vinp", f |-> f, a |-> "u", b |-> "v"], s, IF k = l THEN Ret(Write(s, "u", ZipF(f, t, v, w)), None) ELSE Thr(s))
        \/ /\ tt[2] \in CmpTypes("==", tt[1])
           /\ \E f \in {"==", "!="}, red \in {"", "all", "any"} :
              Do([op |-> "cmpvv", f |-> f, red |-> red, a |-> "u", b |-> "v"], s,
                 IF k = l THEN Ret(s, CmpRes(red, "V", 1, k, [i \in 1..k |-> Rel(f, tt[1], tt[2], v.e[i], w.e[i], tol)])) ELSE Thr(s))
        \/ Do([op |-> "dot", a |-> "u", b |-> "v"], s,
              IF k = l THEN Ret(s, RSca(t, SumQ([i \in 1..k |-> Mul(v.e[i], w.e[i])], k))) ELSE Thr(s))
        \/ \E f \in {"sub", "less"} :
              Do([op |-> "binfun", f |-> f, a |-> "u", b |-> "v", sa |-> z, sb |-> z, d |-> ""], s,
                 IF k = l THEN EffV(s, "", t, BinOf(f, v, w, z, z)) ELSE Thr(s))
        \/ /\ k # l /\ tt[1] # "i" /\ tt[2] # "i"
           /\ Do([op |-> "binfun", f |-> "proj", a |-> "u", b |-> "v", sa |-> z, sb |-> z, d |-> ""], s, Thr(s))
        \/ /\ tt[1] = tt[2]
           /\ Do([op |-> "allclose", a |-> "u", b |-> "v", q |-> 1], s,
                 IF k = l THEN Ret(s, RBool(\A i \in 1..k : CloseEl(IsCplx(t), v.e[i], w.e[i], <<1, 1>>))) ELSE Thr(s))
        \/ /\ tt[1] = tt[2] /\ ~IsCplx(t)
           /\ Do([op |-> "compare", a |-> "u", b |-> "v"], s, IF k = l THEN Ret(s, RNat(FirstDiff(v, w))) ELSE Thr(s))
(* One matrix: what only a square one has. *)
ShapeM ==
    \E p \in Shapes, t \in {"i", "d", "z"} :
        LET a == ShA(t, p)  s == One1(a)  sq == p[1] = p[2] IN
        \/ p \in Full /\ Do([op |-> "det", a |-> "A", prec |-> 10], s, IF sq THEN Ret(s, RSca(t, Det(a))) ELSE Thr(s))
        \/ p \in Full /\ Do([op |-> "adj", a |-> "A", d |-> "", prec |-> 10], s, IF sq THEN EffM(s, "", t, AdjM(a)) ELSE Thr(s))
        \/ Do([op |-> "inv", a |-> "A", d |-> "", prec |-> 9], s,
              IF ~sq THEN Thr(s) ELSE EffM(s, "", CommonT(t, "d"), IF p[1] = 0 THEN EmptyM ELSE InvOf(a, Det(a))))
        \/ /\ p \in Full /\ (t # "i" \/ ~sq)
           /\ LET f == Crout(a) IN Do([op |-> "lu", a |-> "A", prec |-> 9], s, IF sq THEN Ret(s, RList(<<RMat(t, f.l), RMat(t, f.u)>>)) ELSE Thr(s))
        \/ /\ t # "i"
           /\ LET below == Below(a) IN
              Do([op |-> "norm", f |-> "sub", a |-> "A"], s,
                 IF Size(a) = 0 THEN Ret(s, RSca(BaseOf(t), Zero)) ELSE IF ~sq THEN Thr(s)
                 ELSE Ret(s, RSca(BaseOf(t), SqrtSym(SumSq([i \in 1..Len(below) |-> a.e[below[i]]])))))
        \/ p \in Full /\ \E k \in 0..2 : /\ sq \/ k > 0
                                         /\ Do([op |-> "powm", a |-> "A", p |-> k, d |-> ""], s, IF sq THEN EffM(s, "", t, PowM(a, k)) ELSE Thr(s))
        \/ /\ ~sq /\ t # "i"
           /\ Do([op |-> "expm", a |-> "A", acc |-> 6], s, Thr(s))
        \/ LET bad == p[1] >= 2 /\ p[2] >= 2 /\ ~sq IN
           Do([op |-> "poly", a |-> "A", d |-> ""], s,
              IF bad THEN Thr(s)
              ELSE LET e == IF p[1] = 1 \/ p[2] = 1 \/ Size(a) = 0 THEN PolyRoots(a.e) ELSE CharPoly(a) IN EffV(s, "", t, [r |-> 1, c |-> Len(e), e |-> e]))
        \/ \E r \in 0..(Lim * Lim), c \in 0..(Lim * Lim), via \in {"member", "utility"} :
              /\ r * c <= Lim * Lim + 3
              /\ Do([op |-> "reshape", a |-> "A", r |-> r, c |-> c, via |-> via], s,
                    IF r * c = Size(a) THEN Ret(Put(s, "A", MObj(t, ReshapeM(a, r, c))), None) ELSE Thr(s))
        \/ \E f \in {"row", "col"}, i \in 0..(Lim + 1) :
              Do([op |-> "remove", f |-> f, a |-> "A", i |-> i], s,
                 IF i < (IF f = "row" THEN p[1] ELSE p[2]) THEN Ret(Put(s, "A", MObj(t, IF f = "row" THEN DropRow(a, i) ELSE DropCol(a, i))), None) ELSE Thr(s))
(* Ranges. *)
ShapeRange ==
    \E p \in Shapes, t \in {"d"} :
        LET a == ShA(t, p)  s == One1(a)  ends == (0..(Lim + 1)) \cup {All} IN
        \/ \E r0 \in 0..Lim, c0 \in 0..Lim, r1 \in ends, c1 \in ends :
              Do([op |-> "extract", a |-> "A", r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1, d |-> ""], s,
                 IF RangeOk(p[1], r0, r1) /\ RangeOk(p[2], c0, c1) THEN EffM(s, "", t, SubMat(a, r0, Min2(r1, p[1]), c0, Min2(c1, p[2]))) ELSE Thr(s))
        \/ \E f \in {"row", "col"}, i \in 0..(Lim + 1), lo \in 0..(Lim + 1), hi \in ends :
              LET k == IF f = "row" THEN p[1] ELSE p[2]  l == IF f = "row" THEN p[2] ELSE p[1] IN
              Do([op |-> "extractline", f |-> f, a |-> "A", i |-> i, lo |-> lo, hi |-> hi, d |-> ""], s,
                 IF i < k /\ RangeOk(l, lo, hi)
                 THEN EffV(s, "", t, [r |-> 1, c |-> Min2(hi, l) - lo,
                                      e |-> (IF f = "row" THEN SubMat(a, i, i + 1, lo, Min2(hi, l)) ELSE SubMat(a, lo, Min2(hi, l), i, i + 1)).e])
                 ELSE Thr(s))
ShapeGen ==
    \E f \in {"identity", "identityv", "eye", "zeros", "ones", "zerosv", "onesv"}, t \in {"i", "d", "z"}, p \in Shapes :
        LET r == p[1]  c == p[2]  v == Int2Q(2)
            bad == r = 0 \/ (f \in {"eye", "zeros", "ones"} /\ c = 0)
            q == CASE f = "identity" -> EyeRC(r, r, One) [] f = "identityv" -> EyeRC(r, r, v) [] f = "eye" -> EyeRC(r, c, v)
                   [] f = "zeros" -> ZeroM(r, c) [] f = "ones" -> ConstM(r, c, One)
                   [] f = "zerosv" -> ZeroM(1, r) [] f = "onesv" -> ConstM(1, r, One)
        IN  Do([op |-> "gen", f |-> f, t |-> t, r |-> r, c |-> c, v |-> v, d |-> ""], store,
               IF bad THEN Thr(store) ELSE IF f \in {"zerosv", "onesv"} THEN EffV(store, "", t, q) ELSE EffM(store, "", t, q))

ShapeNext == n = 0 /\ (ShapeMM \/ ShapeSS \/ ShapeMV \/ ShapeSolve \/ ShapeVV \/ ShapeM \/ ShapeRange \/ ShapeGen)
=============================================================================
