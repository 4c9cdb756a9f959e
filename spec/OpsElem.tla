------------------------------- MODULE OpsElem -------------------------------
(* Norms, structural predicates, element-wise functions.                    *)
EXTENDS OpsStruct

(* A symbolic square root / absolute value, or the exact one. *)
SqrtSym(q) == <<"sqrt", q>>
SumSq(e) == SumQ(TLCEval([i \in 1..Len(e) |-> Norm2(e[i])]), Len(e))
AbsSym(x) == IF IsReal(x) THEN AbsR(x) ELSE <<"abs", x>>
FltT(t) == IF t \in {"i", "u", "b"} THEN "d" ELSE BaseOf(t)
NrmOk(s, X) == {x \in X : Within(Val(s, x).e, 64, 16)}
PickNM(s, ts) == PickOp(70, s, {x \in NrmOk(s, MatLike(s)) : s[x].t \in ts}, FreeM(s), FreshAnyM(ts, Dims, Dims))
PickNV(s, ts) == PickOp(65, s, {x \in NrmOk(s, Vecs(s)) : s[x].t \in ts}, FreeV(s), FreshAnyV(ts, VDims))
(* Sum of the absolute values, and the largest of several. *)
AbsSum(e) == IF \A i \in 1..Len(e) : IsReal(e[i]) THEN SumQ(TLCEval([i \in 1..Len(e) |-> AbsR(e[i])]), Len(e))
             ELSE <<"sum">> \o [i \in 1..Len(e) |-> AbsSym(e[i])]
RowOf(m, i) == SubMat(m, i, i + 1, 0, m.c).e
ActNormV ==
    \E f \in Pick({"square", "infinity"}) :
    \E a \in PickNV(store, Types) :
    \E o \in {a.s[a.x]} :
        \E rec \in Units([op |-> "norm", f |-> f, a |-> a.x], o.t, 1) :
        Do(rec, a.s,
           Ret(a.s, IF f = "square" THEN RSca(FltT(o.t), SqrtSym(SumSq(o.e)))
                    ELSE RSca(BaseOf(o.t), IF o.c = 0 THEN Zero ELSE <<"max">> \o [i \in 1..o.c |-> AbsSym(o.e[i])])))
ActNormM ==
    \E f \in Pick({"square", "infinity", "sub"}), sq \in Coin(85) :
    \E a \in (IF f = "sub" /\ sq THEN PickOp(40, store, {x \in NrmOk(store, MatLike(store)) : store[x].t # "i" /\ Val(store, x).r = Val(store, x).c}, FreeM(store),
                                             UNION {FreshM(t, k, k) : t \in Pick(Types \ {"i"}), k \in Pick(Dims)})
              ELSE PickNM(store, IF f = "sub" THEN Types \ {"i"} ELSE Types)) :
    \E m \in {TVal(a.s, a.x)} :
    \E below \in {SelectSeq([i \in 1..Len(m.e) |-> i], LAMBDA i : (i - 1) \div m.c > (i - 1) % m.c)} :
        \E rec \in Units([op |-> "norm", f |-> f, a |-> a.x], m.t, 1) :
        Do(rec, a.s,
           IF f = "square" THEN Ret(a.s, RSca(FltT(m.t), SqrtSym(SumSq(m.e))))
           ELSE IF f = "infinity" THEN Ret(a.s, RSca(BaseOf(m.t), IF Size(m) = 0 THEN Zero ELSE <<"max">> \o [i \in 1..m.r |-> AbsSum(RowOf(m, i - 1))]))
           ELSE IF Size(m) = 0 THEN Ret(a.s, RSca(BaseOf(m.t), Zero))
           ELSE IF m.r # m.c THEN Thr(a.s)
           ELSE Ret(a.s, RSca(BaseOf(m.t), SqrtSym(SumSq([i \in 1..Len(below) |-> m.e[below[i]]])))))
(* The length of a part of a column. *)
ActColLen ==
    \E a \in PickOp(70, store, {x \in NonEmpty(store, NrmOk(store, MatLike(store))) : Writable(store, x)}, FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {TVal(a.s, a.x)} :
    \E c \in Pick(0..(m.c - 1)), lo \in Pick(0..m.r) : \E hi \in Bias(50, {All}, lo..(m.r + 2)) :
        \E rec \in InUnit1([op |-> "collen", a |-> a.x, i |-> c, lo |-> lo, hi |-> hi], a.s, a.x, <<>>) : Do(rec, a.s,
           Ret(a.s, RSca(FltT(m.t), SqrtSym(IF Min2(hi, m.r) <= lo THEN Zero ELSE SumSq(SubMat(m, lo, Min2(hi, m.r), c, c + 1).e)))))
(* The number of halvings that bring the infinity norm to at most one. *)
RECURSIVE Halvings(_, _)
Halvings(x, k) == IF Le(x, One) THEN k ELSE Halvings(Mul(x, Q(1, 0, 2)), k + 1)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
AxisM(t, r, c) == {MObj(t, [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |->
                     LET x == RandomElement(ValsD) k == RandomElement(1..3) IN IF ~IsCplx(t) \/ k = 1 THEN x ELSE IF k = 2 THEN Mul(ImU, x) ELSE Q(3, -4, 1)])])}
AbsX(x) == IF IsReal(x) THEN AbsR(x) ELSE IF x[1] = 0 THEN Q(Abs(x[2]), 0, x[3]) ELSE IF x = Q(3, -4, 1) THEN Int2Q(5) ELSE <<0, 0, 0>>
ActLog2 ==
    \E a \in PickOp(60, store, {x \in NrmOk(store, MatLike(store)) : store[x].t # "i" /\ \A i \in 1..Len(Val(store, x).e) : AbsX(Val(store, x).e[i])[3] # 0},
                    FreeM(store), UNION {AxisM(t, r, c) : t \in Pick(Types \ {"i"}), r \in Pick(Dims), c \in Pick(Dims)}) :
    \E m \in {TVal(a.s, a.x)} :
    \E nrm \in {IF Size(m) = 0 THEN Zero
                ELSE LET rs == [i \in 1..m.r |-> LET e == RowOf(m, i - 1) IN SumQ(TLCEval([j \in 1..m.c |-> AbsX(e[j])]), m.c)] IN rs[Best("max", rs)]} :
    \E k \in {Halvings(nrm, 0)} :
        Do([op |-> "log2ceil", a |-> a.x], a.s, Ret(a.s, RList(<<RNat(k), RSca(BaseOf(m.t), Q(1, 0, Pow2(k)))>>)))

-----------------------------------------------------------------------------
(* Structural predicates. *)
Holds(f, m) ==
    LET all(G(_, _)) == \A i \in 0..(m.r - 1) : \A j \in 0..(m.c - 1) : G(i, j)
        Sym(i, j) == El(m, i, j) = El(m, j, i)
        Skew(i, j) == El(m, i, j) = Neg(El(m, j, i))
        Diag(i, j) == i = j \/ El(m, i, j) = Zero
        Zer(i, j) == El(m, i, j) = Zero
        Const(i, j) == El(m, i, j) = m.e[1]
        Ident(i, j) == El(m, i, j) = IF i = j THEN One ELSE Zero
        Low(i, j) == j <= i \/ El(m, i, j) = Zero
        Upp(i, j) == j >= i \/ El(m, i, j) = Zero
        sq == m.r = m.c
    IN
    CASE f = "square" -> sq [] f = "row" -> m.r = 1 [] f = "column" -> m.c = 1
      [] f = "symmetric" -> sq /\ all(Sym) [] f = "skew" -> sq /\ all(Skew)
      [] f = "diagonal" -> sq /\ all(Diag) [] f = "zero" -> all(Zer) [] f = "constant" -> all(Const)
      [] f = "identity" -> sq /\ all(Ident) [] f = "lower" -> sq /\ all(Low) [] f = "upper" -> sq /\ all(Upp)
Preds == {"square", "row", "column", "symmetric", "skew", "diagonal", "zero", "constant", "identity", "lower", "upper"}
(* A matrix that has the structure f, or has it but for one element. *)
Structured(f, t, r, c) ==
    LET e == TLCEval([i \in 1..(r * c) |-> RandVal(t)])
        at(i, j) == e[i * c + j + 1]
        v == RandVal(t)
        F(i, j) == CASE f = "symmetric" -> IF i <= j THEN at(i, j) ELSE at(j, i)
                     [] f = "skew" -> IF i = j THEN Zero ELSE IF i < j THEN at(i, j) ELSE Neg(at(j, i))
                     [] f = "diagonal" -> IF i = j THEN at(i, j) ELSE Zero
                     [] f = "zero" -> Zero [] f = "constant" -> v
                     [] f = "identity" -> IF i = j THEN One ELSE Zero
                     [] f = "lower" -> IF j <= i THEN at(i, j) ELSE Zero
                     [] f = "upper" -> IF j >= i THEN at(i, j) ELSE Zero
                     [] OTHER -> at(i, j)
    IN  Mk(r, c, F)
Spoil(t, m, k) == IF k > Len(m.e) THEN m ELSE [m EXCEPT !.e[k] = LET z == RandVal(t) IN IF z = @ THEN Add(z, One) ELSE z]
StructuredObj(f, t, r, c) ==
    UNION {{MObj(t, IF k THEN Spoil(t, m, IF g THEN RandomElement({1, Len(m.e), Min2(2, Len(m.e)), Max2(1, Len(m.e) - 1)}) ELSE RandomElement(1..Len(m.e))) ELSE m)}
           : k \in Coin(45), g \in Coin(50), m \in {Structured(f, t, r, c)}}
NeedsSq == {"symmetric", "skew", "diagonal", "identity", "lower", "upper"}
ActPred ==
    \E f \in Pick(Preds) :
    \E r \in Bias(30, {1}, Dims) : \E c \in (IF f \in NeedsSq THEN Bias(92, {r}, Dims) ELSE Pick(Dims)) :
    \E a \in PickOp(45, store, Plain(store, MatLike(store)), FreeM(store), UNION {StructuredObj(f, t, r, c) : t \in Pick(Types)}) :
        \E rec \in Units([op |-> "pred", f |-> f, a |-> a.x], IF f = "identity" THEN "i" ELSE a.s[a.x].t, 0) :
        Do(rec, a.s, Ret(a.s, RBool(Holds(f, Val(a.s, a.x)))))
(* A structured matrix in a slot, for views. *)
ActNewStruct ==
    \E f \in Pick(NeedsSq \cup {"zero", "constant"}), t \in Pick(Types), r \in Pick(Dims), d \in Pick(FreeM(store)) :
    \E c \in Bias(92, {r}, Dims) :
    \E o \in StructuredObj(f, t, r, c) :
        Do([op |-> "new", a |-> d, how |-> "elem", o |-> o], store, Ret(Put(store, d, o), None))

-----------------------------------------------------------------------------
(* Element-wise functions: result type and value. *)
SgnQ(x) == IF x[1] > 0 THEN One ELSE Int2Q(-1)
SgnV(x, t) == IF IsCplx(t) THEN Add(SgnQ(x), Mul(ImU, SgnQ(<<x[2], 0, 1>>))) ELSE SgnQ(x)
(* user functions: sq x*x, half x*0.5 (a double), neg x < 0 (a bool; sign of
   the real part), cplx (a complex<double>) *)
FunT(f, t) == CASE f \in {"abs", "real", "imag", "sign", "sq"} -> t
                [] f = "half" -> IF IsCplx(t) THEN "z" ELSE "d" [] f = "neg" -> t [] f = "cplx" -> "z"
FunV(f, t, x) == CASE f = "abs" -> AbsSym(x) [] f = "real" -> RePart(x) [] f = "imag" -> ImPart(x) [] f = "sign" -> SgnV(x, t)
                   [] f = "sq" -> Mul(x, x) [] f = "half" -> Mul(RePart(x), Q(1, 0, 2)) [] f = "neg" -> (IF x[1] < 0 THEN One ELSE Zero)
                   [] f = "cplx" -> Add(RePart(x), ImU)
FunOf(f, m) == [r |-> m.r, c |-> m.c, e |-> [i \in 1..Len(m.e) |-> FunV(f, m.t, m.e[i])]]
KeepFun(f, m) == ~(f = "abs" /\ IsCplx(m.t))
Funs == {"abs", "abs", "sign", "sq", "half", "neg", "cplx", "real", "imag"}
ActFunM ==
    \E f \in Pick(Funs) :
    \E a \in (IF f \in {"real", "imag"} /\ \E t \in Types : IsCplx(t)
              THEN PickOp(70, store, {x \in NrmOk(store, MatLike(store)) : IsCplx(store[x].t) /\ Writable(store, x)}, FreeM(store), FreshAnyM({t \in Types : IsCplx(t)}, Dims, Dims))
              ELSE PickNM(store, Types)) :
    \E m \in {TVal(a.s, a.x)} :
    \E q \in {FunOf(f, m)} : \E d \in (IF KeepFun(f, m) /\ FunT(f, m.t) \in Types THEN DestM(a.s, q) ELSE {""}) :
        Do([op |-> "fun", f |-> f, a |-> a.x, d |-> d], a.s, EffM(a.s, d, FunT(f, m.t), q))
ActFunV ==
    \E f \in Pick(Funs) :
    \E a \in (IF f \in {"real", "imag"} THEN PickNV(store, {t \in Types : IsCplx(t)}) ELSE PickNV(store, Types)) :
    \E m \in {a.s[a.x]} :
    \E q \in {FunOf(f, m)} : \E d \in (IF KeepFun(f, m) /\ FunT(f, m.t) \in Types THEN DestV(a.s, q) ELSE {""}) :
        Do([op |-> "fun", f |-> f, a |-> a.x, d |-> d], a.s, EffV(a.s, d, FunT(f, m.t), q))
(* Binary: prod (element_wise_product), lin (linear_combination with scalars
   sa, sb), sub and less (user functions x - y, real(x) < real(y)). *)
BinT(f, t, u, sa, sb) == CASE f \in {"prod", "sub", "less"} -> CommonT(t, u) [] f = "lin" -> CommonT(CommonT(t, sa.t), CommonT(u, sb.t))
BinV(f, x, y, sa, sb) == CASE f = "prod" -> Mul(x, y) [] f = "lin" -> Add(Mul(x, sa.v), Mul(y, sb.v)) [] f = "sub" -> Sub(x, y)
                           [] f = "less" -> IF Lt(RePart(x), RePart(y)) THEN One ELSE Zero
BinOf(f, m, o, sa, sb) == [r |-> m.r, c |-> m.c, e |-> [i \in 1..Len(m.e) |-> BinV(f, m.e[i], o.e[i], sa, sb)]]
PickTame2(s, av, r, c) ==
    UNION {IF k THEN PickOp(60, s, {x \in NrmOk(s, MatLike(s)) : Val(s, x).r = r /\ Val(s, x).c = c}, FreeM(s) \ av, FreshAnyM(Types, {r}, {c}))
                ELSE PickOp(50, s, NrmOk(s, MatLike(s)), FreeM(s) \ av, FreshAnyM(Types, {r, r + 1, Max2(1, c)}, {c, c + 1, Max2(1, r)})) : k \in Coin(90)}
PickTameV(s, av, ts, l) ==
    UNION {IF k THEN PickOp(60, s, {x \in NrmOk(s, Vecs(s)) : s[x].t \in ts /\ s[x].c = l}, FreeV(s) \ av, FreshAnyV(ts, {l}))
                ELSE PickOp(50, s, {x \in NrmOk(s, Vecs(s)) : s[x].t \in ts}, FreeV(s) \ av, FreshAnyV(ts, {l + 1, Max2(0, l - 1)})) : k \in Coin(90)}
ActBinM ==
    \E f \in Pick({"prod", "lin", "sub", "less"}) :
    \E a \in PickNM(store, Types) :
    \E m \in {TVal(a.s, a.x)} :
    \E b \in PickTame2(a.s, {a.x}, m.r, m.c) :
    \E o \in {TVal(b.s, b.x)} :
    \E sa \in Scalars({m.t, "d"}, "+", FALSE), sb \in Scalars({o.t, "d"}, "+", FALSE) :
    \E nm \in {IF f = "lin" THEN "lincomb" ELSE "binfun"} :
        IF m.r = o.r /\ m.c = o.c
        THEN \E q \in {BinOf(f, m, o, sa, sb)} : \E d \in DestM(b.s, q) :
             Do([op |-> nm, f |-> f, a |-> a.x, b |-> b.x, sa |-> sa, sb |-> sb, d |-> d], b.s, EffM(b.s, d, BinT(f, m.t, o.t, sa, sb), q))
        ELSE Do([op |-> nm, f |-> f, a |-> a.x, b |-> b.x, sa |-> sa, sb |-> sb, d |-> ""], b.s, Thr(b.s))
(* proj: a projected onto b, b * (a.b / b.b) (no conjugation). *)
ActBinV ==
    \E f0 \in Pick({"sub", "less", "proj", "proj"}) :
    \E a \in PickNV(store, IF f0 = "proj" THEN Types \ {"i"} ELSE Types) :
    \E m \in {a.s[a.x]} :
    \E b \in PickTameV(a.s, {a.x}, IF f0 = "proj" THEN Types \ {"i"} ELSE Types, m.c) :
    \E o \in {b.s[b.x]} :
    \E f \in {IF f0 = "proj" /\ m.c = o.c /\ ~(Within(m.e, 12, 4) /\ Within(o.e, 12, 4) /\ m.c <= 8 /\ SumQ([i \in 1..o.c |-> Mul(o.e[i], o.e[i])], o.c) # Zero) THEN "sub" ELSE f0} :
    \E z \in {[t |-> "i", v |-> Zero]} :
        IF m.c # o.c THEN Do([op |-> "binfun", f |-> f, a |-> a.x, b |-> b.x, sa |-> z, sb |-> z, d |-> ""], b.s, Thr(b.s))
        ELSE IF f # "proj"
        THEN \E q \in {BinOf(f, m, o, z, z)} : \E d \in DestV(b.s, q) :
             Do([op |-> "binfun", f |-> f, a |-> a.x, b |-> b.x, sa |-> z, sb |-> z, d |-> d], b.s, EffV(b.s, d, BinT(f, m.t, o.t, z, z), q))
        ELSE \E bb \in {SumQ([i \in 1..o.c |-> Mul(o.e[i], o.e[i])], o.c)} :
                \E ab \in {SumQ([i \in 1..o.c |-> Mul(m.e[i], o.e[i])], o.c)} :
                  LET k == <<"div", ab, bb>> IN
                     \E rec \in InUnits2([op |-> "binfun", f |-> f, a |-> a.x, b |-> b.x, sa |-> z, sb |-> z, d |-> ""], b.s, a.x, b.x, 1, 0) :
                     Do(rec, b.s,
                        EffV(b.s, "", CommonT(m.t, o.t), [r |-> 1, c |-> o.c, e |-> [i \in 1..o.c |-> <<"mul", o.e[i], k>>]]))

-----------------------------------------------------------------------------
LawPred ==
    LET o == out' IN
    o.op = "pred" =>
        LET m == Arg(o.a.a)  h(f) == Holds(f, m) IN
        /\ (h("lower") /\ h("upper")) <=> h("diagonal")
        /\ (h("square") /\ h("lower")) <=> (h("square") /\ Holds("upper", TransposeM(m)))
        /\ (h("identity") => h("diagonal") /\ h("symmetric"))
        /\ (h("zero") => h("constant"))
        /\ (h("symmetric") /\ h("skew")) => h("zero")
        /\ h("symmetric") <=> (m.r = m.c /\ TransposeM(m).e = m.e)
LawFun ==
    LET o == out' IN
    /\ o.op = "fun" => Len(o.res.e) = Len(Arg(o.a.a).e) /\ o.res.r = Arg(o.a.a).r
    /\ o.op \in {"binfun", "lincomb"} /\ o.ok => Len(o.res.e) = Len(Arg(o.a.a).e)
=============================================================================
