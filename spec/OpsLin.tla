------------------------------- MODULE OpsLin --------------------------------
(* Determinant, inverse, adjoint, cofactor, division, LU, QR, solving linear
   systems, exponentials.                                                   *)
EXTENDS OpsElem

(* Bounds that keep the exact determinants (Fit) and inverses (FitInv) inside
   TLC's integers. *)
Fit(m) == CASE m.r <= 2 -> Within(m.e, 64, 16) [] m.r = 3 -> Within(m.e, 16, 8) [] m.r = 4 -> Within(m.e, 10, 2)
            [] m.r = 5 -> Within(m.e, 6, 2) [] m.r = 6 -> Within(m.e, 5, 1) [] m.r = 7 -> Within(m.e, 3, 1) [] OTHER -> FALSE
AllReal(m) == \A i \in 1..Len(m.e) : IsReal(m.e[i])
FitInv(m) == IF AllReal(m) THEN Fit(m) /\ m.r <= 6
             ELSE CASE m.r <= 2 -> Within(m.e, 10, 8) [] m.r = 3 -> Within(m.e, 4, 2) [] m.r = 4 -> Within(m.e, 3, 1)
                    [] m.r \in 5..6 -> Within(m.e, 2, 1) [] OTHER -> FALSE
(* Determinants larger than 4x4 are computed with divisions: integer elements
   are left out (a known finding), and single precision is bounded. *)
FltOk(t, m) == m.r <= 4 \/ (t \in {"d", "z"}) \/ (t \in {"f", "c"} /\ m.r = 5 /\ Within(m.e, 3, 1))

(* Fresh square matrices. *)
SmallInt(b) == Int2Q(RandomElement((-b)..b))
SmallQ(t, k) ==
    LET b == IF k <= 3 THEN 5 ELSE IF k = 4 THEN 4 ELSE IF k <= 6 THEN 2 ELSE 1
        x == SmallInt(b)
        h == IF t # "i" /\ k <= 4 /\ RandomElement(1..3) = 1 THEN Add(x, Q(1, 0, 2)) ELSE x
    IN  IF ~IsCplx(t) THEN h ELSE IF k >= 4 THEN Add(SmallInt(1), Mul(ImU, SmallInt(1)))
        ELSE Add(Int2Q(RandomElement(-2..2)), Mul(ImU, Q(RandomElement(-3..3), 0, 2)))
NonZero(t, k) == LET x == SmallQ(t, k) IN IF x = Zero THEN One ELSE x
RandSq(t, k, z) == [r |-> k, c |-> k, e |-> TLCEval([i \in 1..(k * k) |-> IF RandomElement(1..100) <= z THEN Zero ELSE SmallQ(t, k)])]
RECURSIVE Shuffle(_, _)
Shuffle(m, c) == IF c = 0 \/ m.r = 0 THEN m ELSE Shuffle(SwapRows(m, RandomElement(0..(m.r - 1)), RandomElement(0..(m.r - 1)), 0, m.c), c - 1)
(* A triangular matrix with its rows in another order: zeros as pivots. *)
PermTri(t, k) == LET m == RandSq(t, k, 0)
                     F(i, j) == IF i = j THEN NonZero(t, k) ELSE IF j > i THEN El(m, i, j) ELSE Zero
                 IN  Shuffle(Mk(k, k, F), k)
(* A singular matrix: a zero row or column, two equal rows or columns, or (not
   larger than 4x4) a row that is the sum or difference of others. *)
Singular(t, k) ==
    LET m == RandSq(t, k, 10)
        p == RandomElement(0..(k - 1))
        q == (p + RandomElement(1..Max2(1, k - 1))) % k
        s == IF k <= 4 THEN RandomElement(1..6) ELSE RandomElement(1..4)
        u == (p + 1) % k  v == (p + 2) % k
        F(i, j) == CASE s = 1 -> (IF i = p THEN Zero ELSE El(m, i, j))
                     [] s = 2 -> (IF j = p THEN Zero ELSE El(m, i, j))
                     [] s = 3 -> (IF i = p /\ k > 1 THEN El(m, q, j) ELSE IF k = 1 THEN Zero ELSE El(m, i, j))
                     [] s = 4 -> (IF j = p /\ k > 1 THEN El(m, i, q) ELSE IF k = 1 THEN Zero ELSE El(m, i, j))
                     [] s = 5 -> (IF k < 3 THEN Zero ELSE IF i = p THEN Add(El(m, u, j), El(m, v, j)) ELSE El(m, i, j))
                     [] OTHER -> (IF k < 3 THEN Zero ELSE IF j = p THEN Sub(El(m, i, u), El(m, i, v)) ELSE El(m, i, j))
    IN  Mk(k, k, F)
LinM(t, k, kind) == CASE kind = "rand" -> RandSq(t, k, 0) [] kind = "sparse" -> RandSq(t, k, 45) [] kind = "perm" -> PermTri(t, k)
                      [] kind = "sing" -> Singular(t, k)
LinDims(t) == UNION {IF big THEN Pick(IF t \in {"d", "z"} THEN 5..6 ELSE IF t = "i" THEN 4..4 ELSE 5..5) ELSE Pick(1..4) : big \in Coin(25)}
NewLin(ts) == {MObj(tkk[1], LinM(tkk[1], tkk[2], tkk[3])) : tkk \in UNION {{<<t, k, kind>> : k \in LinDims(t), kind \in Pick({"rand", "sparse", "perm", "sing"})} : t \in Pick(ts)}}
NewLin7 == {MObj("d", RandSq("d", 7, 60))}
(* Larger ones, with few non-zero elements: a scaled permutation with some more
   elements (at times with a zero row), or a band. *)
Mono(t, k) ==
    LET p == Shuffle(Eye(k), k)
        x(i, j) == IF i = j THEN RandomElement({One, Neg(One), Int2Q(2), Int2Q(-2), One} \cup (IF IsCplx(t) THEN {ImU, Neg(ImU)} ELSE {})) ELSE Zero
        m == MulM(p, Mk(k, k, x))
        e1 == RandomElement(1..(k * k))  e2 == RandomElement(1..(k * k))  z == RandomElement(0..(3 * k))
    IN  [m EXCEPT !.e = TLCEval([i \in 1..(k * k) |-> IF (i - 1) \div k = z THEN Zero ELSE IF i \in {e1, e2} /\ m.e[i] = Zero THEN One ELSE m.e[i]])]
Band(k) == LET F(i, j) == IF i = j THEN Int2Q(RandomElement({2, 3, -3})) ELSE IF i = j + 1 \/ j = i + 1 THEN SmallInt(1) ELSE Zero IN Mk(k, k, F)
BigLin(kmax, bands) ==
    UNION {UNION {IF b THEN {MObj("d", Band(k))} ELSE {MObj(t, Mono(t, k))} : b \in (IF bands THEN Coin(40) ELSE {FALSE})} : k \in Pick(6..kmax), t \in Pick({"d", "z"} \cap Types)}
NZCount(m) == Cardinality({i \in 1..Len(m.e) : m.e[i] # Zero})
SparseFit(t, m) == t \in {"d", "z"} /\ m.r \in 6..10 /\ Within(m.e, 3, 1) /\ NZCount(m) <= m.r + 3

SquareOk(s, ok(_, _)) == {x \in MatLike(s) : LET m == Val(s, x) IN m.r = m.c /\ m.r <= 10 /\ ok(s[x].t, m)}
DetOk(t, m) == (Fit(m) /\ FltOk(t, m) /\ (t = "i" => m.r <= 4)) \/ SparseFit(t, m)
InvOk(t, m) == (FitInv(m) /\ FltOk(t, m) /\ (t = "i" => m.r <= 4)) \/ SparseFit(t, m)
AdjOk(t, m) == m.r >= 1 /\ ((FitInv(m) /\ (t \in {"i", "f", "c"} => m.r <= 5)) \/ (SparseFit(t, m) /\ m.r <= 8))
Now(k) == n >= 0 /\ RandomElement(1..k) = 1
NotSquare(s) == {x \in Plain(s, MatLike(s)) : LET m == Val(s, x) IN m.r # m.c /\ m.r >= 1 /\ m.c >= 1}
NewOblong == UNION {UNION {FreshM(t, r, c) : c \in Pick((1..4) \ {r})} : t \in Pick(Types), r \in Pick(1..4)}
(* A square operand that satisfies ok, mostly; a non-square one otherwise. *)
PickSq(s, ok(_, _), fresh) ==
    UNION {IF k THEN PickOp(45, s, SquareOk(s, ok), FreeM(s), fresh) ELSE PickOp(50, s, NotSquare(s), FreeM(s), NewOblong) : k \in Coin(93)}

(* Decimal digits that can be relied on. *)
DetPrec(t, m) == IF m.r <= 4 THEN (IF t \in {"f", "c"} THEN 9 ELSE 11) ELSE IF t \in {"f", "c"} THEN 7 ELSE 8
InvPrec(t, m) == IF t \in {"f", "c"} THEN (IF m.r <= 4 THEN 4 ELSE 2) ELSE IF m.r <= 4 THEN 10 ELSE 7

ActDet ==
    \E a \in PickSq(store, DetOk, IF Now(25) THEN NewLin7 ELSE IF Now(12) THEN BigLin(10, TRUE) ELSE NewLin(Types)) :
    \E m \in {TVal(a.s, a.x)} :
        IF m.r # m.c THEN Do([op |-> "det", a |-> a.x], a.s, Thr(a.s))
        ELSE \E rec \in Units([op |-> "det", a |-> a.x, prec |-> DetPrec(m.t, m)], m.t, m.r) : Do(rec, a.s, Ret(a.s, RSca(m.t, Det(m))))
ActAdj ==
    \E a \in PickSq(store, AdjOk, IF Now(20) THEN BigLin(8, TRUE) ELSE NewLin(Types)) :
    \E m \in {TVal(a.s, a.x)} :
        IF m.r # m.c THEN Do([op |-> "adj", a |-> a.x, d |-> ""], a.s, Thr(a.s))
        ELSE \E q \in {AdjM(m)} : \E d \in (IF m.r <= 4 THEN DestM(a.s, q) ELSE {""}) :
             \E rec \in Units([op |-> "adj", a |-> a.x, d |-> d, prec |-> DetPrec(m.t, [r |-> m.r - 1])], m.t, m.r - 1) : Do(rec, a.s, EffM(a.s, d, m.t, q))
ActCof ==
    \E a \in PickOp(80, store, NonEmpty(store, Plain(store, MatLike(store))), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {TVal(a.s, a.x)} :
    \E p \in Pick(0..(m.r - 1)), q \in Pick(0..(m.c - 1)) :
    \E o \in {Minor(m, p, q)} : \E d \in DestM(a.s, o) :
        Do([op |-> "cof", a |-> a.x, p |-> p, q |-> q, d |-> d], a.s, EffM(a.s, d, m.t, o))
InvOf(m, dt) == LET F(x) == Div(x, dt) IN MapE(AdjM(m), F)
EmptyM == [r |-> 0, c |-> 0, e |-> <<>>]
(* Elimination leaves an exact zero, not only one up to round-off. *)
PlainlySingular(m) ==
    \/ \E i \in 0..(m.r - 1) : (\A j \in 0..(m.c - 1) : El(m, i, j) = Zero) \/ (\A j \in 0..(m.c - 1) : El(m, j, i) = Zero)
    \/ AllReal(m) /\ \E i, k \in 0..(m.r - 1) : i < k /\ \A j \in 0..(m.c - 1) : El(m, i, j) = El(m, k, j)
ActInv ==
    \E a \in PickSq(store, InvOk, IF Now(15) THEN BigLin(9, TRUE) ELSE NewLin(Types)) :
    \E m \in {TVal(a.s, a.x)} :
        IF m.r # m.c THEN Do([op |-> "inv", a |-> a.x, d |-> ""], a.s, Thr(a.s))
        ELSE \E dt \in {Det(m)} : IF m.r >= 5 /\ dt = Zero /\ ~PlainlySingular(m)
             THEN Do([op |-> "det", a |-> a.x, prec |-> DetPrec(m.t, m)], a.s, Ret(a.s, RSca(m.t, Zero)))
             ELSE \E q \in {IF dt = Zero THEN EmptyM ELSE IF m.r = 0 THEN EmptyM ELSE InvOf(m, dt)} :
             \E d \in (IF m.r <= 4 /\ AllReal(m) THEN DestM(a.s, q) ELSE {""}) :   \* what is computed exactly can be kept
             \E rec \in Units([op |-> "inv", a |-> a.x, d |-> d, prec |-> InvPrec(m.t, m)], m.t, -1) : Do(rec, a.s, EffM(a.s, d, CommonT(m.t, "d"), q))
(* A times the inverse of B; a singular B is rejected with the product. *)
DivFit(m) == m.r >= 1 /\ (IF AllReal(m) THEN (m.r <= 3 /\ Within(m.e, 6, 2)) \/ (m.r <= 4 /\ Within(m.e, 5, 1)) ELSE m.r <= 3 /\ Within(m.e, 4, 2))
DivOk(t, m) == DivFit(m)
NewDiv(ts) == {MObj(tkk[1], LinM(tkk[1], tkk[2], tkk[3])) : tkk \in UNION {{<<t, k, kind>> : k \in Pick(1..3), kind \in Bias(90, {"rand", "sparse", "perm"}, {"sing"})} : t \in Pick(ts)}}
SmallAny(t, r, c) == {MObj(t, [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |-> IF IsCplx(t) THEN Add(SmallInt(3), Mul(ImU, SmallInt(3))) ELSE SmallInt(5)])])}
ActDiv ==
    \E b \in PickSq(store, DivOk, NewDiv(Types)) :
    \E o \in {TVal(b.s, b.x)} :
    \E c \in Bias(92, {o.r}, 1..4) :
    \E a \in PickOp(50, b.s, {x \in ProdOk(b.s, MatLike(b.s)) : LET m == Val(b.s, x) IN m.c = c /\ m.r >= 1 /\ m.r <= 5 /\ Within(m.e, 6, 2)},
                    FreeM(b.s) \ {b.x}, UNION {SmallAny(t, r, c) : t \in Pick(Types), r \in Pick(1..4)}) :
    \E m \in {TVal(a.s, a.x)} :
        IF o.r # o.c THEN Do([op |-> "div", a |-> a.x, b |-> b.x, d |-> ""], a.s, Thr(a.s))
        ELSE \E dt \in {Det(o)} :
             IF dt = Zero \/ m.c # o.r THEN Do([op |-> "div", a |-> a.x, b |-> b.x, d |-> ""], a.s, Thr(a.s))
             ELSE \E q \in {LET F(x) == Div(x, dt) IN MapE(MulM(m, AdjM(o)), F)} :
                  \E d \in (IF AllReal(o) /\ AllDyadic(InvOf(o, dt).e) THEN DestM(a.s, q) ELSE {""}) :
                  \E rec \in InUnits2([op |-> "div", a |-> a.x, b |-> b.x, d |-> d, prec |-> InvPrec(o.t, o)], a.s, a.x, b.x, 1, -1) : Do(rec, a.s, EffM(a.s, d, CommonT(m.t, CommonT(o.t, "d")), q))

-----------------------------------------------------------------------------
(* LU: lower triangular L and unit upper triangular U. *)
LUFit(m) == m.r >= 1 /\ IF AllReal(m) THEN (m.r <= 3 /\ Within(m.e, 10, 2)) \/ (m.r <= 5 /\ Within(m.e, 6, 1)) ELSE m.r <= 3 /\ Within(m.e, 5, 2)
LUOk(t, m) == t # "i" /\ LUFit(m) /\ LeadingMinorsOk(m)
(* A product of such factors (integer elements: with ones as pivots, so that
   no division is inexact). *)
FreshLU(t, k) ==
    LET v == IF IsCplx(t) THEN {Zero, One, ImU, Neg(One)} ELSE {Int2Q(-1), Zero, One, Int2Q(2)}
        L(i, j) == IF i = j /\ i = k - 1 /\ RandomElement(1..5) = 1 THEN Zero ELSE IF i = j THEN (IF t = "i" THEN One ELSE RandomElement({One, Int2Q(-1), Int2Q(2)})) ELSE IF j < i THEN RandomElement(v) ELSE Zero
        U(i, j) == IF i = j THEN One ELSE IF j > i THEN RandomElement(v) ELSE Zero
    IN  MulM(Mk(k, k, L), Mk(k, k, U))
NewLU(ts) == {MObj(tk[1], FreshLU(tk[1], tk[2])) : tk \in UNION {{<<t, k>> : k \in (IF Now(12) THEN Pick(6..9) ELSE Pick(1..5))} : t \in Pick(ts)}}
ActLU ==
    \E a \in PickSq(store, LUOk, NewLU(Types)) :
    \E m \in {TVal(a.s, a.x)} :
        IF m.r # m.c THEN Do([op |-> "lu", a |-> a.x], a.s, Thr(a.s))
        ELSE \E f \in {Crout(m)} : \E rec \in Units([op |-> "lu", a |-> a.x, prec |-> IF m.t \in {"f", "c"} THEN 8 ELSE 10], m.t, <<1, 0>>) :
             Do(rec, a.s, Ret(a.s, RList(<<RMat(m.t, f.l), RMat(m.t, f.u)>>)))

(* QR: what is returned is Q'Q, Q*R and the part of R below the diagonal. *)
QrTypes == {t \in Types : ~IsCplx(t)}
Below(m) == SelectSeq([i \in 1..Len(m.e) |-> i], LAMBDA i : (i - 1) \div m.c > (i - 1) % m.c)
QrRes(m) == RList(<<RMat("d", Eye(m.r)), RMat("d", m), RVec("d", [i \in 1..Len(Below(m)) |-> Zero])>>)
QrM(t, r, c) ==
    LET m == [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |-> RandVal(t)])]
        k == RandomElement(1..6)
        p == RandomElement(0..(c - 1))  q == RandomElement(0..(c - 1))
        F(i, j) == CASE k = 1 -> (IF j = p THEN Zero ELSE El(m, i, j)) [] k = 2 -> (IF j = p THEN El(m, i, q) ELSE El(m, i, j))
                     [] k = 3 -> (IF i = 0 THEN Zero ELSE El(m, i, j)) [] k = 4 -> (IF i > j THEN Zero ELSE El(m, i, j))
                     [] OTHER -> El(m, i, j)
    IN  MObj(t, Mk(r, c, F))
ActQr ==
    \E a \in PickOp(35, store, {x \in Mats(store) : store[x].t \in QrTypes /\ store[x].r >= 1 /\ store[x].c >= 1 /\ NrmOk(store, {x}) # {}}, FreeM(store),
                    {QrM(trc[1], trc[2], trc[3]) : trc \in UNION {{<<t, r, c>>} : t \in Pick(QrTypes), r \in Pick(1..6), c \in Pick(1..6)}}) :
    \E m \in {a.s[a.x]} :
        \E rec \in Units([op |-> "qr", a |-> a.x, prec |-> 9], m.t, <<0, 1, 1>>) :
        Do(rec, a.s, Ret(a.s, QrRes(m)))

(* The solution of a linear system: exact, least-squares or of least norm. *)
SmallVec(t, k) == [i \in 1..k |-> SmallInt(4)]
SysM(t, r, c) == MObj(t, [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |-> SmallInt(IF Min2(r, c) = 3 THEN 2 ELSE 3)])])
SolveFit(m) == m.r >= 1 /\ m.c >= 1 /\ Min2(m.r, m.c) <= 3 /\ Max2(m.r, m.c) <= 6 /\ Within(m.e, IF Min2(m.r, m.c) = 3 THEN 3 ELSE 5, 1)
ActSolve ==
    \E a \in PickOp(25, store, {x \in Mats(store) : store[x].t \in QrTypes /\ SolveFit(store[x])}, FreeM(store),
                    {SysM(trc[1], trc[2], trc[3]) : trc \in UNION {{<<t, IF w = 3 THEN b ELSE k, IF w = 2 THEN b ELSE k>>}
                          : t \in Pick(QrTypes), k \in Pick(1..3), b \in Pick(1..5), w \in Pick(1..3)}}) :
    \E m \in {a.s[a.x]} :
    \E l \in Bias(92, {m.r}, {m.r + 1, Max2(1, m.r - 1), m.c}) :
    \E b \in PickOp(30, a.s, {x \in Vecs(a.s) : a.s[x].t = m.t /\ a.s[x].c = l /\ Within(a.s[x].e, 6, 1)}, FreeV(a.s), {VObj(m.t, TLCEval(SmallVec(m.t, l)))}) :
    \E v \in {ColM(b.s[b.x].e)} :
    \E t \in {TransposeM(m)} :
    \E g \in {IF m.r = m.c THEN m ELSE IF m.r > m.c THEN MulM(t, m) ELSE MulM(m, t)} :
    \E dt \in {Det(g)} :
        IF dt = Zero /\ m.r # m.c  \* not of full rank: anything goes
        THEN Do([op |-> "qr", a |-> a.x, prec |-> 9], a.s, Ret(a.s, QrRes(m)))
        ELSE IF l # m.r \/ dt = Zero THEN Do([op |-> "solve", a |-> a.x, b |-> b.x], b.s, Thr(b.s))
        ELSE LET adj == AdjM(g)
                 y == IF m.r = m.c THEN MulM(adj, v) ELSE IF m.r > m.c THEN MulM(adj, MulM(t, v)) ELSE MulM(t, MulM(adj, v))
             IN  \E rec \in Units([op |-> "solve", a |-> a.x, b |-> b.x, prec |-> IF m.t = "f" THEN 4 ELSE 8], m.t, -1) :
                 Do(rec, b.s,
                    Ret(b.s, RVec("d", TLCEval([i \in 1..m.c |-> Div(y.e[i], dt)]))))

-----------------------------------------------------------------------------
(* Exponentials. *)
ActExpE ==
    \E a \in PickOp(50, store, {x \in MatLike(store) : Within(Val(store, x).e, 12, 16)}, FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {TVal(a.s, a.x)} :
        Do([op |-> "expe", a |-> a.x, prec |-> 12], a.s,
           Ret(a.s, RMat(m.t, [r |-> m.r, c |-> m.c, e |-> [i \in 1..Len(m.e) |-> IF m.t = "i" THEN <<"trunc", <<"exp", m.e[i]>>>> ELSE <<"exp", m.e[i]>>]])))

(* A = P J inv(P), with P of determinant one and J of blocks whose exponential
   is known: eigenvalue, rotation, Jordan block of two or three. *)
UnitTri(k, low) == LET F(i, j) == IF i = j THEN One ELSE IF (low /\ j < i) \/ (~low /\ j > i) THEN Int2Q(RandomElement({-1, 0, 0, 1})) ELSE Zero IN Mk(k, k, F)
Eigs(t) == {Zero, One, Int2Q(-1), Q(1, 0, 2), Q(-1, 0, 2), Int2Q(2), Int2Q(-2), Q(1, 0, 4), Q(-3, 0, 2), Int2Q(3), Int2Q(-4)}
           \cup (IF IsCplx(t) THEN {ImU, <<1, -1, 1>>, <<-1, 3, 2>>, <<0, -2, 1>>} ELSE {})
RECURSIVE Blocks(_, _)
Blocks(t, k) ==      \* a sequence of [n, kind, x, y] of total size k
    IF k = 0 THEN <<>>
    ELSE LET g == RandomElement(1..5)
             b == CASE g = 4 /\ k >= 2 -> [n |-> 2, kind |-> "rot", x |-> RandomElement({Zero, One, Q(-1, 0, 2)}), y |-> RandomElement({One, Int2Q(-2), Q(1, 0, 2), Int2Q(3)})]
                    [] g = 5 /\ k >= 2 -> [n |-> RandomElement(2..Min2(3, k)), kind |-> "jor", x |-> RandomElement(Eigs(t)), y |-> Zero]
                    [] OTHER -> [n |-> 1, kind |-> "jor", x |-> RandomElement(Eigs(t)), y |-> Zero]
         IN  <<b>> \o Blocks(t, k - b.n)
BlockEl(b, i, j) == IF b.kind = "rot" THEN (IF i = j THEN b.x ELSE IF i = 0 THEN Neg(b.y) ELSE b.y)
                    ELSE IF i = j THEN b.x ELSE IF j = i + 1 THEN One ELSE Zero
(* What the exponential of b * s has at (i, j): nothing (zero) or a symbolic value. *)
BlockExp(b, i, j, s) ==
    LET ex == <<"exp", Mul(b.x, s)>> IN
    IF b.kind = "rot" THEN (IF i = j THEN <<"mul", ex, <<"cos", Mul(b.y, s)>>>>
                            ELSE <<"mul", ex, <<"mul", IF i = 0 THEN Neg(One) ELSE One, <<"sin", Mul(b.y, s)>>>>>>)
    ELSE IF i = j THEN ex ELSE IF j = i + 1 THEN <<"mul", s, ex>> ELSE IF j = i + 2 THEN <<"mul", Mul(Mul(s, s), Q(1, 0, 2)), ex>> ELSE <<>>
RECURSIVE Place(_, _, _, _)
Place(bs, i, j, o) ==  \* the block and position that show at (i, j), or <<>>
    IF bs = <<>> THEN <<>>
    ELSE LET b == bs[1] IN
         IF i < o + b.n THEN (IF i >= o /\ j >= o /\ j < o + b.n THEN <<b, i - o, j - o>> ELSE <<>>)
         ELSE Place(Tail(bs), i, j, o + b.n)
JordanM(bs, k) == LET F(i, j) == LET p == Place(bs, i, j, 0) IN IF p = <<>> THEN Zero ELSE BlockEl(p[1], p[2], p[3]) IN Mk(k, k, F)
(* The symbolic matrix P exp(J s) inv(P). *)
ExpJ(bs, k, p, pi, s) ==
    LET ent == TLCEval([n1 \in 1..(k * k) |-> LET i == (n1 - 1) \div k  j == (n1 - 1) % k  q == Place(bs, i, j, 0) IN IF q = <<>> THEN <<>> ELSE BlockExp(q[1], q[2], q[3], s)])
        F(i, j) == LET ts == SelectSeq([n1 \in 1..(k * k) |-> <<n1, Mul(El(p, i, (n1 - 1) \div k), El(pi, (n1 - 1) % k, j))>>],
                                       LAMBDA x : x[2] # Zero /\ ent[x[1]] # <<>>)
                   IN  IF ts = <<>> THEN Zero ELSE <<"sum">> \o [n2 \in 1..Len(ts) |-> <<"mul", ts[n2][2], ent[ts[n2][1]]>>]
    IN  Mk(k, k, F)
(* Matrices with a known exponential, as [m, bs, p, pi]. *)
ExpTypes == {t \in Types : t \in {"d", "z"}}
InvP(p) == AdjM(p)     \* of a matrix with determinant one
WithBasis(bs, k, p) == LET pi == IF k = 1 THEN p ELSE InvP(p) IN [m |-> MulM(MulM(p, JordanM(bs, k)), pi), bs |-> bs, p |-> p, pi |-> pi]
KnownExp(ts) ==
    UNION {UNION {UNION {IF Within(w.m.e, 30, 8) THEN {w} ELSE {WithBasis(bs, k, Eye(k))} : w \in {WithBasis(bs, k, MulM(UnitTri(k, TRUE), UnitTri(k, FALSE)))}}
                  : bs \in {Blocks(t, k)}} : t \in Pick(ts), k \in Pick(1..5)}
ActExpm ==
    \E t \in Pick(ExpTypes) : \E kx \in KnownExp({t}) : \E k \in Pick({6, 9, 12}) :
    \E d \in Pick(FreeM(store)) :
    \E x \in {ExpJ(kx.bs, kx.m.r, kx.p, kx.pi, One)} :
        Do([op |-> "expm", a |-> d, acc |-> k, prec |-> k - 3], [store EXCEPT ![d] = MObj(t, kx.m)],
           Ret([store EXCEPT ![d] = MObj(t, kx.m)], RMat(t, x)))
ActExpmBad ==
    \E a \in PickOp(50, store, {x \in NotSquare(store) : store[x].t \in ExpTypes /\ Writable(store, x)}, FreeM(store),
                    UNION {UNION {FreshM(t, r, c) : c \in Pick((1..4) \ {r})} : t \in Pick(ExpTypes), r \in Pick(1..4)}) :
        Do([op |-> "expm", a |-> a.x, acc |-> 6], a.s, Thr(a.s))

-----------------------------------------------------------------------------
(* Laws. *)
LawDet ==
    LET o == out' IN
    o.op = "det" /\ o.ok =>
        LET m == Arg(o.a.a) IN
        /\ m.r <= 5 => Det(TransposeM(m)) = o.res.v
        /\ m.r >= 2 /\ m.r <= 5 => Det(SwapRows(m, 0, m.r - 1, 0, m.c)) = Neg(o.res.v)
        /\ m.r <= 3 /\ (IF AllReal(m) THEN Within(m.e, 10, 2) ELSE Within(m.e, 3, 1)) => (o.res.v = Zero <=> RankOf(m) < m.r)
        /\ m.r <= 3 /\ (IF AllReal(m) THEN Within(m.e, 5, 2) ELSE Within(m.e, 3, 1)) => Det(MulM(m, m)) = Mul(o.res.v, o.res.v)
LawInv ==
    LET o == out' IN
    /\ o.op = "inv" /\ o.ok => LET m == Arg(o.a.a) IN
         IF o.res.r = 0 THEN m.r = 0 \/ Det(m) = Zero
         ELSE m.r <= 5 => MulM(m, o.res).e = Eye(m.r).e /\ MulM(o.res, m).e = Eye(m.r).e
    /\ o.op = "adj" /\ o.ok => LET m == Arg(o.a.a) IN MulM(m, o.res).e = ScaleM(Eye(m.r), Det(m)).e
    /\ o.op = "div" /\ o.ok => LET m == Arg(o.a.b) IN MulM(o.res, m).e = Arg(o.a.a).e
LawLU ==
    LET o == out' IN
    o.op = "lu" /\ o.ok => LET l == o.res.v[1]  u == o.res.v[2] IN
        /\ MulM(l, u).e = Arg(o.a.a).e
        /\ Holds("lower", l) /\ Holds("upper", u) /\ \A i \in 0..(u.r - 1) : El(u, i, i) = One
(* The normal equations. *)
LawSolve ==
    LET o == out' IN
    o.op = "solve" /\ o.ok => LET m == Arg(o.a.a)  b == ColM(Arg(o.a.b).e)  x == ColM(o.res.e) IN
        IF m.r <= m.c THEN MulM(m, x).e = b.e
        ELSE MulM(TransposeM(m), MulM(m, x)).e = MulM(TransposeM(m), b).e
(* det(exp(A)) = exp(tr(A)) *)
LawExp ==
    LET o == out' IN
    o.op = "expm" /\ o.ok => o.res.r = Arg(o.a.a).r
=============================================================================
