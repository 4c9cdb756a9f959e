-------------------------------- MODULE Mat --------------------------------
(* Matrices and vectors as values: [r, c, e], with e the elements in row-major
   order.  Everything here is a pure function; row and column arguments are
   0-based as in the library.                                               *)
EXTENDS Num

Mk(r, c, f(_, _)) ==
    [r |-> r, c |-> c,
     e |-> IF r * c = 0 THEN <<>>
           ELSE TLCEval([n \in 1..(r * c) |-> f((n - 1) \div c, (n - 1) % c)])]

El(m, i, j) == m.e[i * m.c + j + 1]
Size(m) == m.r * m.c

MapE(m, f(_)) == [r |-> m.r, c |-> m.c, e |-> IF Size(m) = 0 THEN <<>> ELSE TLCEval([n \in 1..Len(m.e) |-> f(m.e[n])])]
Zip(m, o, f(_, _)) == [r |-> m.r, c |-> m.c, e |-> IF Size(m) = 0 THEN <<>> ELSE TLCEval([n \in 1..Len(m.e) |-> f(m.e[n], o.e[n])])]
ConvM(t, m) == LET F(x) == Conv(t, x) IN MapE(m, F)

Eye(n)      == LET F(i, j) == IF i = j THEN One ELSE Zero IN Mk(n, n, F)
EyeRC(r, c, v) == LET F(i, j) == IF i = j THEN v ELSE Zero IN Mk(r, c, F)
ConstM(r, c, v) == LET F(i, j) == v IN Mk(r, c, F)
ZeroM(r, c) == ConstM(r, c, Zero)

AddM(m, o) == Zip(m, o, Add)
SubM(m, o) == Zip(m, o, Sub)
ScaleM(m, x) == LET F(y) == Mul(y, x) IN MapE(m, F)
DivM(m, x) == LET F(y) == Div(y, x) IN MapE(m, F)

TransposeM(m) == LET F(i, j) == El(m, j, i) IN Mk(m.c, m.r, F)
ConjM(m) == MapE(m, Conj)

MulM(m, o) ==
    LET F(i, j) == IF m.c = 0 THEN Zero
                   ELSE SumQ(TLCEval([k \in 1..m.c |-> Mul(El(m, i, k - 1), El(o, k - 1, j))]), m.c)
    IN  Mk(m.r, o.c, F)

RECURSIVE PowM(_, _)
PowM(m, n) == IF n = 0 THEN EyeRC(m.r, m.c, One) ELSE IF n = 1 THEN m ELSE MulM(PowM(m, n - 1), m)

(* Rows r0..r1-1, columns c0..c1-1. *)
SubMat(m, r0, r1, c0, c1) ==
    LET F(i, j) == El(m, r0 + i, c0 + j) IN Mk(r1 - r0, c1 - c0, F)

(* The matrix without row p and column q (an index beyond the matrix removes
   the last one). *)
Minor(m, p, q) ==
    LET F(i, j) == El(m, IF i >= p THEN i + 1 ELSE i, IF j >= q THEN j + 1 ELSE j)
    IN  IF m.r = 0 \/ m.c = 0 THEN Mk(0, 0, F) ELSE Mk(m.r - 1, m.c - 1, F)
DropRow(m, p) == LET F(i, j) == El(m, IF i >= p THEN i + 1 ELSE i, j) IN Mk(m.r - 1, m.c, F)
DropCol(m, q) == LET F(i, j) == El(m, i, IF j >= q THEN j + 1 ELSE j) IN Mk(m.r, m.c - 1, F)

VStack(m, o) == LET F(i, j) == IF i < m.r THEN El(m, i, j) ELSE El(o, i - m.r, j) IN Mk(m.r + o.r, m.c, F)
HStack(m, o) == LET F(i, j) == IF j < m.c THEN El(m, i, j) ELSE El(o, i, j - m.c) IN Mk(m.r, m.c + o.c, F)

ReshapeM(m, r, c) == [r |-> r, c |-> c, e |-> m.e]
ResizeM(m, r, c) ==
    LET F(i, j) == IF i < m.r /\ j < m.c THEN El(m, i, j) ELSE Zero IN Mk(r, c, F)

RowM(v) == [r |-> 1, c |-> Len(v), e |-> v]
ColM(v) == [r |-> Len(v), c |-> 1, e |-> v]

DiagV(m) == [n \in 1..Min2(m.r, m.c) |-> El(m, n - 1, n - 1)]
TraceQ(m) == LET k == Min2(m.r, m.c) IN SumQ(TLCEval([n \in 1..k |-> El(m, n - 1, n - 1)]), k)

SwapRows(m, p, q, c0, c1) ==
    LET F(i, j) == IF j >= c0 /\ j < c1
                   THEN (IF i = p THEN El(m, q, j) ELSE IF i = q THEN El(m, p, j) ELSE El(m, i, j))
                   ELSE El(m, i, j)
    IN  Mk(m.r, m.c, F)
SwapCols(m, p, q, r0, r1) ==
    LET F(i, j) == IF i >= r0 /\ i < r1
                   THEN (IF j = p THEN El(m, i, q) ELSE IF j = q THEN El(m, i, p) ELSE El(m, i, j))
                   ELSE El(m, i, j)
    IN  Mk(m.r, m.c, F)

-----------------------------------------------------------------------------
(* Determinant by expansion along the first row (Leibniz), with the minors of
   the remaining rows: the textbook definition, exact.                      *)
RECURSIVE DetX(_, _, _)
(* cols: the sequence of columns still available for rows row..r-1 *)
DetX(m, row, cols) ==
    IF cols = <<>> THEN One
    ELSE IF Len(cols) = 1 THEN El(m, row, cols[1])
    ELSE LET Without(k) == SubSeq(cols, 1, k - 1) \o SubSeq(cols, k + 1, Len(cols))
             Term(k) == LET x == El(m, row, cols[k])
                        IN  IF x = Zero THEN Zero
                            ELSE LET y == Mul(x, DetX(m, row + 1, Without(k)))
                                 IN  IF k % 2 = 1 THEN y ELSE Neg(y)
         IN  SumQ(TLCEval([k \in 1..Len(cols) |-> Term(k)]), Len(cols))
Det(m) == DetX(m, 0, [k \in 1..m.c |-> k - 1])

(* Gauss-Jordan elimination with exact pivots: rank, and reduced form. *)
RECURSIVE Elim(_, _, _)
(* returns the row echelon form of m from row p, column q on *)
Elim(m, p, q) ==
    IF p >= m.r \/ q >= m.c THEN [m |-> m, rank |-> p]
    ELSE LET cand == {i \in p..(m.r - 1) : El(m, i, q) # Zero}
         IN  IF cand = {} THEN Elim(m, p, q + 1)
             ELSE LET k == CHOOSE i \in cand : \A j \in cand : i <= j
                      s == IF k = p THEN m ELSE SwapRows(m, p, k, 0, m.c)
                      piv == El(s, p, q)
                      F(i, j) == IF i = p THEN Div(El(s, p, j), piv)
                                 ELSE IF El(s, i, q) = Zero THEN El(s, i, j)
                                 ELSE Sub(El(s, i, j), Mul(El(s, i, q), Div(El(s, p, j), piv)))
                  IN  Elim(Mk(m.r, m.c, F), p + 1, q + 1)
RankOf(m) == Elim(m, 0, 0).rank
InvM(m) == LET x == Elim(HStack(m, Eye(m.r)), 0, 0) IN SubMat(x.m, 0, m.r, m.r, 2 * m.r)
AdjM(m) ==
    IF m.r = 1 THEN ConstM(1, 1, One)
    ELSE LET F(i, j) == LET d == Det(Minor(m, j, i)) IN IF (i + j) % 2 = 0 THEN d ELSE Neg(d)
         IN  Mk(m.r, m.c, F)

(* Crout factorisation A = L U with unit diagonal U.  Defined when the leading
   principal minors of order 1..n-1 are not zero. *)
RECURSIVE CroutStep(_, _, _)
CroutStep(a, lu, s) ==
    IF s = a.r THEN lu
    ELSE LET l == lu.l  u == lu.u
             Dot(i, j, n) == IF n = 0 THEN Zero ELSE SumQ(TLCEval([k \in 1..n |-> Mul(El(l, i, k - 1), El(u, k - 1, j))]), n)
             FL(i, j) == IF j = s /\ i >= s THEN Sub(El(a, i, s), Dot(i, s, s)) ELSE El(l, i, j)
             l2 == Mk(a.r, a.c, FL)
             FU(i, j) == IF i = s /\ j = s THEN One
                         ELSE IF i = s /\ j > s THEN Div(Sub(El(a, s, j), Dot(s, j, s)), El(l2, s, s))
                         ELSE El(u, i, j)
             u2 == Mk(a.r, a.c, FU)
         IN  CroutStep(a, [l |-> l2, u |-> u2], s + 1)
Crout(a) == CroutStep(a, [l |-> ZeroM(a.r, a.c), u |-> ZeroM(a.r, a.c)], 0)
LeadingMinorsOk(a) == \A k \in 1..(a.r - 1) : Det(SubMat(a, 0, k, 0, k)) # Zero

(* Characteristic polynomial, by Faddeev-LeVerrier. *)
RECURSIVE FLStep(_, _, _, _)
FLStep(a, b, m, cs) ==
    IF m > a.r THEN cs
    ELSE LET last == cs[m]
             b2 == MulM(a, AddM(b, ScaleM(Eye(a.r), last)))
         IN  FLStep(a, b2, m + 1, Append(cs, Neg(Div(TraceQ(b2), Int2Q(m)))))
CharPoly(a) == FLStep(a, a, 2, <<One, Neg(TraceQ(a))>>)

(* Coefficients (highest first) of the monic polynomial with the given roots. *)
RECURSIVE PolyRoots(_)
PolyRoots(rs) ==
    IF rs = <<>> THEN <<One>>
    ELSE LET n == Len(rs)
             p == PolyRoots(SubSeq(rs, 1, n - 1))
             x == rs[n]
         IN  TLCEval([k \in 1..(n + 1) |-> Sub(IF k <= n THEN p[k] ELSE Zero,
                                               IF k >= 2 THEN Mul(x, p[k - 1]) ELSE Zero)])

(* Value of the polynomial p at the square matrix a. *)
RECURSIVE PolyAtM(_, _)
PolyAtM(p, a) ==
    IF Len(p) = 1 THEN ScaleM(Eye(a.r), p[1])
    ELSE AddM(MulM(PolyAtM(SubSeq(p, 1, Len(p) - 1), a), a), ScaleM(Eye(a.r), p[Len(p)]))
=============================================================================
