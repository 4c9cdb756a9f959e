------------------------------- MODULE OpsEig --------------------------------
(* Eigenvalues of complex matrices.  The factors are not unique, so what is
   specified is what they must satisfy: the call returns the products that
   the specification knows (and the replayer forms without the library).    *)
EXTENDS OpsCtl

(* An upper Hessenberg, triangular, Hermitian, permutation matrix. *)
Gauss(b) == Add(SmallInt(b), Mul(ImU, SmallInt(b)))
EigKinds == {"rand", "real", "herm", "perm", "sparse", "tri", "low", "hess", "const"}
EigOf(k, kind) ==
    LET g == [r |-> k, c |-> k, e |-> TLCEval([i \in 1..(k * k) |-> IF kind \in {"real", "perm"} \/ RandomElement(1..4) = 1 THEN SmallInt(4) ELSE Gauss(3)])]
        s == RandomElement(1..Max2(1, k - 1))
        z == [i \in 1..(k * k) |-> RandomElement(1..3)]
        F(i, j) == CASE kind = "herm" -> (IF i = j THEN RePart(El(g, i, j)) ELSE IF i < j THEN El(g, i, j) ELSE Conj(El(g, j, i)))
                     [] kind = "perm" -> (IF j = (i + s) % k THEN One ELSE Zero)
                     [] kind = "sparse" -> (IF z[i * k + j + 1] = 1 THEN RandomElement({One, Int2Q(-1), ImU}) ELSE Zero)
                     [] kind = "tri" -> (IF i > j THEN Zero ELSE El(g, i, j))
                     [] kind = "low" -> (IF i < j THEN Zero ELSE El(g, i, j))
                     [] kind = "hess" -> (IF i > j + 1 THEN Zero ELSE El(g, i, j))
                     [] kind = "const" -> (IF i = j THEN El(g, 0, 0) ELSE Zero)
                     [] OTHER -> El(g, i, j)
        m == Mk(k, k, F)
    IN  [m EXCEPT !.e = TLCEval(m.e)]
EigFit(m) == m.r >= 1 /\ m.r <= 5 /\ Within(m.e, 30, 8)
HessOnly(m) == \A i \in 0..(m.r - 1), j \in 0..(m.c - 1) : i > j + 1 => El(m, i, j) = Zero
UpperOnly(m) == \A i \in 0..(m.r - 1), j \in 0..(m.c - 1) : i > j => El(m, i, j) = Zero
Zs(k) == RVec("z", [i \in 1..k |-> Zero])
NewEig(kinds) == {MObj("z", EigOf(kk[1], kk[2])) : kk \in UNION {{<<k, kind>>} : k \in Pick(1..5), kind \in Pick(kinds)}}
SquareZ(s, ok(_)) == {x \in Mats(s) : s[x].t = "z" /\ s[x].r = s[x].c /\ EigFit(s[x]) /\ ok(s[x])}

ActHess ==
    \E a \in PickOp(35, store, SquareZ(store, LAMBDA m : TRUE), FreeM(store), NewEig(EigKinds)) :
    \E m \in {a.s[a.x]} :
        \E rec \in Units([op |-> "hess", a |-> a.x, prec |-> 10], "z", <<0, 1, 1>>) :
        Do(rec, a.s,
           Ret(a.s, RList(<<RMat("z", Eye(m.r)), RMat("z", m), Zs(IF m.r < 3 THEN 0 ELSE ((m.r - 1) * (m.r - 2)) \div 2)>>)))
ActGivens ==
    \E a \in PickOp(30, store, SquareZ(store, HessOnly), FreeM(store), NewEig({"hess", "hess", "tri", "herm"})) :
    \E m \in {a.s[a.x]} :
        IF ~HessOnly(m) THEN Do([op |-> "hess", a |-> a.x, prec |-> 10], a.s,
           Ret(a.s, RList(<<RMat("z", Eye(m.r)), RMat("z", m), Zs(IF m.r < 3 THEN 0 ELSE ((m.r - 1) * (m.r - 2)) \div 2)>>)))
        ELSE \E rec \in Units([op |-> "givens", a |-> a.x, prec |-> 10], "z", <<0, 1, 1>>) :
           Do(rec, a.s,
           Ret(a.s, RList(<<RMat("z", Eye(m.r)), RMat("z", m), Zs((m.r * (m.r - 1)) \div 2)>>)))

(* The eigenvalues, in the order of their real and imaginary parts. *)
EigLt(x, y) == LET d == Cmp(RePart(x), RePart(y)) IN d < 0 \/ (d = 0 /\ Cmp(ImPart(x), ImPart(y)) < 0)
RECURSIVE InsertE(_, _)
InsertE(e, x) == IF e = <<>> THEN <<x>> ELSE IF EigLt(x, e[1]) THEN <<x>> \o e ELSE <<e[1]>> \o InsertE(Tail(e), x)
RECURSIVE SortE(_)
SortE(e) == IF e = <<>> THEN <<>> ELSE InsertE(SortE(Tail(e)), e[1])
RECURSIVE EigsOf(_)
EigsOf(bs) == IF bs = <<>> THEN <<>>
              ELSE (IF bs[1].kind = "rot" THEN <<Add(bs[1].x, Mul(ImU, bs[1].y)), Sub(bs[1].x, Mul(ImU, bs[1].y))>>
                    ELSE [i \in 1..bs[1].n |-> bs[1].x]) \o EigsOf(Tail(bs))
Defective(bs) == \E i \in 1..Len(bs) : bs[i].kind = "jor" /\ bs[i].n > 1
SchurRes(m, eigs) == RList(<<RMat("z", Eye(m.r)), RMat("z", m), Zs((m.r * (m.r - 1)) \div 2), RVec("z", eigs)>>)
ActSchur ==
    \E known \in Coin(50) :
    IF known
    THEN \E kx \in KnownExp({"z"}) : \E d \in Pick(FreeM(store)), ev \in Coin(60) :
         \E s \in {[store EXCEPT ![d] = MObj("z", kx.m)]} :
         Do([op |-> "schur", a |-> d, eig |-> ev \/ ~Defective(kx.bs), prec |-> IF ~Defective(kx.bs) THEN 7 ELSE IF ev THEN 2 ELSE 9], s,
            Ret(s, SchurRes(kx.m, IF ev \/ ~Defective(kx.bs) THEN SortE(EigsOf(kx.bs)) ELSE <<>>)))
    ELSE \E a \in PickOp(35, store, SquareZ(store, LAMBDA m : TRUE), FreeM(store), NewEig(EigKinds)) :
         \E m \in {a.s[a.x]} :
         Do([op |-> "schur", a |-> a.x, eig |-> UpperOnly(m) /\ \A i, j \in 0..(m.r - 1) : i < j => El(m, i, i) # El(m, j, j), prec |-> 9], a.s,
            Ret(a.s, SchurRes(m, IF UpperOnly(m) /\ \A i, j \in 0..(m.r - 1) : i < j => El(m, i, i) # El(m, j, j) THEN SortE([i \in 1..m.r |-> El(m, i - 1, i - 1)]) ELSE <<>>)))

(* Eigenvectors of an upper triangular matrix: returned are T*E - E*diag(T),
   whether every column is zero or of length one, with nothing below its
   diagonal element (and that not zero), and whether there is a full set. *)
Diagonalisable(m) ==  \* for every eigenvalue, as many eigenvectors as it has occurrences
    \/ \A i, j \in 0..(m.r - 1) : i < j => El(m, i, i) # El(m, j, j)
    \/ \A i \in 0..(m.r - 1) :
        LET x == El(m, i, i)
            F(p, q) == IF p = q THEN Sub(El(m, p, q), x) ELSE El(m, p, q)
        IN  m.r - RankOf(Mk(m.r, m.r, F)) = Cardinality({j \in 0..(m.r - 1) : El(m, j, j) = x})
(* A diagonal of few values, in which eigenvalues are repeated; the entries
   that couple equal eigenvalues are sometimes left out. *)
FewEigs(k) ==
    LET v == TLCEval([i \in 1..k |-> RandomElement({Zero, One, Int2Q(-1), Int2Q(2), ImU})])
        c == RandomElement(1..3)
        F(i, j) == IF i = j THEN v[i + 1] ELSE IF i > j THEN Zero ELSE IF c = 1 /\ v[i + 1] = v[j + 1] THEN Zero
                   ELSE IF c = 2 THEN (IF j = i + 1 THEN SmallInt(1) ELSE Zero) ELSE RandomElement({Zero, One, Int2Q(-1), ImU})
        m == Mk(k, k, F)
    IN  [m EXCEPT !.e = TLCEval(m.e)]
Distinct(m) == \A i, j \in 0..(m.r - 1) : i < j => El(m, i, i) # El(m, j, j)
(* A matrix with repeated eigenvalues is only of interest when the algorithm
   meets exact zeros: differences of the eigenvalues are units or powers of two. *)
UpOk(m) == UpperOnly(m) /\ (Distinct(m) \/ (m.r <= 4 /\ Within(m.e, 4, 1) /\ \A i, j \in 0..(m.r - 1) :
               LET d == Norm2(Sub(El(m, i, i), El(m, j, j))) IN d = Zero \/ IsPow2(d[1])))
ActEigVec ==
    \E a \in PickOp(30, store, SquareZ(store, UpOk), FreeM(store), UNION {IF f THEN {MObj("z", EigOf(k, "tri"))} ELSE {MObj("z", FewEigs(k))} : k \in Pick(1..5), f \in Coin(40)}) :
    \E m \in {a.s[a.x]} :
        IF ~UpOk(m) THEN Do([op |-> "schur", a |-> a.x, eig |-> FALSE, prec |-> 9], a.s, Ret(a.s, SchurRes(m, <<>>)))
        ELSE \E rec \in Units([op |-> "eigvec", a |-> a.x, prec |-> 9], "z", <<1, 0, 0>>) :
             Do(rec, a.s,
                Ret(a.s, RList(<<RMat("z", ZeroM(m.r, m.r)), RBool(TRUE), RBool(Diagonalisable(m))>>)))

LawEig ==
    LET o == out' IN
    (* the eigenvalues are the roots of the characteristic polynomial *)
    o.op = "schur" /\ o.a.eig /\ Len(o.res.v[2].e) <= 9 /\ Within(o.res.v[2].e, 5, 2) =>
        PolyRoots(o.res.v[4].e) = CharPoly(o.res.v[2])
=============================================================================
