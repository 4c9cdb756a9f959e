------------------------------- MODULE OpsCore ------------------------------
(* Construction, copy, move, assignment, element access, resizing of matrices
   and vectors, and views on matrices.                                      *)
EXTENDS Store

Untouched(s) == s

-----------------------------------------------------------------------------
(* Fresh objects.  how names the constructor: fill (rows, cols, value), list
   (rows, cols, {...}), stdvec (rows, cols, std::vector), nested ({{...}}),
   empty (). *)
ActNew ==
    \E a \in Pick(FreeM(store)), how \in Pick({"fill", "list", "stdvec", "nested", "elem"}) :
    \E t \in Pick(Types) :
    \E r1 \in Pick(IF how \in {"list", "nested"} THEN 1..3 ELSE Dims),
       c1 \in Pick(IF how \in {"list", "nested"} THEN 1..3 ELSE Dims) :
    \E v \in FreshVals(t) :
    \E o \in (IF how = "fill" THEN {MObj(t, ConstM(r1, c1, v))} ELSE FreshM(t, r1, c1)) :
        Do([op |-> "new", a |-> a, how |-> how, o |-> o], store, Ret(Put(store, a, o), None))

(* A matrix with no elements: default constructed, or with a zero dimension. *)
ActNewEmpty ==
    \E a \in Pick(FreeM(store)), t \in Pick(Types), rc \in Pick({<<0,0>>, <<0,3>>, <<2,0>>, <<0,1>>}) :
        Do([op |-> "new", a |-> a, how |-> IF rc = <<0,0>> THEN "empty" ELSE "fill", o |-> MObj(t, ZeroM(rc[1], rc[2]))],
           store, Ret(Put(store, a, MObj(t, ZeroM(rc[1], rc[2]))), None))
(* A list without rows, or whose rows are empty, is rejected. *)
ActNewNone ==
    \E a \in Pick(FreeM(store)), t \in Pick(Types), r \in Pick(0..3) :
        Do([op |-> "new", a |-> a, how |-> "nested", o |-> MObj(t, ZeroM(r, 0))], store, Thr(store))

ActNewV ==
    \E a \in Pick(FreeV(store)), how \in Pick({"fill", "list", "sized", "sizedlist", "elem"}) :
    \E t \in Pick(Types) :
    \E l \in (IF how \in {"list", "sizedlist"} THEN Pick(1..6) ELSE Pick(VDims)) :
    \E v \in FreshVals(t) :
    \E o \in (IF how = "fill" THEN {VObj(t, [i \in 1..l |-> v])}
              ELSE IF how = "sized" THEN {VObj(t, [i \in 1..l |-> Zero])}
              ELSE FreshV(t, l)) :
        Do([op |-> "newv", a |-> a, how |-> how, o |-> o], store, Ret(Put(store, a, o), None))

(* Destroying an object: only when no view hangs on it. *)
ActDrop ==
    \E a \in Pick(Live(store) \ Refd(store)) :
        Do([op |-> "drop", a |-> a], store, Ret(Put(store, a, Nil), None))

-----------------------------------------------------------------------------
(* Copies and moves. *)
NumOrBool == {"i", "d", "z", "f", "c", "b", "u"}
(* (A value that cannot be calculated with stays of its type.) *)
To(s, x, t) == Convertible(s[x].t, t) /\ (s[x].t = t \/ ~HasOpaque(s, x))
Targets(s, x) == {u \in Types : To(s, x, u)}

(* d := Matrix<u>(a); the source is any matrix-like object. *)
ActCopyCtor ==
    \E a \in PickOp(85, store, MatLike(store), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E u \in Bias(50, {a.s[a.x].t} \cap Types, Targets(a.s, a.x)) :
    \E d \in Pick(FreeM(a.s) \ {a.x}) :
        Do([op |-> "copyctor", a |-> a.x, d |-> d, t |-> u], a.s,
           Ret(Put(a.s, d, MObj(u, ConvM(u, Val(a.s, a.x)))), None))

(* d := Matrix<u>(std::move(a)): the source gives its elements away when the
   type is the same, and is left empty; otherwise it is copied. *)
ActMoveCtor ==
    \E a \in PickOp(85, store, Mats(store), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E u \in Bias(75, {a.s[a.x].t} \cap Types, Targets(a.s, a.x)) :
    \E d \in Pick(FreeM(a.s) \ {a.x}) :
        LET o == a.s[a.x]
            s1 == Put(a.s, d, MObj(u, ConvM(u, o)))
            s2 == IF u = o.t THEN Put(s1, a.x, MObj(o.t, ZeroM(0, 0))) ELSE s1
        IN  Do([op |-> "movector", a |-> a.x, d |-> d, t |-> u], a.s, Ret(s2, None))

(* a = b: the matrix a takes the shape and the converted elements of b, which
   may be a itself or a view on a. *)
EffAssign(s, a, b) == Ret(Put(s, a, MObj(s[a].t, ConvM(s[a].t, Val(s, b)))), None)
ActAssign ==
    \E a \in PickOp(90, store, Mats(store), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E b \in PickOp(80, a.s, {x \in MatLike(a.s) : To(a.s, x, a.s[a.x].t)}, FreeM(a.s) \ {a.x},
                    FreshAnyM({t \in Types : Convertible(t, a.s[a.x].t)}, Dims, Dims)) :
        Do([op |-> "assign", a |-> a.x, b |-> b.x], b.s, EffAssign(b.s, a.x, b.x))
(* Assigning from views on the destination, specifically. *)
ActAssignOwnView ==
    \E w \in Pick({x \in Views(store) : store[Root(store, x)].k = "M"}) :
        LET a == Root(store, w)
        IN  Do([op |-> "assign", a |-> a, b |-> w], store, EffAssign(store, a, w))
(* Assigning from an empty matrix. *)
ActAssignEmpty ==
    \E a \in Pick(Mats(store)) :
    \E t \in Pick({u \in Types : Convertible(u, store[a].t)}), b \in Pick(FreeM(store) \ {a}) :
    \E s1 \in {Put(store, b, MObj(t, ZeroM(0, 0)))}, mv \in Coin(50) :
        Do([op |-> IF mv THEN "moveassign" ELSE "assign", a |-> a, b |-> b], s1, EffAssign(s1, a, b))

(* a = std::move(b) *)
EffMoveAssign(s, a, b) ==
    LET o == s[b]
        s1 == Put(s, a, MObj(s[a].t, ConvM(s[a].t, o)))
    IN  Ret(IF a = b \/ o.t # s[a].t THEN s1 ELSE Put(s1, b, MObj(o.t, ZeroM(0, 0))), None)
ActMoveAssign ==
    \E a \in PickOp(90, store, Mats(store), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E b \in PickOp(70, a.s, {x \in Mats(a.s) : To(a.s, x, a.s[a.x].t)}, FreeM(a.s) \ {a.x},
                    FreshAnyM({a.s[a.x].t}, Dims, Dims)) :
        Do([op |-> "moveassign", a |-> a.x, b |-> b.x], b.s, EffMoveAssign(b.s, a.x, b.x))

(* a = {{...}, ...} *)
ActAssignList ==
    \E a \in Pick(Mats(store)), r \in Pick(1..3), c \in Pick(1..3) :
    \E o \in FreshM(store[a].t, r, c) :
        Do([op |-> "assignlist", a |-> a, o |-> o], store, Ret(Put(store, a, o), None))

(* std::swap(a, b) of two matrices of the same type. *)
ActSwap ==
    \E a \in Pick(Mats(store)) :
    \E b \in PickOp(80, store, {x \in Mats(store) \ {a} : store[x].t = store[a].t}, FreeM(store) \ {a},
                    FreshAnyM({store[a].t}, Dims, Dims)) :
        Do([op |-> "swap", a |-> a, b |-> b.x], b.s,
           Ret([b.s EXCEPT ![a] = b.s[b.x], ![b.x] = b.s[a]], None))

(* The same for vectors. *)
ActCopyCtorV ==
    \E a \in PickOp(85, store, Vecs(store), FreeV(store), FreshAnyV(Types, VDims)) :
    \E u \in Bias(50, {a.s[a.x].t} \cap Types, Targets(a.s, a.x)) :
    \E d \in Pick(FreeV(a.s) \ {a.x}) :
        Do([op |-> "copyctorv", a |-> a.x, d |-> d, t |-> u], a.s,
           Ret(Put(a.s, d, VObj(u, ConvM(u, a.s[a.x]).e)), None))
ActMoveCtorV ==
    \E a \in PickOp(85, store, Vecs(store), FreeV(store), FreshAnyV(Types, VDims)) :
    \E u \in Bias(75, {a.s[a.x].t} \cap Types, Targets(a.s, a.x)) :
    \E d \in Pick(FreeV(a.s) \ {a.x}) :
        LET o == a.s[a.x]
            s1 == Put(a.s, d, VObj(u, ConvM(u, o).e))
            s2 == IF u = o.t THEN Put(s1, a.x, VObj(o.t, <<>>)) ELSE s1
        IN  Do([op |-> "movectorv", a |-> a.x, d |-> d, t |-> u], a.s, Ret(s2, None))
ActAssignV ==
    \E a \in PickOp(90, store, Vecs(store), FreeV(store), FreshAnyV(Types, VDims)) :
    \E b \in PickOp(70, a.s, {x \in Vecs(a.s) : To(a.s, x, a.s[a.x].t)}, FreeV(a.s) \ {a.x},
                    FreshAnyV({t \in Types : Convertible(t, a.s[a.x].t)}, VDims)) :
        Do([op |-> "assignv", a |-> a.x, b |-> b.x], b.s,
           Ret(Put(b.s, a.x, VObj(b.s[a.x].t, ConvM(b.s[a.x].t, b.s[b.x]).e)), None))
ActMoveAssignV ==
    \E a \in PickOp(90, store, Vecs(store), FreeV(store), FreshAnyV(Types, VDims)) :
    \E b \in PickOp(60, a.s, {x \in Vecs(a.s) : To(a.s, x, a.s[a.x].t)}, FreeV(a.s) \ {a.x},
                    FreshAnyV({a.s[a.x].t}, VDims)) :
        LET s == b.s  o == s[b.x]
            s1 == Put(s, a.x, VObj(s[a.x].t, ConvM(s[a.x].t, o).e))
        IN  Do([op |-> "moveassignv", a |-> a.x, b |-> b.x], s,
               Ret(IF a.x = b.x \/ o.t # s[a.x].t THEN s1 ELSE Put(s1, b.x, VObj(o.t, <<>>)), None))

-----------------------------------------------------------------------------
(* Element access.  path is the way the element is reached: call (r, c), at,
   lin [i], ref (a reference obtained before), data and iter (matrices and
   vectors only).  i is the row-major position.                             *)
Paths(s, x) == IF s[x].k = "M" THEN {"call", "at", "lin", "ref", "data", "iter", "base"}
               ELSE IF s[x].k = "V" THEN {"lin", "data", "iter", "ref"}
               ELSE {"call", "at", "lin", "ref", "base"}
NonEmpty(s, X) == {x \in X : LET v == Val(s, x) IN v.r * v.c > 0}
ActSet ==
    \E a \in PickOp(92, store, {x \in NonEmpty(store, Live(store)) : Writable(store, x)}, FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E p \in Pick(Paths(a.s, a.x)), i \in Pick(1..Size(Val(a.s, a.x))) :
    \E v \in FreshVals(a.s[a.x].t) :
        LET m == Val(a.s, a.x)
            m2 == [m EXCEPT !.e[i] = v]
        IN  Do([op |-> "set", a |-> a.x, path |-> p, i |-> i - 1, r |-> (i - 1) \div m.c, c |-> (i - 1) % m.c, v |-> v],
               a.s, Ret(Write(a.s, a.x, m2), None))
(* Writing every element through one path, in increasing position. *)
ActFill ==
    \E a \in PickOp(92, store, {x \in NonEmpty(store, Live(store)) : Writable(store, x)}, FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E p \in Pick(Paths(a.s, a.x)) :
    \E o \in FreshM(a.s[a.x].t, Val(a.s, a.x).r, Val(a.s, a.x).c) :
        Do([op |-> "fill", a |-> a.x, path |-> p, e |-> o.e], a.s, Ret(Write(a.s, a.x, o), None))
(* Reading every element through one path. *)
ActRead ==
    \E a \in PickOp(92, store, NonEmpty(store, Live(store)), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E p \in Pick(Paths(a.s, a.x)) :
        Do([op |-> "read", a |-> a.x, path |-> p], a.s, Ret(a.s, RVec(a.s[a.x].t, Val(a.s, a.x).e)))

-----------------------------------------------------------------------------
(* Shapes.  via: the member function or the utility function. *)
ActReshape ==
    \E a \in PickOp(92, store, NonEmpty(store, Mats(store)), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E o \in {a.s[a.x]} :
    \E r \in Bias(85, {k \in 1..Size(o) : Size(o) % k = 0}, 1..(MaxDim + 1)) :
    \E c \in Bias(85, IF Size(o) % r = 0 THEN {Size(o) \div r} ELSE {}, 0..(MaxDim + 1)), via \in Pick({"member", "utility"}) :
        Do([op |-> "reshape", a |-> a.x, r |-> r, c |-> c, via |-> via], a.s,
           IF r * c = Size(o) THEN Ret(Put(a.s, a.x, MObj(o.t, ReshapeM(o, r, c))), None) ELSE Thr(a.s))
ActResize ==
    \E a \in PickOp(92, store, Mats(store), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E o \in {a.s[a.x]} :
    \E r \in Bias(25, {o.r}, 0..(MaxDim + 2)), c \in Bias(25, {o.c}, 0..(MaxDim + 2)), via \in Pick({"member", "utility"}) :
        Do([op |-> "resize", a |-> a.x, r |-> r, c |-> c, via |-> via], a.s,
           Ret(Put(a.s, a.x, MObj(o.t, ResizeM(o, r, c))), None))
ActResizeV ==
    \E a \in PickOp(92, store, Vecs(store), FreeV(store), FreshAnyV(Types, VDims)) :
    \E o \in {a.s[a.x]} :
    \E l \in Bias(15, {o.c}, VDims) :
        Do([op |-> "resizev", a |-> a.x, n |-> l], a.s,
           Ret(Put(a.s, a.x, VObj(o.t, TLCEval([i \in 1..l |-> IF i <= o.c THEN o.e[i] ELSE Zero]))), None))
(* resize to the size of another vector of the same type *)
ActResizeLikeV ==
    \E a \in Pick(Vecs(store)) :
    \E b \in Pick({x \in Vecs(store) : store[x].t = store[a].t}) :
        LET o == store[a]  l == store[b].c
        IN  Do([op |-> "resizelikev", a |-> a, b |-> b], store,
               Ret(Put(store, a, VObj(o.t, TLCEval([i \in 1..l |-> IF i <= o.c THEN o.e[i] ELSE Zero]))), None))

-----------------------------------------------------------------------------
(* Views.  how: call M(Range, Range), ctor View(&A, ...), rctor
   View(&A, Range, Range), util utility::view, row, col.  cst: the view is
   taken through a constant reference to the base. *)
FreeW(s) == WSlots \ Refd(s)
Starts(k) == Bias(92, 0..(k - 1), 0..(k + 1))
ActView ==
    \E b \in PickOp(90, store, NonEmpty(store, MatLike(store)), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {Val(b.s, b.x)} :
    \E w \in Pick(FreeW(b.s) \ {b.x}) :
    \E r0 \in Starts(m.r), c0 \in Starts(m.c) :
    \E r1 \in Bias(70, (r0 + 1)..m.r, {r0 + 1, r0 + 2, m.r + 3, All} \cap ((r0 + 1)..All)),
       c1 \in Bias(70, (c0 + 1)..m.c, {c0 + 1, c0 + 2, m.c + 3, All} \cap ((c0 + 1)..All)) :
    \E how \in Pick({"ctor", "rctor", "util"} \cup (IF b.s[b.x].k = "M" THEN {"call"} ELSE {})
                     \cup (IF r1 = r0 + 1 THEN {"row"} ELSE {}) \cup (IF c1 = c0 + 1 THEN {"col"} ELSE {})) :
    \E cst \in Coin(25) :
        LET cc == cst \/ ~Writable(b.s, b.x)
        IN  Do([op |-> "view", a |-> w, b |-> b.x, how |-> how, cst |-> cc, r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1], b.s,
               Ret(Put(b.s, w, [k |-> "W", t |-> b.s[b.x].t, base |-> b.x, cst |-> cc, r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1]), None))
ActCofView ==
    \E b \in PickOp(90, store, NonEmpty(store, MatLike(store)), FreeM(store), FreshAnyM(Types, Dims, Dims)) :
    \E m \in {Val(b.s, b.x)} :
    \E w \in Pick(FreeW(b.s) \ {b.x}) :
    \E p \in Pick(0..(m.r - 1)), q \in Pick(0..(m.c - 1)), cst \in Coin(25) :
        LET cc == cst \/ ~Writable(b.s, b.x)
        IN  Do([op |-> "cofview", a |-> w, b |-> b.x, cst |-> cc, p |-> p, q |-> q], b.s,
               Ret(Put(b.s, w, [k |-> "C", t |-> b.s[b.x].t, base |-> b.x, cst |-> cc, xr |-> p, xc |-> q]), None))

SameShape(s, x, y) == LET v == Val(s, x)  w == Val(s, y) IN v.r = w.r /\ v.c = w.c
(* Two operands that overlap must show the same elements in the same places. *)
AliasOk(s, x, y) == \/ Root(s, x) # Root(s, y)
                    \/ CellsOf(s, x) \cap CellsOf(s, y) = {}
                    \/ Cells(s, x).e = Cells(s, y).e
(* view = matrix-like: the elements are written through. *)
EffVAssign(s, w, b) == Ret(Write(s, w, Val(s, b)), None)
ActVAssign ==
    \E w \in Pick({x \in NonEmpty(store, Views(store)) : Writable(store, x)}) :
    \E b \in PickOp(55, store, {x \in MatLike(store) : To(store, x, store[w].t) /\ SameShape(store, w, x) /\ AliasOk(store, w, x)},
                    FreeM(store), FreshAnyM({t \in Types : Convertible(t, store[w].t)}, {Val(store, w).r}, {Val(store, w).c})) :
        Do([op |-> "vassign", a |-> w, b |-> b.x], b.s, EffVAssign(b.s, w, b.x))
(* view = {{...}}: nothing happens when the shape is different. *)
ActVAssignList ==
    \E w \in Pick({x \in NonEmpty(store, Views(store)) : Writable(store, x) /\ store[x].k = "W"}) :
    \E v \in {Val(store, w)} :
    \E r \in Bias(85, {v.r} \cap (1..3), 1..3), c \in Bias(85, {v.c} \cap (1..3), 1..3) :
    \E o \in FreshM(store[w].t, r, c) :
        Do([op |-> "vassignlist", a |-> w, o |-> o], store,
           Ret(IF r = v.r /\ c = v.c THEN Write(store, w, o) ELSE store, None))
=============================================================================
