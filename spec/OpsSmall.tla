------------------------------- MODULE OpsSmall -------------------------------
(* Small scopes, exhaustively (Sim = FALSE): for every property, every short
   history over every small operand.  A behaviour has Steps steps and is
   printed whole (hist); Deep widens the scope.                             *)
EXTENDS OpsRand

CONSTANTS Steps, Deep
VARIABLE hist
SInit == Init /\ hist = <<>>
SEmit == n' = Steps => PrintT(ToJson(hist'))
Log == hist' = Append(hist, out')
svars == <<store, tol, out, n, hist>>

Upto(a, b) == IF Deep THEN b ELSE a
Seqs(k, V) == IF k = 0 THEN {<<>>} ELSE [1..k -> V]
Ints(S) == {Int2Q(k) : k \in S}
MOf(t, r, c, q) == MObj(t, [r |-> r, c |-> c, e |-> TLCEval([i \in 1..(r * c) |-> q[i]])])
VOf(t, k, q) == VObj(t, TLCEval([i \in 1..k |-> q[i]]))
On(x, o) == [store EXCEPT ![x] = o]
On2(x, o, y, p) == [store EXCEPT ![x] = o, ![y] = p]
(* A fixed content of every shape and type. *)
Cell1(t, i, j) == IF IsCplx(t) THEN <<(3 * i + j) - 2, (i + 2 * j) - 1, 1>> ELSE Int2Q((3 * i + 2 * j) - 3)
Cell2(t, i, j) == IF IsCplx(t) THEN <<5 - i, j, 2>> ELSE IF t = "i" THEN Int2Q((7 - i) - 3 * j) ELSE Q((7 - 4 * i) - 3 * j, 0, 2)
Fix1(t, sh) == LET F(i, j) == Cell1(t, i, j) IN MObj(t, Mk(sh[1], sh[2], F))
Fix2(t, sh) == LET F(i, j) == Cell2(t, i, j) IN MObj(t, Mk(sh[1], sh[2], F))
FixV(t, k) == VObj(t, Fix1(t, <<1, k>>).e)
FixW(t, k) == VObj(t, Fix2(t, <<1, k>>).e)
Grid(a, b) == (a..b) \X (a..b)
AllT == {"i", "f", "d", "c", "z"}
Sc(t, v) == [t |-> t, v |-> v]

(* Histories: the first steps, then what is done to what they left. *)
FillEl(t, i) == IF IsCplx(t) THEN <<i + 20, -i, 1>> ELSE Int2Q(i + 20)
DoFill(x, path) ==
    LET m == TVal(store, x)
        e == TLCEval([i \in 1..Len(m.e) |-> FillEl(m.t, i)])
    IN  Do([op |-> "fill", a |-> x, path |-> path, e |-> e], store, Ret(Write(store, x, [r |-> m.r, c |-> m.c, e |-> e]), None))
DoResize(x, r, c) ==
    LET o == store[x] IN
    IF o.k = "V" THEN Do([op |-> "resizev", a |-> x, n |-> c], store, Ret(Put(store, x, VObj(o.t, TLCEval([i \in 1..c |-> IF i <= o.c THEN o.e[i] ELSE Zero]))), None))
    ELSE Do([op |-> "resize", a |-> x, r |-> r, c |-> c, via |-> IF (r + c) % 2 = 0 THEN "member" ELSE "utility"], store,
            Ret(Put(store, x, MObj(o.t, ResizeM(o, r, c))), None))
(* Write all of x, or give it elements when it has none. *)
Touch(x) == IF Size(Val(store, x)) > 0 /\ Writable(store, x) THEN DoFill(x, "lin")
            ELSE IF store[x].k \in {"M", "V"} THEN DoResize(x, 2, 2)
            ELSE IF Size(Val(store, x)) = 0 THEN DoResize(Root(store, x), 3, 3) ELSE DoFill(Root(store, x), "lin")

-----------------------------------------------------------------------------
(* C01: two objects, copied, moved, assigned or swapped; one is then written,
   the other resized. *)
PairTypes == {<<"i", "i">>, <<"z", "z">>, <<"d", "i">>, <<"i", "d">>, <<"c", "d">>} \cup (IF Deep THEN {<<"f", "f">>, <<"d", "d">>, <<"z", "i">>, <<"z", "c">>, <<"f", "d">>} ELSE {})
Shapes01 == IF Deep THEN Grid(0, 3) ELSE {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<0, 2>>, <<3, 2>>}
CM01 ==
    \E p \in Shapes01, q \in Shapes01, tt \in PairTypes :
        LET a == Fix1(tt[1], p)  b == Fix2(tt[2], q)  s == On2("A", a, "B", b)  cv == Convertible(tt[2], tt[1]) IN
        \/ cv /\ Do([op |-> "assign", a |-> "A", b |-> "B"], s, EffAssign(s, "A", "B"))
        \/ cv /\ Do([op |-> "moveassign", a |-> "A", b |-> "B"], s, EffMoveAssign(s, "A", "B"))
        \/ tt[1] = tt[2] /\ Do([op |-> "swap", a |-> "A", b |-> "B"], s, Ret([s EXCEPT !["A"] = b, !["B"] = a], None))
        \/ p = q /\ Do([op |-> "assign", a |-> "A", b |-> "A"], s, EffAssign(s, "A", "A"))
        \/ p = q /\ Do([op |-> "moveassign", a |-> "A", b |-> "A"], s, EffMoveAssign(s, "A", "A"))
        \/ cv /\ p = q /\ LET s1 == On("B", b) IN Do([op |-> "copyctor", a |-> "B", d |-> "C", t |-> tt[1]], s1, Ret(Put(s1, "C", MObj(tt[1], ConvM(tt[1], b))), None))
        \/ cv /\ p = q /\ LET s1 == On("B", b)
                                  s2 == Put(s1, "C", MObj(tt[1], ConvM(tt[1], b)))
                          IN  Do([op |-> "movector", a |-> "B", d |-> "C", t |-> tt[1]], s1, Ret(IF tt[1] = tt[2] THEN Put(s2, "B", MObj(tt[2], ZeroM(0, 0))) ELSE s2, None))
CV01 ==
    \E k \in 0..Upto(3, 6), l \in 0..Upto(3, 6), tt \in PairTypes :
        LET v == FixV(tt[1], k)  w == FixW(tt[2], l)  s == On2("u", v, "v", w)  cv == Convertible(tt[2], tt[1])
            as == Put(s, "u", VObj(tt[1], ConvM(tt[1], w).e))
            cc == Put(s, "w", VObj(tt[1], ConvM(tt[1], w).e))
            gone(x) == IF tt[1] = tt[2] THEN Put(x, "v", VObj(tt[2], <<>>)) ELSE x IN
        \/ cv /\ Do([op |-> "assignv", a |-> "u", b |-> "v"], s, Ret(as, None))
        \/ cv /\ Do([op |-> "moveassignv", a |-> "u", b |-> "v"], s, Ret(gone(as), None))
        \/ k = l /\ \E mv \in BOOLEAN : Do([op |-> IF mv THEN "moveassignv" ELSE "assignv", a |-> "u", b |-> "u"], s, Ret(s, None))
        \/ cv /\ k = 2 /\ Do([op |-> "copyctorv", a |-> "v", d |-> "w", t |-> tt[1]], s, Ret(cc, None))
        \/ cv /\ k = 2 /\ Do([op |-> "movectorv", a |-> "v", d |-> "w", t |-> tt[1]], s, Ret(gone(cc), None))
(* A matrix takes the elements of a view on itself. *)
Windows(r, c) == {w \in (0..(r - 1)) \X (1..r) \X (0..(c - 1)) \X (1..c) : w[1] < w[2] /\ w[3] < w[4]}
WObj(t, base, cst, w) == [k |-> "W", t |-> t, base |-> base, cst |-> cst, r0 |-> w[1], r1 |-> w[2], c0 |-> w[3], c1 |-> w[4]]
HowOf(w, m) == LET h == (w[1] + w[3] + w[2]) % 4 IN
               IF w[2] = w[1] + 1 /\ h = 0 THEN "row" ELSE IF w[4] = w[3] + 1 /\ h = 1 THEN "col" ELSE IF h = 0 THEN "ctor" ELSE IF h = 1 THEN "util" ELSE IF h = 2 /\ m THEN "call" ELSE "rctor"
DoView(w, b, s, win, cst) ==
    Do([op |-> "view", a |-> w, b |-> b, how |-> HowOf(win, s[b].k = "M"), cst |-> cst, r0 |-> win[1], r1 |-> win[2], c0 |-> win[3], c1 |-> win[4]], s,
       Ret(Put(s, w, WObj(s[b].t, b, cst, win)), None))
DoCof(w, b, s, i, j, cst) ==
    Do([op |-> "cofview", a |-> w, b |-> b, cst |-> cst, p |-> i, q |-> j], s,
       Ret(Put(s, w, [k |-> "C", t |-> s[b].t, base |-> b, cst |-> cst, xr |-> i, xc |-> j]), None))
Own01 == \E p \in Grid(1, 3), t \in {"i", "z"} : \E w \in Windows(p[1], p[2]) : DoView("P", "A", On("A", Fix1(t, p)), w, FALSE)
S01 == /\ \/ n = 0 /\ (CM01 \/ CV01 \/ Own01)
          \/ n = 1 /\ (IF store["P"].k = "W" THEN Do([op |-> "assign", a |-> "A", b |-> "P"], store, EffAssign(store, "A", "P"))
                       ELSE \E x \in Live(store) : Touch(x))
          \/ n = 2 /\ (IF store["P"].k = "W" THEN Touch("P") ELSE \E y \in Live(store) \ {hist[2].a.a} : DoResize(y, 2, 3))
       /\ Log

(* C02: chains of shapes. *)
S02 == /\ \/ n = 0 /\ \/ \E p \in Grid(0, Upto(2, 3)), q \in Grid(0, Upto(2, 3)), t \in {"i", "z"} :
                            LET o == Fix1(t, p)  s == On("A", o) IN
                            Do([op |-> "resize", a |-> "A", r |-> q[1], c |-> q[2], via |-> "member"], s, Ret(Put(s, "A", MObj(t, ResizeM(o, q[1], q[2]))), None))
                      \/ \E k \in 0..Upto(4, 6), l \in 0..Upto(4, 6), t \in {"d", "c"} :
                            LET o == FixV(t, k)  s == On("u", o) IN
                            Do([op |-> "resizev", a |-> "u", n |-> l], s, Ret(Put(s, "u", VObj(t, TLCEval([i \in 1..l |-> IF i <= k THEN o.e[i] ELSE Zero]))), None))
          \/ n = 1 /\ \/ \E x \in Live(store) : Touch(x)
                      \/ \E x \in Mats(store), via \in {"member", "utility"} : \E o \in {store[x]} :
                            \E r \in {k \in 1..Size(o) : Size(o) % k = 0} :
                               Do([op |-> "reshape", a |-> x, r |-> r, c |-> Size(o) \div r, via |-> via], store, Ret(Put(store, x, MObj(o.t, ReshapeM(o, r, Size(o) \div r))), None))
          \/ n = 2 /\ \E x \in Live(store) : IF store[x].k = "V" THEN \E l \in 0..Upto(5, 8) : DoResize(x, 1, l) ELSE \E q \in Grid(0, Upto(2, 3)) : DoResize(x, q[1], q[2])
       /\ Log

(* C04: every element through every path, on matrices, vectors and views. *)
DoSet(x, path, i) ==
    LET m == TVal(store, x)  v == FillEl(m.t, i) IN
    Do([op |-> "set", a |-> x, path |-> path, i |-> i - 1, r |-> (i - 1) \div m.c, c |-> (i - 1) % m.c, v |-> v], store,
       Ret(Write(store, x, [[r |-> m.r, c |-> m.c, e |-> m.e] EXCEPT !.e[i] = v]), None))
DoRead(x, path) == Do([op |-> "read", a |-> x, path |-> path], store, Ret(store, RVec(store[x].t, Val(store, x).e)))
S04 == /\ \/ n = 0 /\ \/ \E p \in Grid(1, 3), t \in AllT : LET s == On("A", Fix1(t, p)) IN Do([op |-> "read", a |-> "A", path |-> "call"], s, Ret(s, RVec(t, s["A"].e)))
                      \/ \E k \in 1..5, t \in AllT : LET s == On("u", FixV(t, k)) IN Do([op |-> "read", a |-> "u", path |-> "lin"], s, Ret(s, RVec(t, s["u"].e)))
                      \/ \E p \in Grid(1, Upto(2, 3)), t \in {"i", "z"} : \E w \in Windows(p[1], p[2]), cst \in BOOLEAN : DoView("P", "A", On("A", Fix1(t, p)), w, cst)
                      \/ \E p \in Grid(2, Upto(3, 4)), t \in {"d", "c"} : \E i \in 0..(p[1] - 1), j \in 0..(p[2] - 1), cst \in BOOLEAN : DoCof("P", "A", On("A", Fix1(t, p)), i, j, cst)
          \/ n = 1 /\ \E x \in Live(store) : \E path \in Paths(store, x) :
                         \/ DoRead(x, path)
                         \/ (Writable(store, x) = TRUE) /\ \E i \in 1..Size(Val(store, x)) : DoSet(x, path, i)
       /\ Log

(* C05, C06: views, a change of their base, and writing through them. *)
Base05(x) ==       \* the matrix x becomes something else
    \E q \in Grid(0, Upto(2, 4)) :
    \E o \in {store[x]} :
        \/ DoResize(x, q[1], q[2])
        \/ LET s == On("B", Fix2(o.t, q)) IN
           \E f \in {"assign", "moveassign"} : Do([op |-> f, a |-> x, b |-> "B"], s, IF f = "assign" THEN EffAssign(s, x, "B") ELSE EffMoveAssign(s, x, "B"))
        \/ LET s == On("B", Fix2(o.t, q)) IN Do([op |-> "swap", a |-> x, b |-> "B"], s, Ret([s EXCEPT ![x] = s["B"], !["B"] = s[x]], None))
Reshaped(x) == \E o \in {store[x]} : \E r \in {k \in 1..Size(o) : Size(o) % k = 0} :
                   Do([op |-> "reshape", a |-> x, r |-> r, c |-> Size(o) \div r, via |-> "member"], store, Ret(Put(store, x, MObj(o.t, ReshapeM(o, r, Size(o) \div r))), None))
Open(p) == {w \in (0..(p[1] - 1)) \X ((1..p[1]) \cup {p[1] + 1, All}) \X (0..(p[2] - 1)) \X ((1..p[2]) \cup {p[2] + 1, All}) : w[1] < w[2] /\ w[3] < w[4]}
(* What is written through the view: everything, one element, another object. *)
Through(x) ==
    IF (Size(Val(store, x)) = 0 \/ ~Writable(store, x)) = TRUE THEN Touch(x)
    ELSE \/ DoFill(x, "call")
         \/ \E i \in {1, Size(Val(store, x))} : DoSet(x, "at", i)
         \/ LET m == TVal(store, x)  s == On("C", Fix2(m.t, <<m.r, m.c>>)) IN
            Do([op |-> "vassign", a |-> x, b |-> "C"], s, Ret(Write(s, x, s["C"]), None))
         \/ LET m == TVal(store, x)  s == store  o == Fix2(m.t, <<m.r, m.c>>) IN
            /\ store[x].k = "W" /\ m.r <= 3 /\ m.c <= 3
            /\ Do([op |-> "vassignlist", a |-> x, o |-> o], s, Ret(Write(s, x, o), None))
S05 == /\ \/ n = 0 /\ \E p \in Grid(1, Upto(2, 3)), t \in {"i"} \cup (IF Deep THEN {"z"} ELSE {}) : \E w \in Open(p) : DoView("P", "A", On("A", Fix1(t, p)), w, FALSE)
          \/ n = 1 /\ (Base05("A") \/ Reshaped("A"))
          \/ n = 2 /\ Through("P")
       /\ Log
(* A view on a view. *)
S05n == /\ \/ n = 0 /\ \E p \in {<<3, 3>>} \cup (IF Deep THEN {<<2, 4>>, <<4, 2>>} ELSE {}) : \E w \in Windows(p[1], p[2]) : DoView("P", "A", On("A", Fix1("d", p)), w, FALSE)
           \/ n = 1 /\ LET m == Val(store, "P") IN \E w \in Windows(m.r, m.c) : DoView("Q", "P", store, w, FALSE)
           \/ n = 2 /\ \E x \in {"P", "Q"} : Through(x)
        /\ Log
S05m == /\ \/ n = 0 /\ \E p \in {<<3, 3>>} : \E w \in Open(<<3, 3>>) : w[1] + w[3] <= 2 /\ w[2] > 1 /\ w[4] > 1 /\ DoView("P", "A", On("A", Fix1("i", p)), w, FALSE)
           \/ n = 1 /\ LET m == Val(store, "P") IN \E w \in {<<0, m.r, 0, m.c>>, <<0, All, 0, 1>>, <<m.r - 1, m.r, 0, All>>, <<0, 1, m.c - 1, m.c>>} : DoView("Q", "P", store, w, FALSE)
           \/ n = 2 /\ \E q \in Grid(0, 4) : DoResize("A", q[1], q[2])
           \/ n = 3 /\ DoFill(IF Size(Val(store, "Q")) > 0 THEN "Q" ELSE IF Size(Val(store, "P")) > 0 THEN "P" ELSE "A", "at")
        /\ Log
S06 == /\ \/ n = 0 /\ \E p \in Grid(1, Upto(3, 4)) : \E i \in 0..(p[1] - 1), j \in 0..(p[2] - 1) : DoCof("P", "A", On("A", Fix1("i", p)), i, j, FALSE)
          \/ n = 1 /\ (Base05("A") \/ Reshaped("A"))
          \/ n = 2 /\ Through("P")
       /\ Log
(* Cofactor views and windows on each other. *)
S06n == /\ \/ n = 0 /\ \/ \E p \in {<<3, 3>>} \cup (IF Deep THEN {<<4, 4>>, <<3, 4>>} ELSE {<<2, 4>>}) : \E i \in 0..(p[1] - 1), j \in 0..(p[2] - 1) : DoCof("P", "A", On("A", Fix1("z", p)), i, j, FALSE)
                       \/ \E p \in {<<3, 3>>} : \E w \in Windows(p[1], p[2]) : DoView("P", "A", On("A", Fix1("d", p)), w, FALSE)
           \/ n = 1 /\ LET m == Val(store, "P") IN
                       \/ \E i \in 0..(m.r - 1), j \in 0..(m.c - 1) : DoCof("Q", "P", store, i, j, FALSE)
                       \/ store["P"].k = "C" /\ \E w \in Windows(m.r, m.c) : DoView("Q", "P", store, w, FALSE)
           \/ n = 2 /\ \E x \in {"P", "Q"} : Through(x)
        /\ Log

-----------------------------------------------------------------------------
(* C07, C08: every combination of element types and of kinds of operand. *)
TT == AllT \X AllT
S07 == /\ \/ n = 0 /\ \E tt \in TT : DoView("P", "D", [store EXCEPT !["A"] = Fix1(tt[1], <<2, 2>>), !["B"] = Fix2(tt[2], <<2, 2>>), !["D"] = Fix2(tt[1], <<3, 3>>), !["E"] = Fix1(tt[2], <<3, 3>>)],
                                            <<0, 2, 1, 3>>, FALSE)
          \/ n = 1 /\ DoCof("Q", "E", store, 1, 0, FALSE)
          \/ n = 2 /\ \/ \E x \in {"A", "P"}, y \in {"B", "Q"}, f \in {"+", "-"}, side \in BOOLEAN :
                           LET m == TVal(store, IF side THEN x ELSE y)  o == TVal(store, IF side THEN y ELSE x)  xx == IF side THEN x ELSE y  yy == IF side THEN y ELSE x
                               t == CommonT(m.t, o.t)  IN
                           \/ Do([op |-> "mbin", f |-> f, a |-> xx, b |-> yy, d |-> ""], store, EffM(store, "", t, ZipF(f, t, m, o)))
                           \/ Convertible(o.t, m.t) /\ Do([op |-> "minp", f |-> f, a |-> xx, b |-> yy], store, Ret(Write(store, xx, ZipF(f, t, m, o)), None))
                      \/ \E x \in {"A", "P", "Q"}, f \in {"+", "-"} : LET m == TVal(store, x) IN
                           \/ Do([op |-> "mbin", f |-> f, a |-> x, b |-> x, d |-> "A"], store, EffM(store, "A", m.t, ZipF(f, m.t, m, m)))
                           \/ Do([op |-> "minp", f |-> f, a |-> x, b |-> x], store, Ret(Write(store, x, ZipF(f, m.t, m, m)), None))
                      \/ \E x \in {"A", "P", "Q"}, f \in {"+", "-", "*", "/"}, u \in AllT, side \in {"r", "l"} :
                           LET m == TVal(store, x)  y == IF IsCplx(u) THEN <<1, 1, 1>> ELSE Int2Q(2)  t == CommonT(m.t, u) IN
                           \/ /\ side = "r" \/ f = "*"
                              /\ Do([op |-> "mscal", f |-> f, side |-> side, a |-> x, sc |-> Sc(u, y), own |-> -1, d |-> ""], store, EffM(store, "", t, MapF(f, t, m, y)))
                           \/ /\ side = "r" /\ Convertible(u, m.t)
                              /\ Do([op |-> "mscalinp", f |-> f, a |-> x, sc |-> Sc(u, y), own |-> -1], store, Ret(Write(store, x, MapF(f, t, m, y)), None))
                      \/ \E x \in {"A", "P", "Q"}, f \in {"+", "-", "*", "/"} :      \* with one of its own elements
                           LET m == TVal(store, x) IN
                           \E i \in {j \in 1..Len(m.e) : f = "/" => Exact(m.e[j])} :
                              \/ Do([op |-> "mscal", f |-> f, side |-> "r", a |-> x, sc |-> Sc(m.t, m.e[i]), own |-> i - 1, d |-> ""], store, EffM(store, "", m.t, MapF(f, m.t, m, m.e[i])))
                              \/ Do([op |-> "mscalinp", f |-> f, a |-> x, sc |-> Sc(m.t, m.e[i]), own |-> i - 1], store, Ret(Write(store, x, MapF(f, m.t, m, m.e[i])), None))
       /\ Log
(* Integer division: every pair. *)
RowI == [r |-> 1, c |-> 19, e |-> TLCEval([i \in 1..19 |-> Int2Q(i - 10)])]
S07i == /\ n = 0
        /\ \E y \in (-9..9) \ {0}, f \in {"+", "-", "*", "/"}, vec \in BOOLEAN, inp \in BOOLEAN :
             LET x == IF vec THEN "u" ELSE "A"  s == On(x, IF vec THEN VObj("i", RowI.e) ELSE MObj("i", RowI))  q == MapF(f, "i", RowI, Int2Q(y))
                 nm == (IF vec THEN "v" ELSE "m") \o "scal" IN
             IF inp THEN Do([op |-> nm \o "inp", f |-> f, a |-> x, sc |-> Sc("i", Int2Q(y)), own |-> -1], s, Ret(Write(s, x, q), None))
             ELSE Do([op |-> nm, f |-> f, side |-> "r", a |-> x, sc |-> Sc("i", Int2Q(y)), own |-> -1, d |-> ""], s, IF vec THEN EffV(s, "", "i", q) ELSE EffM(s, "", "i", q))
        /\ Log
S08 == /\ n = 0
       /\ \E tt \in TT, k \in 0..Upto(3, 6) :
            LET v == FixV(tt[1], k)  w == FixW(tt[2], k)  t == CommonT(tt[1], tt[2])  s == On2("u", v, "v", w) IN
            \/ \E f \in {"+", "-", "*"} : \/ Do([op |-> "vbin", f |-> f, a |-> "u", b |-> "v", d |-> ""], s, EffV(s, "", t, ZipF(f, t, v, w)))
                                          \/ Do([op |-> "vbin", f |-> f, a |-> "u", b |-> "u", d |-> "u"], s, EffV(s, "u", v.t, ZipF(f, v.t, v, v)))
            \/ \E f \in {"+", "-"} : \/ Convertible(tt[2], tt[1]) /\ Do([op |-> "vinp", f |-> f, a |-> "u", b |-> "v"], s, Ret(Write(s, "u", ZipF(f, t, v, w)), None))
                                     \/ Do([op |-> "vinp", f |-> f, a |-> "u", b |-> "u"], s, Ret(Write(s, "u", ZipF(f, v.t, v, v)), None))
            \/ \E f \in {"+", "-", "*", "/"}, side \in {"r", "l"} : LET y == IF IsCplx(tt[2]) THEN <<1, -1, 1>> ELSE Int2Q(-2) IN
                 \/ (side = "r" \/ f = "*") /\ Do([op |-> "vscal", f |-> f, side |-> side, a |-> "u", sc |-> Sc(tt[2], y), own |-> -1, d |-> ""], s, EffV(s, "", t, MapF(f, t, v, y)))
                 \/ side = "r" /\ Convertible(tt[2], tt[1]) /\ Do([op |-> "vscalinp", f |-> f, a |-> "u", sc |-> Sc(tt[2], y), own |-> -1], s, Ret(Write(s, "u", MapF(f, t, v, y)), None))
            \/ \E f \in {"+", "-", "*", "/"} : \E i \in {j \in 1..k : f = "/" => Exact(v.e[j])} :
                 \/ Do([op |-> "vscal", f |-> f, side |-> "r", a |-> "u", sc |-> Sc(v.t, v.e[i]), own |-> i - 1, d |-> ""], s, EffV(s, "", v.t, MapF(f, v.t, v, v.e[i])))
                 \/ Do([op |-> "vscalinp", f |-> f, a |-> "u", sc |-> Sc(v.t, v.e[i]), own |-> i - 1], s, Ret(Write(s, "u", MapF(f, v.t, v, v.e[i])), None))
       /\ Log
S29 == /\ n = 0
       /\ \E tt \in {p \in TT : IsCplx(p[1]) \/ IsCplx(p[2])}, f \in {"+", "-", "*", "/"} :
          LET G(t) == IF IsCplx(t) THEN {Zero, One, ImU, <<-1, 2, 1>>, <<1, 0, 2>>, <<3, -1, 2>>} \cup (IF Deep THEN {<<a, b, 2>> : a \in -3..3, b \in {-3, -1, 1, 3}} ELSE {})
                      ELSE IF t = "i" THEN Ints((-3)..3) ELSE {Zero, One, Q(-1, 0, 2), Int2Q(-3), Q(5, 0, 4)} IN
          \E x \in G(tt[1]), y \in G(tt[2]) :
            /\ f = "/" => y # Zero
            /\ LET t == CommonT(tt[1], tt[2]) IN Do([op |-> "sbin", f |-> f, x |-> Sc(tt[1], x), y |-> Sc(tt[2], y)], store, Ret(store, RSca(t, Apply(f, t, x, y))))
       /\ Log

(* C10 *)
Tri == Ints({-1, 0, 1})
S10 == /\ n = 0
       /\ \/ \E x \in Seqs(4, Tri), y \in Seqs(4, Tri) :
               LET t == IF x[1] = Zero THEN "i" ELSE "d"  a == MOf(t, 2, 2, x)  b == MOf(t, 2, 2, y)  s == On2("A", a, "B", b) IN
               IF y[4] = Zero THEN Do([op |-> "mulinp", a |-> "A", b |-> "B"], s, Ret(Write(s, "A", MulM(a, b)), None))
               ELSE \E d \in {IF y[3] = Zero THEN "A" ELSE IF y[3] = One THEN "B" ELSE "C"} : Do([op |-> "mul", a |-> "A", b |-> "B", d |-> d], s, EffM(s, d, t, MulM(a, b)))
          \/ \E x \in Seqs(4, Tri), t \in {"i", "f"} : LET a == MOf(t, 2, 2, x)  s == On("A", a) IN
               \/ Do([op |-> "mulinp", a |-> "A", b |-> "A"], s, Ret(Write(s, "A", MulM(a, a)), None))
               \/ Do([op |-> "mul", a |-> "A", b |-> "A", d |-> "A"], s, EffM(s, "A", t, MulM(a, a)))
               \/ \E k \in 0..Upto(5, 7) : Do([op |-> "powm", a |-> "A", p |-> k, d |-> ""], s, EffM(s, "", t, PowM(a, k)))
          \/ \E x \in Seqs(4, {Zero, One, ImU, <<1, -1, 1>>}) : LET a == MOf("z", 2, 2, x)  s == On("A", a) IN
               \/ \E k \in 2..4 : Do([op |-> "powm", a |-> "A", p |-> k, d |-> ""], s, EffM(s, "", "z", PowM(a, k)))
               \/ Do([op |-> "mulinp", a |-> "A", b |-> "A"], s, Ret(Write(s, "A", MulM(a, a)), None))
          \/ \E p \in Grid(0, 4), k \in 0..4, tt \in TT : LET a == Fix1(tt[1], p)  b == Fix2(tt[2], <<p[2], k>>)  s == On2("A", a, "B", b)  t == CommonT(tt[1], tt[2]) IN
               Do([op |-> "mul", a |-> "A", b |-> "B", d |-> ""], s, EffM(s, "", t, MulM(a, b)))
          \/ \E p \in Grid(0, Upto(4, 6)), tt \in TT, via \in {"op", "dot"} : LET a == Fix1(tt[1], p)  v == FixW(tt[2], p[2])  s == On2("A", a, "u", v)  t == CommonT(tt[1], tt[2]) IN
               Do([op |-> "mulv", via |-> via, a |-> "A", b |-> "u", d |-> ""], s, EffV(s, "", t, [r |-> 1, c |-> p[1], e |-> MulM(a, ColM(v.e)).e]))
          \/ \E k \in 0..Upto(6, 12), tt \in TT : LET v == FixV(tt[1], k)  w == FixW(tt[2], k)  s == On2("u", v, "v", w)  t == CommonT(tt[1], tt[2]) IN
               Do([op |-> "dot", a |-> "u", b |-> "v"], s, Ret(s, RSca(t, SumQ([i \in 1..k |-> Mul(v.e[i], w.e[i])], k))))
          \/ \E p \in Grid(0, Upto(4, 6)), t \in AllT, via \in {"transpose", "hermitian", "conjugate"} :
               LET a == Fix1(t, p)  s == On("A", a)  q == IF via = "transpose" THEN TransposeM(a) ELSE ConjM(TransposeM(a)) IN
               (via = "transpose" \/ IsCplx(t)) /\ Do([op |-> "transpose", via |-> via, a |-> "A", d |-> ""], s, EffM(s, "", t, q))
       /\ Log
(* Products in place of views on one matrix: A(w) *= A(w). *)
S10v == /\ \/ n = 0 /\ \E p \in {<<3, 3>>, <<2, 4>>} : \E w \in Windows(p[1], p[2]) : DoView("P", "A", On("A", Fix1("i", p)), w, FALSE)
           \/ n = 1 /\ LET m == TVal(store, "P")  b == Fix2("i", <<m.c, m.c>>)  s == On("B", b) IN
                       \/ m.r = m.c /\ Do([op |-> "mulinp", a |-> "P", b |-> "P"], store, Ret(Write(store, "P", MulM(m, m)), None))
                       \/ Do([op |-> "mulinp", a |-> "P", b |-> "B"], s, Ret(Write(s, "P", MulM(m, b)), None))
                       \/ Do([op |-> "mul", a |-> "P", b |-> "B", d |-> ""], s, EffM(s, "", "i", MulM(m, b)))
        /\ Log

(* C11: values around each other, every tolerance, every pair of types. *)
Vals11(t) == IF t = "i" THEN Ints({-16, -9, -8, -7, -4, -3, -1, 0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17})
             ELSE IF IsCplx(t) THEN {Zero, One, ImU, <<1, 1, 1>>, <<4, 1, 4>>, <<8, 1, 8>>, <<-4, 3, 1>>, <<-4, 4, 1>>, <<0, 9, 8>>, <<-1, 0, 1>>, <<9, 0, 8>>, <<5, -5, 4>>, <<16, 17, 16>>}
             ELSE {Zero, One, Neg(One), Q(3, 0, 4), Q(7, 0, 8), Q(9, 0, 8), Q(5, 0, 4), Q(15, 0, 16), Q(17, 0, 16), Q(1023, 0, 1024), Q(1025, 0, 1024), Int2Q(16), Int2Q(17), Int2Q(-4), Q(-33, 0, 8), Q(1, 0, 1024), Int2Q(4), Int2Q(5)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RowOf11(t) == SeqOf(Vals11(t))
RowI11 == RowOf11("i")
RowD11 == RowOf11("d")
RowZ11 == RowOf11("z")
Row11(t) == IF t = "i" THEN RowI11 ELSE IF IsCplx(t) THEN RowZ11 ELSE RowD11
S11x(TU) ==
       /\ \/ n = 0 /\ \E tt \in Tols, tu \in TU : Do([op |-> "settol" \o tu, q |-> tt], store, [ok |-> TRUE, s |-> store, res |-> None, tol |-> tt])
          \/ /\ n = 1
             /\ \E t \in AllT, u \in AllT, vec \in BOOLEAN, f \in Rels :
                 /\ t \in FirstTypes(f) /\ u \in CmpTypes(f, t) /\ (vec => f \in {"==", "!="})
                 /\ \E y \in Vals11(u) :
                      LET row == TLCEval(SelectSeq(Row11(t), LAMBDA x : ~Edge(t, u, x, y, tol)))
                          x == IF vec THEN "u" ELSE "A"
                          s == On(x, IF vec THEN VObj(t, row) ELSE MObj(t, RowM(row)))
                          res == TLCEval([i \in 1..Len(row) |-> Rel(f, t, u, row[i], y, tol)])
                      IN  \/ hist[1].op = "settol1" /\ Do([op |-> IF vec THEN "cmpvs" ELSE "cmpms", f |-> f, red |-> "", a |-> x, sc |-> Sc(u, y)], s, Ret(s, CmpRes("", IF vec THEN "V" ELSE "M", 1, Len(row), res)))
                          \/ hist[1].op = "settol2" /\ (vec \/ Deep) /\ LET o == [i \in 1..Len(row) |-> y]  z == IF vec THEN "v" ELSE "B"  s2 == [s EXCEPT ![z] = IF vec THEN VObj(u, o) ELSE MObj(u, RowM(o))] IN
                             Do([op |-> IF vec THEN "cmpvv" ELSE "cmpmm", f |-> f, red |-> "", a |-> x, b |-> z], s2, Ret(s2, CmpRes("", IF vec THEN "V" ELSE "M", 1, Len(row), res)))
       /\ Log
S11a == S11x({"1"})
S11b == S11x({"2"})
(* Every pattern of equal and different elements, reduced or not. *)
S11r == /\ n = 0
        /\ \E sh \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<0, 0>>} : \E x \in Seqs(sh[1] * sh[2], Ints({0, 1})), y \in Seqs(sh[1] * sh[2], Ints({0, 1})) :
             LET k == sh[1] * sh[2]  a == MOf("d", sh[1], sh[2], x)  b == MOf("d", sh[1], sh[2], y)  s == On2("A", a, "B", b)
                 v == VOf("d", k, x)  w == VOf("d", k, y)  sv == On2("u", v, "v", w) IN
             \/ \E f \in Rels, red \in {"", "all", "any"} :
                  Do([op |-> "cmpmm", f |-> f, red |-> red, a |-> "A", b |-> "B"], s, Ret(s, CmpRes(red, "M", sh[1], sh[2], [i \in 1..k |-> Rel(f, "d", "d", a.e[i], b.e[i], tol)])))
             \/ \E f \in {"==", "!="}, red \in {"", "all", "any"} :
                  Do([op |-> "cmpvv", f |-> f, red |-> red, a |-> "u", b |-> "v"], sv, Ret(sv, CmpRes(red, "V", 1, k, [i \in 1..k |-> Rel(f, "d", "d", v.e[i], w.e[i], tol)])))
             \/ Do([op |-> "compare", a |-> "A", b |-> "B"], s, Ret(s, RNat(FirstDiff(a, b))))
             \/ Do([op |-> "compare", a |-> "u", b |-> "v"], sv, Ret(sv, RNat(FirstDiff(v, w))))
             \/ Do([op |-> "allclose", a |-> "A", b |-> "B", q |-> 4], s, Ret(s, RBool(\A i \in 1..k : CloseEl(FALSE, a.e[i], b.e[i], <<1, 4>>))))
             \/ Do([op |-> "allclose", a |-> "u", b |-> "v", q |-> 4], sv, Ret(sv, RBool(\A i \in 1..k : CloseEl(FALSE, v.e[i], w.e[i], <<1, 4>>))))
             \/ \E g \in {"all", "any"}, z \in {"A", "u"} : LET ss == IF z = "A" THEN s ELSE sv IN
                  Do([op |-> "allany", f |-> g, a |-> z], ss, Ret(ss, RBool(IF g = "all" THEN \A i \in 1..k : a.e[i] # Zero ELSE \E i \in 1..k : a.e[i] # Zero)))
        /\ Log

-----------------------------------------------------------------------------
(* C12 *)
S12 == /\ n = 0
       /\ \/ \E p \in Grid(1, 3), f \in {"row", "col"}, t \in {"i"} \cup (IF Deep THEN {"z"} ELSE {}) :
               LET a == Fix1(t, p)  s == On("A", a)  k == IF f = "row" THEN p[1] ELSE p[2]  l == IF f = "row" THEN p[2] ELSE p[1] IN
               \E i \in 0..(k - 1), j \in 0..(k - 1), lo \in 0..(l + 1), hi \in (0..(l + 1)) \cup {All} :
                  Do([op |-> "swaplines", f |-> f, a |-> "A", i |-> i, j |-> j, lo |-> lo, hi |-> hi], s,
                     Ret(Write(s, "A", IF f = "row" THEN SwapRows(a, i, j, lo, Min2(hi, p[2])) ELSE SwapCols(a, i, j, lo, Min2(hi, p[1]))), None))
          \/ \E k \in 0..5, l \in 0..5, tt \in TT : LET v == FixV(tt[1], k)  w == FixW(tt[2], l)  s == On2("u", v, "v", w) IN
               Do([op |-> "concat", a |-> "u", b |-> "v", d |-> ""], s, EffV(s, "", CommonT(tt[1], tt[2]), [r |-> 1, c |-> k + l, e |-> v.e \o w.e]))
          \/ \E k \in 0..5, t \in AllT : LET v == FixV(t, k)  s == On("u", v) IN
               Do([op |-> "concat", a |-> "u", b |-> "u", d |-> "u"], s, EffV(s, "u", t, [r |-> 1, c |-> 2 * k, e |-> v.e \o v.e]))
          \/ \E p \in Grid(0, 3), k \in 0..3, tt \in TT :
               LET a == Fix1(tt[1], p)  t == CommonT(tt[1], tt[2]) IN
               \/ LET b == Fix2(tt[2], <<k, p[2]>>)  s == On2("A", a, "B", b) IN Do([op |-> "stack", f |-> "v", a |-> "A", b |-> "B", d |-> ""], s, EffM(s, "", t, VStack(a, b)))
               \/ LET b == Fix2(tt[2], <<p[1], k>>)  s == On2("A", a, "B", b) IN Do([op |-> "stack", f |-> "h", a |-> "A", b |-> "B", d |-> ""], s, EffM(s, "", t, HStack(a, b)))
               \/ k = 0 /\ LET v == FixW(tt[2], p[2])  s == On2("A", a, "u", v) IN Do([op |-> "stackv", f |-> "v", a |-> "A", b |-> "u", d |-> ""], s, EffM(s, "", t, VStack(a, RowM(v.e))))
               \/ k = 0 /\ LET v == FixW(tt[2], p[1])  s == On2("A", a, "u", v) IN Do([op |-> "stackv", f |-> "h", a |-> "A", b |-> "u", d |-> ""], s, EffM(s, "", t, HStack(a, ColM(v.e))))
          \/ \E p \in Grid(1, 3), t \in AllT, f \in {"v", "h"} : LET a == Fix1(t, p)  s == On("A", a) IN
               Do([op |-> "stack", f |-> f, a |-> "A", b |-> "A", d |-> "A"], s, EffM(s, "A", t, IF f = "v" THEN VStack(a, a) ELSE HStack(a, a)))
       /\ Log
(* On views. *)
S12v == /\ \/ n = 0 /\ \E w \in Windows(3, 3) : DoView("P", "A", On("A", Fix1("d", <<3, 3>>)), w, FALSE)
           \/ n = 1 /\ LET m == TVal(store, "P") IN
                  \/ \E f \in {"row", "col"} : LET k == IF f = "row" THEN m.r ELSE m.c IN
                     \E i \in 0..(k - 1), j \in 0..(k - 1), lo \in 0..1 : i < j /\
                        Do([op |-> "swaplines", f |-> f, a |-> "P", i |-> i, j |-> j, lo |-> lo, hi |-> All], store,
                           Ret(Write(store, "P", IF f = "row" THEN SwapRows(m, i, j, lo, m.c) ELSE SwapCols(m, i, j, lo, m.r)), None))
                  \/ \E f \in {"v", "h"} : Do([op |-> "stack", f |-> f, a |-> "P", b |-> "P", d |-> ""], store, EffM(store, "", "d", IF f = "v" THEN VStack(m, m) ELSE HStack(m, m)))
                  \/ \E w \in Windows(m.r, m.c) : Do([op |-> "extract", a |-> "P", r0 |-> w[1], r1 |-> w[2], c0 |-> w[3], c1 |-> w[4], d |-> ""], store, EffM(store, "", "d", SubMat(m, w[1], w[2], w[3], w[4])))
        /\ Log

(* C13 *)
S13 == /\ n = 0
       /\ \/ \E t \in {"i", "f", "d"}, num \in 0..Upto(8, 17) : \E x \in (IF t = "i" THEN Ints(-3..4) ELSE Ints({-2, 0, 3}) \cup {Q(1, 0, 2)}), y \in (IF t = "i" THEN Ints(-3..9) ELSE Ints({-2, 0, 1, 5}) \cup {Q(-5, 0, 4)}) :
               /\ t = "i" /\ num >= 2 => (y[1] - x[1]) % (num - 1) = 0
               /\ LET e == TLCEval([i \in 1..num |-> LinVal(x, y, num, i)]) IN
                  \/ Do([op |-> "space", f |-> "lin", t |-> t, x |-> x, y |-> y, num |-> num, base |-> 10, d |-> ""], store, EffV(store, "", t, [r |-> 1, c |-> num, e |-> e]))
                  \/ \E base \in {2, 3, 10} : t # "i" /\ Do([op |-> "space", f |-> "log", t |-> t, x |-> x, y |-> y, num |-> num, base |-> base, d |-> ""], store,
                                                            EffV(store, "", t, [r |-> 1, c |-> num, e |-> [i \in 1..num |-> <<"pow", Int2Q(base), e[i]>>]]))
          \/ \E p \in Grid(0, 4), t \in AllT, f \in {"diag", "ravel", "tovector"} : LET a == Fix1(t, p)  s == On("A", a)  e == IF f = "diag" THEN DiagV(a) ELSE a.e IN
               Do([op |-> "mtov", f |-> f, a |-> "A", d |-> ""], s, EffV(s, "", t, [r |-> 1, c |-> Len(e), e |-> e]))
          \/ \E k \in 0..5, t \in AllT, f \in {"diag", "row", "col"} : LET v == FixV(t, k)  s == On("u", v)
                    q == IF f = "diag" THEN (LET F(i, j) == IF i = j THEN v.e[i + 1] ELSE Zero IN Mk(k, k, F)) ELSE IF f = "row" THEN RowM(v.e) ELSE ColM(v.e) IN
               Do([op |-> "vtom", f |-> f, a |-> "u", d |-> ""], s, EffM(s, "", t, q))
          \/ \E f \in {"identity", "identityv", "eye", "zeros", "ones", "zerosv", "onesv"}, t \in AllT, p \in Grid(0, 4) :
               LET r == p[1]  c == p[2]  v == IF IsCplx(t) THEN <<2, -1, 1>> ELSE Int2Q(2)
                   bad == r = 0 \/ (f \in {"eye", "zeros", "ones"} /\ c = 0)
                   q == CASE f = "identity" -> EyeRC(r, r, One) [] f = "identityv" -> EyeRC(r, r, v) [] f = "eye" -> EyeRC(r, c, v)
                          [] f = "zeros" -> ZeroM(r, c) [] f = "ones" -> ConstM(r, c, One)
                          [] f = "zerosv" -> ZeroM(1, r) [] f = "onesv" -> ConstM(1, r, One)
               IN  Do([op |-> "gen", f |-> f, t |-> t, r |-> r, c |-> c, v |-> v, d |-> ""], store,
                      IF bad THEN Thr(store) ELSE IF f \in {"zerosv", "onesv"} THEN EffV(store, "", t, q) ELSE EffM(store, "", t, q))
       /\ Log

(* C14 *)
FindRes(m, k, first) ==
    LET idx == NonZeros(m)
        sel == IF k >= Len(idx) THEN idx ELSE IF first THEN SubSeq(idx, 1, k) ELSE SubSeq(idx, Len(idx) - k + 1, Len(idx))
        v == NatV(sel)
    IN  IF k = 0 THEN [k |-> "M", t |-> "u", r |-> 0, c |-> 0, e |-> <<>>]
        ELSE IF m.r = 1 THEN [v EXCEPT !.k = "M"] ELSE [v EXCEPT !.k = "M", !.r = Len(sel), !.c = 1]
S14 == /\ n = 0
       /\ \/ \E p \in Grid(1, Upto(2, 3)) \cup {<<1, 3>>, <<1, 4>>, <<3, 1>>, <<2, 3>>, <<0, 2>>, <<0, 0>>} : \E q \in Seqs(p[1] * p[2], {Zero, Neg(One)}) :
               LET a == MOf("d", p[1], p[2], q)  s == On("A", a) IN
               \/ Do([op |-> "flatnonzero", a |-> "A"], s, Ret(s, NatV(NonZeros(a))))
               \/ \E k \in (0..(Len(NonZeros(a)) + 1)) \cup {All}, first \in BOOLEAN : Do([op |-> "find", a |-> "A", k |-> k, first |-> first], s, Ret(s, FindRes(a, k, first)))
          \/ \E k \in 0..Upto(4, 6) : \E q \in Seqs(k, Tri), f \in {"min", "max"}, t \in {"i", "d"} : LET v == VOf(t, k, q)  s == On("u", v) IN
               Do([op |-> "minmaxv", f |-> f, a |-> "u"], s, Ret(s, RList(IF k = 0 THEN <<RSca(t, Zero), RNat(0)>> ELSE LET b == Best(f, v.e) IN <<RSca(t, v.e[b]), RNat(b - 1)>>)))
          \/ \E p \in Grid(0, 2) \cup {<<3, 1>>, <<1, 3>>} \cup (IF Deep THEN {<<2, 3>>, <<3, 2>>} ELSE {}) : \E q \in Seqs(p[1] * p[2], Tri), f \in {"min", "max"}, t \in {"i", "f"} : LET a == MOf(t, p[1], p[2], q)  s == On("A", a) IN
               Do([op |-> "minmaxm", f |-> f, a |-> "A", d |-> ""], s,
                  EffV(s, "", t, [r |-> 1, c |-> IF Size(a) = 0 THEN 0 ELSE a.c,
                                  e |-> IF Size(a) = 0 THEN <<>> ELSE TLCEval([j \in 1..a.c |-> LET col == SubMat(a, 0, a.r, j - 1, j).e IN col[Best(f, col)]])]))
          \/ \E k \in 0..5, t \in AllT : LET v == FixV(t, k)  s == On("u", v) IN
               \/ Do([op |-> "sum", a |-> "u"], s, Ret(s, RSca(t, SumQ(v.e, k))))
               \/ \E lo \in 0..k : \E hi \in lo..k, z \in {Zero, Int2Q(3)} : Do([op |-> "accumulate", a |-> "u", lo |-> lo, hi |-> hi, v |-> z], s, Ret(s, RSca(t, Add(z, SumQ([i \in 1..(hi - lo) |-> v.e[lo + i]], hi - lo)))))
               \/ \E lo \in 0..k : \E hi \in lo..k : \E lo2 \in 0..(k - (hi - lo)) : LET w == FixW(t, k)  s2 == [s EXCEPT !["v"] = w] IN
                    Do([op |-> "inner", a |-> "u", b |-> "v", lo |-> lo, hi |-> hi, lo2 |-> lo2, v |-> One], s2, Ret(s2, RSca(t, Add(One, SumQ([i \in 1..(hi - lo) |-> Mul(v.e[lo + i], w.e[lo2 + i])], hi - lo)))))
          \/ \E p \in Grid(0, 4), t \in AllT : LET a == Fix2(t, p)  s == On("A", a) IN Do([op |-> "trace", a |-> "A"], s, Ret(s, RSca(t, TraceQ(a))))
          \/ \E t \in {"i", "u", "d"}, k \in 0..12 : Do([op |-> "misc", f |-> "factorial", t |-> t, k |-> k], store, Ret(store, RSca(t, Int2Q(Fact(k)))))
       /\ Log

(* C15 *)
S15 == /\ n = 0
       /\ \/ \E p \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<0, 0>>, <<1, 3>>, <<3, 1>>}, t \in {"i", "d", "z"} :
             \E q \in Seqs(p[1] * p[2], IF t = "z" THEN {Zero, <<3, 4, 1>>, <<-1, 1, 1>>} ELSE Ints({-2, 0, 1})), f \in {"square", "infinity", "sub"} :
               LET a == MOf(t, p[1], p[2], q)  s == On("A", a)  below == Below(a) IN
               /\ f = "sub" => t # "i"
               /\ Do([op |-> "norm", f |-> f, a |-> "A"], s,
                     IF f = "square" THEN Ret(s, RSca(FltT(t), SqrtSym(SumSq(a.e))))
                     ELSE IF f = "infinity" THEN Ret(s, RSca(BaseOf(t), IF Size(a) = 0 THEN Zero ELSE <<"max">> \o [i \in 1..a.r |-> AbsSum(RowOf(a, i - 1))]))
                     ELSE IF Size(a) = 0 THEN Ret(s, RSca(BaseOf(t), Zero)) ELSE IF p[1] # p[2] THEN Thr(s)
                     ELSE Ret(s, RSca(BaseOf(t), SqrtSym(SumSq([i \in 1..Len(below) |-> a.e[below[i]]])))))
          \/ \E k \in 0..Upto(4, 6) : \E q \in Seqs(k, Ints({-2, 0, 1})), f \in {"square", "infinity"} : LET v == VOf("d", k, q)  s == On("u", v) IN
               Do([op |-> "norm", f |-> f, a |-> "u"], s, Ret(s, IF f = "square" THEN RSca("d", SqrtSym(SumSq(v.e))) ELSE RSca("d", IF k = 0 THEN Zero ELSE <<"max">> \o [i \in 1..k |-> AbsSym(v.e[i])])))
          \/ \E p \in Grid(1, 4), t \in AllT : \E j \in 0..(p[2] - 1), lo \in 0..p[1] : \E hi \in (lo..(p[1] + 1)) \cup {All} : LET a == Fix2(t, p)  s == On("A", a) IN
               Do([op |-> "collen", a |-> "A", i |-> j, lo |-> lo, hi |-> hi], s, Ret(s, RSca(FltT(t), SqrtSym(IF Min2(hi, a.r) <= lo THEN Zero ELSE SumSq(SubMat(a, lo, Min2(hi, a.r), j, j + 1).e)))))
          \/ \E x \in {Q(a, 0, d) : a \in (0..9) \cup {15, 16, 17, 31, 32, 33, 63}, d \in {1, 2, 4, 8}}, p \in Grid(1, 2), t \in {"f", "d", "z"} :
               LET F(i, j) == IF (i + j) % 2 = 0 THEN x ELSE Neg(Mul(x, Q(1, 0, 2)))
                   a == MObj(t, Mk(p[1], p[2], F))  s == On("A", a)
                   rs == [i \in 1..p[1] |-> LET e == RowOf(a, i - 1) IN SumQ([j \in 1..p[2] |-> AbsR(e[j])], p[2])]
                   k == Halvings(rs[Best("max", rs)], 0) IN
               Do([op |-> "log2ceil", a |-> "A"], s, Ret(s, RList(<<RNat(k), RSca(BaseOf(t), Q(1, 0, Pow2(k)))>>)))
          \* rows whose sums differ
          \/ \E p \in {<<2, 2>>, <<3, 2>>, <<2, 3>>} : \E q \in Seqs(p[1] * p[2], Ints({0, 3} \cup (IF Deep THEN {-2} ELSE {}))) : LET a == MOf("d", p[1], p[2], q)  s == On("A", a) IN
               Do([op |-> "norm", f |-> "infinity", a |-> "A"], s, Ret(s, RSca("d", <<"max">> \o [i \in 1..a.r |-> AbsSum(RowOf(a, i - 1))])))
       /\ Log

(* C16 *)
S16 == /\ n = 0
       /\ \E f \in Preds :
            \/ \E p \in {<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>} \cup (IF Deep THEN {<<2, 3>>, <<3, 2>>} ELSE {}), t \in {"i", "f"} : \E q \in Seqs(p[1] * p[2], Tri) :
                 LET a == MOf(t, p[1], p[2], q)  s == On("A", a) IN Do([op |-> "pred", f |-> f, a |-> "A"], s, Ret(s, RBool(Holds(f, a))))
            \/ \E q \in Seqs(9, IF Deep THEN Tri ELSE {Zero, One}) : LET a == MOf("d", 3, 3, q)  s == On("A", a) IN Do([op |-> "pred", f |-> f, a |-> "A"], s, Ret(s, RBool(Holds(f, a))))
            \/ \E q \in Seqs(4, {Zero, One, ImU, Neg(ImU)}) : LET a == MOf("z", 2, 2, q)  s == On("A", a) IN Do([op |-> "pred", f |-> f, a |-> "A"], s, Ret(s, RBool(Holds(f, a))))
            \/ \E p \in Grid(1, 5) : \E g \in {"symmetric", "skew", "diagonal", "zero", "constant", "identity", "lower", "upper"} : \E i \in 0..(p[1] * p[2]) :      \* spoiled at i
                 LET full(x, y) == Int2Q(5 * Min2(x, y) + Max2(x, y) + 1)
                     G(x, y) == CASE g = "symmetric" -> full(x, y) [] g = "skew" -> (IF x = y THEN Zero ELSE IF x < y THEN full(x, y) ELSE Neg(full(x, y)))
                                  [] g = "diagonal" -> (IF x = y THEN full(x, y) ELSE Zero) [] g = "zero" -> Zero [] g = "constant" -> Int2Q(3)
                                  [] g = "identity" -> (IF x = y THEN One ELSE Zero) [] g = "lower" -> (IF y <= x THEN full(x, y) ELSE Zero) [] OTHER -> (IF y >= x THEN full(x, y) ELSE Zero)
                     m == Mk(p[1], p[2], G)
                     a == MObj("d", IF i = 0 THEN m ELSE [m EXCEPT !.e[i] = Add(@, Int2Q(2))])  s == On("A", a)
                 IN  (f \in {g, "square"} \/ Deep) /\ Do([op |-> "pred", f |-> f, a |-> "A"], s, Ret(s, RBool(Holds(f, a))))
       /\ Log

-----------------------------------------------------------------------------
(* C17 - C20: every small matrix. *)
Perms(k) == {f \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => f[i] # f[j]}
(* A full matrix with its rows in every order. *)
Full5(i, j) == IF j < i THEN Zero ELSE IF i = j THEN Int2Q(1 + (i % 2)) ELSE Int2Q(((3 * i + 2 * j) % 5) - 2)
PermM(t, k, f) == LET F(i, j) == Full5(f[i + 1] - 1, j) IN MObj(t, Mk(k, k, F))
DetRec(s, x) == LET m == TVal(s, x) IN Do([op |-> "det", a |-> x, prec |-> DetPrec(m.t, m)], s, Ret(s, RSca(m.t, Det(m))))
S17 == /\ n = 0
       /\ \/ \E q \in Seqs(4, Ints(-2..2)), t \in {"i", "d"} : LET s == On("A", MOf(t, 2, 2, q)) IN DetRec(s, "A")
          \/ \E q \in Seqs(4, {Zero, One, ImU, <<1, -1, 1>>}), t \in {"c", "z"} : LET s == On("A", MOf(t, 2, 2, q)) IN DetRec(s, "A")
          \/ \E q \in Seqs(9, IF Deep THEN Tri ELSE {Zero, One}) : LET s == On("A", MOf(IF q[5] = Zero THEN "i" ELSE IF q[1] = Zero THEN "f" ELSE "z", 3, 3, q)) IN DetRec(s, "A")
          \/ \E k \in 3..6 : \E f \in Perms(k) : LET s == On("A", PermM("d", k, f)) IN DetRec(s, "A")
          \/ \E f \in Perms(4), g \in Seqs(4, Ints({-1, 2})) : LET F(i, j) == IF f[i + 1] = j + 1 THEN g[i + 1] ELSE Zero  s == On("A", MObj("i", Mk(4, 4, F))) IN DetRec(s, "A")
          \/ \E f \in Perms(5), g \in Seqs(2, Ints({-1, 3})) : LET F(i, j) == IF f[i + 1] = j + 1 THEN g[1 + (i % 2)] ELSE Zero  s == On("A", MObj("z", Mk(5, 5, F))) IN DetRec(s, "A")
          \/ Deep /\ \E q \in Seqs(16, {Zero, One}) : LET s == On("A", MOf(IF q[1] = Zero THEN "i" ELSE "d", 4, 4, q)) IN DetRec(s, "A")
       /\ Log
InvRec(s, x) ==
    LET m == TVal(s, x)  dt == Det(m)  q == IF dt = Zero THEN EmptyM ELSE InvOf(m, dt) IN
    Do([op |-> "inv", a |-> x, d |-> "", prec |-> InvPrec(m.t, m)], s, EffM(s, "", CommonT(m.t, "d"), q))
AdjRec(s, x) == LET m == TVal(s, x) IN Do([op |-> "adj", a |-> x, d |-> "", prec |-> DetPrec(m.t, [r |-> m.r - 1])], s, EffM(s, "", m.t, AdjM(m)))
S18 == /\ n = 0
       /\ \/ \E q \in Seqs(4, Ints(-2..2)), t \in {"i", "d"} : LET s == On("A", MOf(t, 2, 2, q)) IN InvRec(s, "A") \/ AdjRec(s, "A")
          \/ \E q \in Seqs(4, {Zero, One, ImU, <<1, -1, 1>>}), t \in {"c", "z"} : LET s == On("A", MOf(t, 2, 2, q)) IN InvRec(s, "A") \/ AdjRec(s, "A")
          \/ \E q \in Seqs(9, IF Deep THEN Tri ELSE {Zero, One}) : LET s == On("A", MOf(IF q[5] = Zero THEN "i" ELSE "d", 3, 3, q)) IN InvRec(s, "A") \/ AdjRec(s, "A")
          \/ \E k \in 3..5 : \E f \in Perms(k) : LET s == On("A", PermM("d", k, f)) IN InvRec(s, "A") \/ ((k < 5 \/ Deep) /\ AdjRec(s, "A"))
          \/ Deep /\ \E f \in Perms(6) : LET s == On("A", PermM("d", 6, f)) IN InvRec(s, "A")
          \/ \E f \in Perms(4) : LET s == On("A", PermM("i", 4, f)) IN InvRec(s, "A") \/ AdjRec(s, "A")
          \/ \E p \in Grid(1, 4), t \in AllT : \E i \in 0..(p[1] - 1), j \in 0..(p[2] - 1) : LET a == Fix1(t, p)  s == On("A", a) IN
               Do([op |-> "cof", a |-> "A", p |-> i, q |-> j, d |-> ""], s, EffM(s, "", t, Minor(a, i, j)))
          \/ \E q \in Seqs(4, Ints(-1..2)), r \in 1..3 : LET a == Fix1("d", <<r, 2>>)  b == MOf("d", 2, 2, q)  s == On2("A", a, "B", b)  dt == Det(b)  F(x) == Div(x, dt) IN
               Do([op |-> "div", a |-> "A", b |-> "B", d |-> "", prec |-> 10], s, IF dt = Zero THEN Thr(s) ELSE EffM(s, "", "d", MapE(MulM(a, AdjM(b)), F)))
       /\ Log
LURec(s, x) == LET m == TVal(s, x)  f == Crout(m) IN
    (LeadingMinorsOk(m) = TRUE) /\ Do([op |-> "lu", a |-> x, prec |-> IF m.t \in {"f", "c"} THEN 8 ELSE 10], s, Ret(s, RList(<<RMat(m.t, f.l), RMat(m.t, f.u)>>)))
UnitLow(k, q) == LET F(i, j) == IF i = j THEN Int2Q(1 + (i % 2)) ELSE IF j < i THEN q[(i * (i - 1)) \div 2 + j + 1] ELSE Zero IN Mk(k, k, F)
UnitUpp(k, q) == LET F(i, j) == IF i = j THEN One ELSE IF j > i THEN q[(j * (j - 1)) \div 2 + i + 1] ELSE Zero IN Mk(k, k, F)
S19 == /\ n = 0
       /\ \/ \E q \in Seqs(4, Ints(-2..2)) : LET s == On("A", MOf("d", 2, 2, q)) IN LURec(s, "A")
          \/ \E q \in Seqs(4, {Zero, One, ImU, <<1, -1, 1>>}), t \in {"c", "z"} : LET s == On("A", MOf(t, 2, 2, q)) IN LURec(s, "A")
          \/ \E q \in Seqs(9, IF Deep THEN Tri ELSE {One, Int2Q(2)}) : LET s == On("A", MOf(IF q[2] = One THEN "d" ELSE "f", 3, 3, q)) IN LURec(s, "A")
          \/ \E x \in Seqs(6, {Zero, One}), y \in Seqs(6, IF Deep THEN {Zero, Int2Q(-1)} ELSE {Int2Q(-1)}) : LET s == On("A", MObj("d", MulM(UnitLow(4, x), UnitUpp(4, y)))) IN LURec(s, "A")
          \/ \E x \in Seqs(10, {Zero, One}) : LET s == On("A", MObj("z", MulM(UnitLow(5, x), UnitUpp(5, [i \in 1..10 |-> x[11 - i]])))) IN (Deep \/ (x[1] = x[4] /\ x[2] = x[7])) /\ LURec(s, "A")
       /\ Log
QrRec(s, x) == LET m == s[x] IN Do([op |-> "qr", a |-> x, prec |-> 9], s, Ret(s, QrRes(m)))
SolveRec(s, x, y) ==
    LET m == s[x]  t == TransposeM(m)  g == IF m.r = m.c THEN m ELSE IF m.r > m.c THEN MulM(t, m) ELSE MulM(m, t)
        dt == Det(g)  v == ColM(s[y].e)  adj == AdjM(g)
        z == IF m.r = m.c THEN MulM(adj, v) ELSE IF m.r > m.c THEN MulM(adj, MulM(t, v)) ELSE MulM(t, MulM(adj, v))
    IN  /\ dt # Zero \/ m.r = m.c
        /\ Do([op |-> "solve", a |-> x, b |-> y, prec |-> 8], s, IF dt = Zero THEN Thr(s) ELSE Ret(s, RVec("d", TLCEval([i \in 1..m.c |-> Div(z.e[i], dt)]))))
S20 == /\ n = 0
       /\ \/ \E p \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<1, 3>>} \cup (IF Deep THEN {<<2, 3>>, <<3, 2>>} ELSE {}), t \in {"i", "d"} : \E q \in Seqs(p[1] * p[2], Tri) : QrRec(On("A", MOf(t, p[1], p[2], q)), "A")
          \/ \E p \in {<<2, 3>>, <<3, 2>>, <<3, 3>>} \cup (IF Deep THEN {<<2, 4>>, <<4, 2>>, <<3, 4>>, <<4, 3>>} ELSE {}) : \E q \in Seqs(p[1] * p[2], {Zero, Int2Q(2)}) : QrRec(On("A", MOf("d", p[1], p[2], q)), "A")
          \/ \E k \in 1..7, l \in 1..7 : QrRec(On("A", Fix1("d", <<k, l>>)), "A")
          \/ \E q \in Seqs(4, Ints(-2..2)), b \in {<<1, 0>>, <<0, 1>>, <<2, -3>>} : SolveRec(On2("A", MOf("d", 2, 2, q), "u", VObj("d", <<Int2Q(b[1]), Int2Q(b[2])>>)), "A", "u")
          \/ \E p \in {<<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 1>>, <<1, 4>>, <<4, 1>>} : \E q \in Seqs(p[1] * p[2], IF Deep THEN Tri ELSE {Zero, One}), b \in {<<1, 2, -1, 3>>, <<0, 1, 1, -2>>} :
               SolveRec(On2("A", MOf("d", p[1], p[2], q), "u", VObj("d", [i \in 1..p[1] |-> Int2Q(b[i])])), "A", "u")
          \/ \E q \in Seqs(9, {Zero, One}) : (Deep \/ q[1] = q[9]) /\ SolveRec(On2("A", MOf("d", 3, 3, q), "u", VObj("d", <<One, Int2Q(-2), Int2Q(3)>>)), "A", "u")
       /\ Log

-----------------------------------------------------------------------------
(* C21, C22: every combination of small blocks. *)
B1(x) == [n |-> 1, kind |-> "jor", x |-> x, y |-> Zero]
B2(x) == [n |-> 2, kind |-> "jor", x |-> x, y |-> Zero]
B3(x) == [n |-> 3, kind |-> "jor", x |-> x, y |-> Zero]
BR(x, y) == [n |-> 2, kind |-> "rot", x |-> x, y |-> y]
Eig1 == Ints({0, 1, -1, 3, -2}) \cup {Q(1, 0, 2)}
Combos(k) == CASE k = 1 -> {<<B1(x)>> : x \in Eig1 \cup Ints({-5, 7}) \cup {Q(-9, 0, 4)}}
               [] k = 2 -> {<<B1(x), B1(y)>> : x \in Eig1, y \in Eig1} \cup {<<B2(x)>> : x \in Eig1} \cup {<<BR(x, y)>> : x \in Ints({0, -1}), y \in Ints({1, -2, 3})}
               [] k = 3 -> {<<B1(x), B1(y), B1(z)>> : x \in Ints({0, 1}), y \in Ints({-1, 0}), z \in Ints({2, 0})} \cup {<<B3(x)>> : x \in Ints({0, -1, 1})} \cup {<<B1(x), B2(y)>> : x \in Ints({0, 1}), y \in Ints({0, -2})}
                           \cup {<<BR(Zero, One), B1(x)>> : x \in Ints({0, -1, 2})} \cup {<<B2(x), B1(x)>> : x \in Ints({0, 1})}
               [] OTHER -> {<<B2(Zero), B2(One)>>, <<BR(Zero, One), BR(Int2Q(-1), Int2Q(2))>>, <<B3(Zero), B1(Zero)>>, <<B1(One), B3(Int2Q(-1))>>, <<B2(Zero), BR(Zero, One)>>}
Low(k, a) == LET F(i, j) == IF i = j THEN One ELSE IF j < i THEN a ELSE Zero IN Mk(k, k, F)
Upp(k, a) == LET F(i, j) == IF i = j THEN One ELSE IF j = i + 1 THEN a ELSE Zero IN Mk(k, k, F)
Known(V) == UNION {UNION {{WithBasis(bs, k, MulM(Low(k, a), Upp(k, b))) : a \in V, b \in V} : bs \in Combos(k)} : k \in 1..4}
S21 == /\ n = 0
       /\ \/ \E w \in Known(Ints(IF Deep THEN {-1, 0, 1, 2} ELSE {0, 1})), t \in {"d", "z"}, acc \in {6, 12} :
               LET k == w.m.r  s == On("A", MObj(t, w.m)) IN
               /\ (Deep \/ acc = IF t = "d" THEN 12 ELSE 6) /\ Within(w.m.e, 30, 8)
               /\ Do([op |-> "expm", a |-> "A", acc |-> acc, prec |-> acc - 3], s, Ret(s, RMat(t, ExpJ(w.bs, k, w.p, w.pi, One))))
          \/ \E p \in Grid(0, 3), t \in AllT : LET a == Fix2(t, p)  s == On("A", a) IN
               Do([op |-> "expe", a |-> "A", prec |-> 12], s, Ret(s, RMat(t, [r |-> p[1], c |-> p[2], e |-> [i \in 1..Len(a.e) |-> IF t = "i" THEN <<"trunc", <<"exp", a.e[i]>>>> ELSE <<"exp", a.e[i]>>]])))
       /\ Log
S22 == /\ n = 0
       /\ \E w \in Known(Ints(IF Deep THEN {-1, 0, 1} ELSE {1})), t \in {"d", "z"}, st \in {One, Q(1, 0, 2), Q(1, 0, 10), Int2Q(2)}, q \in 1..Upto(1, 2) :
            LET k == w.m.r
                dt == Det(w.m)
                F(x) == Div(x, dt)
                ai == MapE(AdjM(w.m), F)
                b == Fix1(t, <<k, q>>)  c == Fix2(t, <<2, k>>)  d == Fix1(t, <<2, q>>)
                ad == ExpJ(w.bs, k, w.p, w.pi, st)
                aib == MulM(ai, b)
                G(i, l) == LET ts == SelectSeq([n1 \in 1..(k * k) |-> <<Mul(El(ai, i, (n1 - 1) \div k), El(b, (n1 - 1) % k, l)), (n1 - 1) \div k, (n1 - 1) % k>>], LAMBDA x : x[1] # Zero)
                           IN  <<"sum">> \o [n2 \in 1..Len(ts) |-> <<"mul", ts[n2][1], El(ad, ts[n2][2], ts[n2][3])>>] \o <<Neg(El(aib, i, l))>>
            IN  /\ Within(w.m.e, 12, 4) /\ k <= 3
                /\ dt # Zero
                /\ Do([op |-> "c2d", t |-> t, A |-> MObj(t, w.m), B |-> b, C |-> c, D |-> d, st |-> st, prec |-> 3], store,
                      Ret(store, RList(<<RMat(t, ad), RMat(t, Mk(k, q, G)), RMat(t, c), RMat(t, d), RSca(t, st)>>)))
       /\ Log

(* C23: every duration. *)
Sys23(t, k, q, p, z) ==
    LET F(i, j) == IF i = j THEN Q(1, 0, 2) ELSE IF j = i + 1 THEN Int2Q(z) ELSE IF i = j + 1 THEN Int2Q(-1) ELSE Zero
        B(i, j) == Int2Q((i + 2 * j + z) % 3)  C(i, j) == Int2Q(i - j + z)  D(i, j) == Int2Q(2 * i + j - z)
    IN  [A |-> MObj(t, Mk(k, k, F)), B |-> MObj(t, Mk(k, q, B)), C |-> MObj(t, Mk(p, k, C)), D |-> MObj(t, Mk(p, q, D))]
S23 == /\ n = 0
       /\ \/ \E t \in {"f", "d"}, k \in 1..3, q \in 1..2, p \in 1..2, z \in 0..1, nu \in 0..Upto(3, 6), st \in {One, Q(1, 0, 4), Q(5, 0, 2)}, whole \in 0..Upto(4, 8), frac \in {Zero, Q(1, 0, 2), Q(7, 0, 8)} :
               LET sy == Sys23(t, k, q, p, z)
                   x == MObj(t, LET F(i, j) == Int2Q(i + 1) IN Mk(k, 1, F))
                   us == [i \in 1..nu |-> MObj(t, LET F(r, c) == Int2Q(i - 2 * r) IN Mk(q, 1, F))]
                   steps == Min2(nu, whole)
                   rn == Run(sy, SubSeq(us, 1, steps), <<x>>, <<>>) IN
               /\ Deep \/ (t = "d") = ((k + q + p + z + nu) % 2 = 0)
               /\ Deep \/ k # 2
               /\ Do([op |-> "simulate", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D, st |-> st, x |-> x.e, us |-> [i \in 1..nu |-> us[i].e], time |-> Mul(Add(Int2Q(whole), frac), st)], store,
                     Ret(store, RList(<<RVec(t, [i \in 1..(steps + 1) |-> Mul(Int2Q(i - 1), st)]),
                                        RList([i \in 1..(steps + 1) |-> RVec(t, rn.xs[i].e)]), RList([i \in 1..steps |-> RVec(t, rn.ys[i].e)])>>)))
          \/ \E t \in {"f", "d"}, k \in 1..4, q \in 1..3, p \in 1..3, z \in -1..2 :
               LET sy == Sys23(t, k, q, p, z)  F(i, j) == Int2Q(2 * i - z)  G(i, j) == Int2Q(i + z)  x == MObj(t, Mk(k, 1, F))  u == MObj(t, Mk(q, 1, G)) IN
               \/ Do([op |-> "simstep", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D, st |-> One, x |-> x.e, u |-> u.e], store, Ret(store, RList(<<RVec(t, StepX(sy, x, u).e), RVec(t, StepY(sy, x, u).e)>>)))
               \/ Do([op |-> "syszero", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D], store, Ret(store, RList(<<RVec(t, ZeroM(1, q).e), RVec(t, ZeroM(1, k).e)>>)))
       /\ Log

(* C24, C25 *)
BlockRec(f, a, b) == LET s == On2("A", a, "B", b) IN Do([op |-> "blocks", f |-> f, a |-> "A", b |-> "B", d |-> ""], s, EffM(s, "", a.t, BlocksOf(f, a, b)))
S24 == /\ n = 0
       /\ \E f \in {"ctrb", "obsv"} :
            LET Other(t, k, l) == IF f = "ctrb" THEN Fix1(t, <<k, l>>) ELSE Fix1(t, <<l, k>>) IN
            \/ \E q \in Seqs(4, Tri), b \in Seqs(2, Tri) : BlockRec(f, MOf("d", 2, 2, q), IF f = "ctrb" THEN MOf("d", 2, 1, b) ELSE MOf("d", 1, 2, b))
            \/ \E q \in Seqs(9, {Zero, One}), l \in 1..Upto(1, 2) : BlockRec(f, MOf("i", 3, 3, q), Other("i", 3, l))
            \/ \E q \in Seqs(4, {Zero, One, ImU}), t \in {"c", "z"}, l \in 1..2 : BlockRec(f, MOf(t, 2, 2, q), Other(t, 2, l))
            \/ \E k \in 1..4, l \in 1..3, t \in {"i", "f", "d"} : LET F(i, j) == IF j = (i + 1) % k THEN One ELSE IF i = j THEN Int2Q(-1) ELSE Zero IN BlockRec(f, MObj(t, Mk(k, k, F)), Other(t, k, l))
       /\ Log
PolyRec(s, x) == LET m == TVal(s, x)  e == IF s[x].k = "V" \/ m.r = 1 \/ m.c = 1 \/ Size(m) = 0 THEN PolyRoots(m.e) ELSE CharPoly(m) IN
    Do([op |-> "poly", a |-> x, d |-> ""], s, EffV(s, "", m.t, [r |-> 1, c |-> Len(e), e |-> e]))
S25 == /\ n = 0
       /\ \/ \E k \in 0..4 : \E q \in Seqs(k, Ints(-1..2)), t \in {"i", "d"} : (Deep \/ k < 4 \/ t = "i") /\ PolyRec(On("u", VOf(t, k, q)), "u")
          \/ \E k \in 1..3 : \E q \in Seqs(k, {Zero, One, ImU, <<-1, 1, 1>>}), t \in {"c", "z"} : PolyRec(On("u", VOf(t, k, q)), "u") \/ PolyRec(On("A", MOf(t, k, 1, q)), "A")
          \/ \E k \in 1..3 : \E q \in Seqs(k, Ints(-2..2)), col \in BOOLEAN : PolyRec(On("A", IF col THEN MOf("d", k, 1, q) ELSE MOf("i", 1, k, q)), "A")
          \/ \E q \in Seqs(4, Ints(-2..2)), t \in {"i", "d"} : (Deep \/ (t = "i") = (q[1] = Zero)) /\ PolyRec(On("A", MOf(t, 2, 2, q)), "A")
          \/ \E q \in Seqs(9, IF Deep THEN Tri ELSE {Zero, One}) : PolyRec(On("A", MOf(IF q[1] = Zero THEN "i" ELSE "d", 3, 3, q)), "A")
          \/ \E k \in 4..5 : \E f \in Perms(k) : PolyRec(On("A", PermM("d", k, f)), "A")
          \/ \E k \in 0..5 : \E q \in Seqs(k, Ints(0..2)), t \in {"i"} \cup (IF Deep THEN {"d", "z", "f"} ELSE {}) : LET v == VOf(t, k, q)  s == On("u", v)  st == Strip(v.e) IN
               Do([op |-> "polyreduce", a |-> "u", d |-> ""], s, EffV(s, "", t, [r |-> 1, c |-> Len(st), e |-> st]))
          \/ \E q \in Seqs(4, Tri), b \in Seqs(2, Tri), pp \in {<<-1, -2>>, <<0, 3>>} \cup (IF Deep THEN {<<1, 1>>, <<-2, 2>>} ELSE {}) :
               LET a == MOf("d", 2, 2, q)  bb == MOf("d", 2, 1, b)  p == MObj("d", RowM(<<Int2Q(pp[1]), Int2Q(pp[2])>>))
                   ct == BlocksOf("ctrb", a, bb)  dt == Det(ct)  last == SubMat(AdjM(ct), 1, 2, 0, 2)  kk == MulM(last, PolyAtM(PolyRoots(p.e), a))  F(x) == Div(x, dt) IN
               IF dt = Zero THEN /\ (Deep \/ b = <<Zero, Zero>> \/ q = [i \in 1..4 |-> Zero] \/ q = <<One, Zero, Zero, One>>)      \* each of these is a process
                                 /\ Do([op |-> "acker", A |-> a, B |-> bb, p |-> p], store, Ret(store, RStr("exit")))
               ELSE Do([op |-> "acker", A |-> a, B |-> bb, p |-> p, prec |-> 9], store, Ret(store, RMat("d", MapE(kk, F))))
       /\ Log

(* C26 *)
HessRec(s) == LET m == s["A"] IN Do([op |-> "hess", a |-> "A", prec |-> 10], s, Ret(s, RList(<<RMat("z", Eye(m.r)), RMat("z", m), Zs(IF m.r < 3 THEN 0 ELSE ((m.r - 1) * (m.r - 2)) \div 2)>>)))
GivRec(s) == LET m == s["A"] IN HessOnly(m) /\ Do([op |-> "givens", a |-> "A", prec |-> 10], s, Ret(s, RList(<<RMat("z", Eye(m.r)), RMat("z", m), Zs((m.r * (m.r - 1)) \div 2)>>)))
SchurRec(s) == LET m == s["A"]  kn == UpperOnly(m) /\ Distinct(m) IN
    Do([op |-> "schur", a |-> "A", eig |-> kn, prec |-> 9], s, Ret(s, SchurRes(m, IF kn THEN SortE(TLCEval(DiagV(m))) ELSE <<>>)))
VecRec(s) == LET m == s["A"] IN (UpOk(m) = TRUE) /\ Do([op |-> "eigvec", a |-> "A", prec |-> 9], s, Ret(s, RList(<<RMat("z", ZeroM(m.r, m.r)), RBool(TRUE), RBool(Diagonalisable(m))>>)))
EveryEig(s) == HessRec(s) \/ GivRec(s) \/ SchurRec(s) \/ VecRec(s)
S26 == /\ n = 0
       /\ \/ \E q \in Seqs(4, {Zero, One, ImU, Int2Q(-1)} \cup (IF Deep THEN {<<1, 1, 1>>, Int2Q(2)} ELSE {})) : EveryEig(On("A", MOf("z", 2, 2, q)))
          \/ \E q \in Seqs(9, IF Deep THEN Tri ELSE {Zero, One}) : EveryEig(On("A", MOf("z", 3, 3, q)))
          \/ \E f \in Perms(4) : LET F(i, j) == IF f[i + 1] = j + 1 THEN One ELSE Zero IN EveryEig(On("A", MObj("z", Mk(4, 4, F))))
          \/ \E q \in Seqs(6, {Zero, One, ImU}) : LET F(i, j) == IF j < i THEN Zero ELSE q[(j * (j + 1)) \div 2 + i + 1] IN VecRec(On("A", MObj("z", Mk(3, 3, F))))
       /\ Log

-----------------------------------------------------------------------------
(* C27: one or two objects written, the file cut anywhere, and read back. *)
ItemsOf(t) == {Fix1(t, p) : p \in {<<0, 0>>, <<1, 1>>, <<2, 1>>, <<2, 3>>}} \cup {FixV(t, k) : k \in {0, 1, 4}}
DoFWrite(o, p) == LET x == IF o.k = "V" THEN "u" ELSE "A" IN
    LET s == On(x, o) IN Do([op |-> "fwrite", a |-> x, p |-> p], s, Ret(SetFile(s, [File EXCEPT !.items = Append(@, Item(o))]), None))
DoFRead(t) ==     \* into an object of another shape
    LET f == File
        over == f.fail \/ f.pos > Len(f.items)
        i == IF over THEN [k |-> "M", t |-> t, r |-> 0, c |-> 0, e |-> <<>>, part |-> 0] ELSE f.items[f.pos]
        x == IF i.k = "V" THEN "v" ELSE "B"
        old == IF i.k = "V" THEN FixV(i.t, 2) ELSE Fix1(i.t, <<1, 3>>)
        s == On(x, old)
    IN  IF over THEN Do([op |-> "fread", d |-> x, dead |-> TRUE], s, Ret(SetFile(s, [f EXCEPT !.fail = TRUE]), RBool(FALSE)))
        ELSE IF i.part > 0
        THEN LET kd == IF i.part < HeadTokens(i) THEN 0 ELSE i.part - HeadTokens(i) IN
             Do([op |-> "freadcut", kind |-> i.k, t |-> i.t, old |-> [old EXCEPT !.e = [l \in 1..Len(old.e) |-> One]], head |-> i.part >= HeadTokens(i), have |-> kd], store,
                Ret(SetFile(store, [f EXCEPT !.fail = TRUE]),
                    RList(<<RBool(FALSE)>> \o (IF i.part >= HeadTokens(i) THEN <<RNat(i.r), RNat(i.c), RVec(i.t, SubSeq(i.e, 1, kd))>> ELSE <<>>))))
        ELSE Do([op |-> "fread", d |-> x, dead |-> TRUE], s, Ret(SetFile([s EXCEPT ![x] = OfKind([t |-> i.t, r |-> i.r, c |-> i.c, e |-> i.e], i.k)], [f EXCEPT !.pos = @ + 1]), RBool(TRUE)))
DoFOpen(m) == Do([op |-> "fopen", m |-> m], store, Ret(SetFile(store, [File EXCEPT !.w = m, !.items = IF m = "w" THEN <<>> ELSE @, !.pos = 1, !.skip = 0, !.fail = FALSE]), None))
S27 == /\ \/ n = 0 /\ DoFOpen("w")
          \/ n = 1 /\ \E t \in AllT : \E o \in ItemsOf(t) : DoFWrite(o, Enough(t))
          \/ n = 2 /\ LET t == File.items[1].t IN \E o \in {Fix2(t, <<1, 2>>), FixW(t, 2)} \cup (IF Deep THEN ItemsOf(t) ELSE {}) : DoFWrite(o, Enough(t))
          \/ n = 3 /\ (ActFCut \/ DoFOpen("r"))
          \/ n = 4 /\ (IF Cut(File) THEN DoFOpen("r") ELSE DoFRead("d"))
          \/ n \in 5..6 /\ DoFRead("d")
       /\ Log
(* C28: every value with every precision. *)
S28 == /\ n = 0
       /\ \/ \E a \in {0, 1, 5, 9, 10, 15, 25, 35, 99, 100, 105, 995, 999, 1005, 4095, 9999, 12345, 99995, 99999}, d \in {1, 2, 4, 8, 16}, sg \in {1, -1}, p \in {1, 2, 3, 4, 5, 6, 9, 12, 17} :
               LET x == Q(sg * a, 0, d)
                   m == IF p % 3 = 0 THEN MObj("z", [r |-> 1, c |-> 2, e |-> <<x, Mul(x, ImU)>>]) ELSE MObj(IF p = 4 THEN "f" ELSE "d", [r |-> 2, c |-> 1, e |-> <<x, One>>])
                   s == On("A", m) IN
               /\ p = 4 => a < 10000
               /\ sg = 1 \/ a # 0
               /\ Do([op |-> "text", f |-> "out", a |-> "A", p |-> p, name |-> "m", type |-> CppT(m.t)], s, Ret(s, RStr(TextOf(m, p))))
          \/ \E t \in AllT, p \in Grid(0, 3), f \in {"out", "dump", "matlab", "cpp"}, name \in {"m", "a_b"} : LET m == Fix2(t, p)  s == On("A", m) IN
               /\ (p[1] > 0 /\ p[2] > 0) \/ f = "out"
               /\ Do([op |-> "text", f |-> f, a |-> "A", p |-> 6, name |-> name, type |-> CppT(t)], s, Ret(s, RStr(Shown(f, m, 6, name, CppT(t), FALSE))))
          \/ \E t \in AllT, k \in 0..4, f \in {"out", "dump", "matlab", "cpp"} : LET v == FixW(t, k)  s == On("u", v)  m == [t |-> t, r |-> 1, c |-> k, e |-> v.e] IN
               Do([op |-> "text", f |-> f, a |-> "u", p |-> 6, name |-> "v", type |-> CppT(t)], s, Ret(s, RStr(Shown(f, m, 6, "v", CppT(t), TRUE))))
       /\ Log

(* C30, C31 *)
S30 == n = 0 /\ ActRand /\ Log
Vals31(t) == IF IsCplx(t) THEN {<<a, b, 2>> : a \in {-3, 0, 1, 4}, b \in {-2, 0, 3}} ELSE IF t = "i" THEN Ints(-3..3) ELSE {Q(a, 0, 2) : a \in -4..4}
Norm31(S) == {Q(x[1], x[2], x[3]) : x \in S}
S31 == /\ n = 0
       /\ \/ \E t \in AllT, f \in Funs, vec \in BOOLEAN :
               LET e == SeqOf(Norm31(Vals31(t)))  x == IF vec THEN "u" ELSE "A"  m == [t |-> t, r |-> 1, c |-> Len(e), e |-> e]
                   s == On(x, IF vec THEN VObj(t, e) ELSE MObj(t, m)) IN
               /\ f \in {"real", "imag"} => IsCplx(t)
               /\ Do([op |-> "fun", f |-> f, a |-> x, d |-> ""], s, IF vec THEN EffV(s, "", FunT(f, t), FunOf(f, m)) ELSE EffM(s, "", FunT(f, t), FunOf(f, m)))
          \/ \E p \in Grid(0, 3), t \in AllT, f \in {"abs", "sign", "sq", "cplx"} : LET m == Fix2(t, p)  s == On("A", m) IN
               Do([op |-> "fun", f |-> f, a |-> "A", d |-> ""], s, EffM(s, "", FunT(f, t), FunOf(f, m)))
          \/ \E tt \in TT, p \in Grid(0, 2), f \in {"prod", "sub", "less"} : LET a == Fix1(tt[1], p)  b == Fix2(tt[2], p)  s == On2("A", a, "B", b)  z == Sc("i", Zero) IN
               Do([op |-> "binfun", f |-> f, a |-> "A", b |-> "B", sa |-> z, sb |-> z, d |-> ""], s, EffM(s, "", CommonT(tt[1], tt[2]), BinOf(f, a, b, z, z)))
          \/ \E tt \in TT, u \in {"own", "d"}, w \in {"own", "d"}, p \in {<<1, 1>>, <<2, 3>>} :
               LET a == Fix1(tt[1], p)  b == Fix2(tt[2], p)  s == On2("A", a, "B", b)
                   sa == Sc(IF u = "own" THEN tt[1] ELSE "d", IF u = "own" THEN Int2Q(2) ELSE Q(3, 0, 2))  sb == Sc(IF w = "own" THEN tt[2] ELSE "d", IF w = "own" THEN Int2Q(-3) ELSE Q(1, 0, 2)) IN
               Do([op |-> "lincomb", f |-> "lin", a |-> "A", b |-> "B", sa |-> sa, sb |-> sb, d |-> ""], s, EffM(s, "", BinT("lin", tt[1], tt[2], sa, sb), BinOf("lin", a, b, sa, sb)))
          \/ \E k \in 1..3 : \E x \in Seqs(k, Ints({-1, 2})), y \in Seqs(k, Ints({0, 1, 3})), tt \in {<<"d", "d">>, <<"f", "d">>, <<"z", "d">>} :
               LET v == VOf(tt[1], k, x)  w == VOf(tt[2], k, y)  s == On2("u", v, "v", w)  z == Sc("i", Zero)
                   bb == SumQ([i \in 1..k |-> Mul(w.e[i], w.e[i])], k)  ab == SumQ([i \in 1..k |-> Mul(v.e[i], w.e[i])], k) IN
               /\ bb # Zero
               /\ Do([op |-> "binfun", f |-> "proj", a |-> "u", b |-> "v", sa |-> z, sb |-> z, d |-> ""], s,
                     EffV(s, "", CommonT(tt[1], tt[2]), [r |-> 1, c |-> k, e |-> [i \in 1..k |-> <<"mul", w.e[i], <<"div", ab, bb>>>>]]))
       /\ Log
=============================================================================
