-------------------------------- MODULE OpsIo --------------------------------
(* Text, and files as sequences of written objects.                         *)
EXTENDS OpsEig

(* A decimal number as the streams of C++ write it: P significant digits,
   trailing zeros left out, scientific when the exponent asks for it.       *)
RECURSIVE NDigits(_)
NDigits(k) == IF k < 10 THEN 1 ELSE 1 + NDigits(k \div 10)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
RECURSIVE Pow5Of(_)
Pow5Of(d) == IF d = 1 THEN 1 ELSE 5 * Pow5Of(d \div 2)     \* 5^j for d = 2^j
RECURSIVE Log2Of(_)
Log2Of(d) == IF d = 1 THEN 0 ELSE 1 + Log2Of(d \div 2)
RECURSIVE Rep(_, _)
Rep(s, k) == IF k <= 0 THEN "" ELSE s \o Rep(s, k - 1)
RECURSIVE NoZeros(_)
NoZeros(nj) == IF nj[1] % 10 = 0 THEN NoZeros(<<nj[1] \div 10, nj[2] - 1>>) ELSE nj
(* <<N, j>> with |x| = N / 10^j, for a real dyadic x # 0 *)
Decimal(x) == NoZeros(<<Abs(x[1]) * Pow5Of(x[3]), Log2Of(x[3])>>)
SigDigits(x) == IF x[1] = 0 THEN 1 ELSE NDigits(Decimal(x)[1])
RoundTo(nj, p) ==
    LET dg == NDigits(nj[1]) IN
    IF dg <= p THEN nj
    ELSE LET v == Pow10(dg - p)
             q == nj[1] \div v
             r == nj[1] % v
             up == 2 * r > v \/ (2 * r = v /\ q % 2 = 1)
         IN  NoZeros(<<IF up THEN q + 1 ELSE q, nj[2] - (dg - p)>>)
RECURSIVE FmtPos(_, _)
FmtPos(nj, p) ==
    LET s == ToString(nj[1])
        dg == Len(s)
        j == nj[2]
        x == dg - 1 - j
    IN  IF x < -4 \/ x >= p
        THEN SubSeq(s, 1, 1) \o (IF dg > 1 THEN "." \o SubSeq(s, 2, dg) ELSE "") \o "e" \o (IF x < 0 THEN "-" ELSE "+")
             \o (IF Abs(x) < 10 THEN "0" ELSE "") \o ToString(Abs(x))
        ELSE IF j <= 0 THEN s \o Rep("0", -j)
        ELSE IF dg > j THEN SubSeq(s, 1, dg - j) \o "." \o SubSeq(s, dg - j + 1, dg)
        ELSE "0." \o Rep("0", j - dg) \o s
FmtR(x, p) == IF x[1] = 0 THEN "0" ELSE (IF x[1] < 0 THEN "-" ELSE "") \o FmtPos(RoundTo(Decimal(x), p), p)
Fmt(t, x, p) == IF t = "i" THEN ToString(x[1])
                ELSE IF IsCplx(t) THEN "(" \o FmtR(RePart(x), p) \o "," \o FmtR(ImPart(x), p) \o ")"
                ELSE FmtR(x, p)
(* real part and signed imaginary part *)
FmtAlg(t, x, p) == IF IsCplx(t) THEN FmtR(RePart(x), p) \o (IF ImPart(x)[1] < 0 THEN "" ELSE "+") \o FmtR(ImPart(x), p) \o "i"
                   ELSE Fmt(t, x, p)

RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
RECURSIVE Longest(_)
Longest(l) == IF l = <<>> THEN 0 ELSE Max2(Len(l[1]), Longest(Tail(l)))
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN "" ELSE l[1] \o Concat(Tail(l))

(* m has t, r, c, e *)
Rows(m, f(_), sep) == [i \in 1..m.r |-> Join([j \in 1..m.c |-> f(m.e[(i - 1) * m.c + j])], sep)]
TextOf(m, p) ==
    LET l == Longest([i \in 1..Len(m.e) |-> Fmt(m.t, m.e[i], p)])
        G(x) == LET s == Fmt(m.t, x, p) IN Rep(" ", l - Len(s)) \o s
    IN  Join(Rows(m, G, " "), "\n")
Shown(f, m, p, name, ty, vec) ==
    LET A(x) == FmtAlg(m.t, x, p) IN
    CASE f = "out"    -> TextOf(m, p)
      [] f = "dump"   -> name \o (IF vec THEN " = " ELSE " = \n") \o TextOf(m, p)
      [] f = "matlab" -> name \o " = [" \o (IF vec THEN Join(Rows(m, A, " "), "") ELSE Concat([i \in 1..m.r |-> "[" \o Rows(m, A, " ")[i] \o "];"])) \o "]"
      [] f = "cpp"    -> "malg::" \o (IF vec THEN "Vector<" ELSE "Matrix<") \o ty \o "> " \o name \o " = {"
                         \o (IF vec THEN Join(Rows(m, A, ", "), "") ELSE Join([i \in 1..m.r |-> "{" \o Rows(m, A, ",")[i] \o "}"], ",")) \o "}"
CppT(t) == CASE t = "i" -> "int" [] t = "f" -> "float" [] t = "d" -> "double" [] t = "c" -> "std::complex<float>" [] OTHER -> "std::complex<double>"
TxtOk(s) == {x \in MatLike(s) \cup Vecs(s) : LET m == Val(s, x) IN Len(m.e) <= 60 /\ AllDyadic(m.e) /\ Within(m.e, 100000, 16)}
(* Elements of different lengths. *)
TxtVal(t) ==
    LET a == RandomElement(1..5)
        R == CASE a = 1 -> SmallInt(9) [] a = 2 -> SmallInt(99999) [] a = 3 -> (IF t = "i" THEN SmallInt(999) ELSE Q(RandomElement(-999..999), 0, 16))
               [] a = 4 -> (IF t = "i" THEN Zero ELSE Q(RandomElement(-9999..9999), 0, 8)) [] OTHER -> (IF t = "i" THEN SmallInt(20) ELSE Q(RandomElement(-40..40), 0, 2))
    IN  R
TxtEl(t) == IF IsCplx(t) THEN Add(TxtVal(t), Mul(ImU, TxtVal(t))) ELSE TxtVal(t)
TxtSeq(t, k) == TLCEval([i \in 1..k |-> TxtEl(t)])
NewTxtM == {MObj(trc[1], [r |-> trc[2], c |-> trc[3], e |-> TxtSeq(trc[1], trc[2] * trc[3])]) : trc \in UNION {{<<t, r, c>>} : t \in Pick(Types), r \in Pick(1..5), c \in Pick(1..5)}}
NewTxtV == {VObj(tk[1], TxtSeq(tk[1], tk[2])) : tk \in UNION {{<<t, k>>} : t \in Pick(Types), k \in Pick(0..8)}}
ActText ==
    \E vec \in Coin(35) :
    \E a \in (IF vec THEN PickOp(40, store, TxtOk(store) \cap VSlots, FreeV(store), NewTxtV)
              ELSE PickOp(55, store, TxtOk(store) \ VSlots, FreeM(store), NewTxtM)) :
    \E m \in {TVal(a.s, a.x)} :
    \E f \in Pick({"out", "out", "dump", "matlab", "cpp"}), name \in Pick({"m", "x1", "long_name"}) :
    \E p \in (IF f = "out" THEN Pick({1, 2, 3, 4, 6, 6, 9, 12, 17}) ELSE {6}) :
        Do([op |-> "text", f |-> f, a |-> a.x, p |-> p, name |-> name, type |-> CppT(m.t)], a.s,
           Ret(a.s, RStr(Shown(f, m, p, name, CppT(m.t), vec))))
ActTextSys ==
    \E t \in Pick(CtlTypes), k \in Pick(1..3), q \in Pick(1..2), r \in Pick(1..2), disc \in Coin(50), p \in Pick({2, 3, 6, 9}),
       st \in Pick({One, Q(1, 0, 8), Q(125, 0, 4), Q(-3, 0, 16)}) :
    \E sy \in {SysObj(t, k, q, r)} :
        Do([op |-> "textsys", t |-> t, A |-> sy.A, B |-> sy.B, C |-> sy.C, D |-> sy.D, disc |-> disc, st |-> st, p |-> p], store,
           Ret(store, RStr("A =\n" \o TextOf(sy.A, p) \o "\nB =\n" \o TextOf(sy.B, p) \o "\nC =\n" \o TextOf(sy.C, p) \o "\nD =\n" \o TextOf(sy.D, p) \o "\n"
               \o (IF disc THEN "Sample time: " \o FmtR(st, p) \o " seconds\nDiscrete-time state-space model.\n" ELSE "Continuous-time state-space model.\n"))))
ActTextRange ==
    \E a \in Pick(0..120), b \in Pick(0..2000) :
        Do([op |-> "textrange", x |-> a, y |-> b], store, Ret(store, RStr("[" \o ToString(a) \o ", " \o ToString(b) \o "]")))

-----------------------------------------------------------------------------
(* Files.  store.F is the file and the stream on it: items written so far (the
   last one may be cut: part is then the number of its tokens that are left,
   the first of them the letter of its kind), w the mode of the stream, pos
   the next item to read, skip how often a read is known to be rejected after
   one of the wrong kind (plus one), fail the state of the stream.          *)
NoFile == [k |-> "F", w |-> "", items |-> <<>>, pos |-> 1, skip |-> 0, fail |-> FALSE]
File == IF store.F.k = "N" THEN NoFile ELSE store.F
SetFile(s, f) == [s EXCEPT !.F = f]
Item(o) == [k |-> IF o.k = "V" THEN "V" ELSE "M", t |-> o.t, r |-> o.r, c |-> o.c, e |-> o.e, part |-> 0]
Cut(f) == f.items # <<>> /\ f.items[Len(f.items)].part > 0

(* Extreme values: the palette, and the ends of the integers. *)
Extreme(t) == IF t = "i" THEN RandomElement({Int2Q(2147483647), Int2Q(-2147483647), Zero, Int2Q(1000000)})
              ELSE <<RandomElement(0..13), IF IsCplx(t) THEN RandomElement(0..13) ELSE 0, 0>>
IoSeq(t, k) == IF RandomElement(1..3) = 1 THEN TLCEval([i \in 1..k |-> Extreme(t)]) ELSE TxtSeq(t, k)
NewIoM == {MObj(trc[1], [r |-> trc[2], c |-> trc[3], e |-> IoSeq(trc[1], trc[2] * trc[3])]) : trc \in UNION {{<<t, r, c>>} : t \in Pick(Types), r \in Bias(95, 1..5, {0}), c \in Bias(95, 1..5, {0})}}
NewIoV == {VObj(tk[1], IoSeq(tk[1], tk[2])) : tk \in UNION {{<<t, k>>} : t \in Pick(Types), k \in Pick(0..8)}}
FewDigits(t, e) == t = "i" \/ \A i \in 1..Len(e) : e[i][3] # 0 /\ IsPow2(e[i][3]) /\ FloorAbs(e[i]) < 100000 /\ e[i][3] <= 16
                                                   /\ SigDigits(RePart(e[i])) <= 6 /\ SigDigits(ImPart(e[i])) <= 6
Enough(t) == IF t \in {"f", "c"} THEN 9 ELSE 17

ActFOpen(m) ==
    Do([op |-> "fopen", m |-> m], store,
       Ret(SetFile(store, [File EXCEPT !.w = IF m = "r" THEN "r" ELSE "w", !.items = IF m = "w" THEN <<>> ELSE @, !.pos = 1, !.skip = 0, !.fail = FALSE]), None))
ActFWrite ==
    \E vec \in Coin(40) :
    \E a \in (IF vec THEN PickOp(40, store, {x \in Vecs(store) : store[x].c <= 40}, FreeV(store), NewIoV)
              ELSE PickOp(60, store, {x \in MatLike(store) : Len(Val(store, x).e) <= 40}, FreeM(store), NewIoM)) :
    \E m \in {TVal(a.s, a.x)} :
    \E p \in (IF FewDigits(m.t, m.e) THEN Pick({6, 8, Enough(m.t)}) ELSE Pick({Enough(m.t), Enough(m.t) + 1, 20})) :
        Do([op |-> "fwrite", a |-> a.x, p |-> p], a.s,
           Ret(SetFile(a.s, [File EXCEPT !.items = Append(@, Item([k |-> IF vec THEN "V" ELSE "M", t |-> m.t, r |-> m.r, c |-> m.c, e |-> m.e]))]), None))
(* Written by another program, with other blanks between the numbers. *)
ActFText ==
    \E vec \in Coin(40), style \in Pick(1..3) :
    \E o \in (IF vec THEN NewIoV ELSE NewIoM) :
        Do([op |-> "fother", o |-> o, style |-> style], store, Ret(SetFile(store, [File EXCEPT !.items = Append(@, Item(o))]), None))
HeadTokens(i) == IF i.k = "M" THEN 3 ELSE 2
Tokens(i) == HeadTokens(i) + Len(i.e)
RECURSIVE AllTokens(_, _)
AllTokens(l, i) == IF i = 0 THEN 0 ELSE Tokens(l[i]) + AllTokens(l, i - 1)
(* The file is cut after some token (mid: inside the complex number that follows). *)
ActFCut ==
    \E f \in {File} :
    \E j \in Pick(1..Len(f.items)) :
    \E i \in {f.items[j]} :
    \E p \in Pick(1..(Tokens(i) - 1)) :
    \E mid \in (IF IsCplx(i.t) /\ p >= HeadTokens(i) THEN Coin(50) ELSE {FALSE}) :
        Do([op |-> "fcut", tokens |-> AllTokens(f.items, j - 1) + p, mid |-> mid], store,
           Ret(SetFile(store, [f EXCEPT !.w = "", !.items = Append(SubSeq(f.items, 1, j - 1), [i EXCEPT !.part = p]), !.pos = 1, !.skip = 0, !.fail = FALSE]), None))
(* Destination types that can hold what the item says. *)
AsType(i, t) == t = i.t \/ (/\ \A j \in 1..Len(i.e) : i.e[j][3] # 0
                            /\ (IsCplx(i.t) => IsCplx(t))
                            /\ (t = "i" => FALSE)
                            /\ (i.t = "i" => \A j \in 1..Len(i.e) : FloorAbs(i.e[j]) < 100000)
                            /\ (t \in {"f", "c"} => \A j \in 1..Len(i.e) : FloorAbs(i.e[j]) < 1000))
OfKind(o, k) == IF k = "M" THEN MObj(o.t, o) ELSE VObj(o.t, o.e)
ActFReadPart(i) ==   \* what is left of the last item
    \E old \in (IF i.k = "M" THEN {o \in NewIoM : TRUE} ELSE NewIoV) :
    LET kd == IF i.part < HeadTokens(i) THEN 0 ELSE i.part - HeadTokens(i) IN
        Do([op |-> "freadcut", kind |-> i.k, t |-> i.t, old |-> [old EXCEPT !.t = i.t, !.e = [j \in 1..Len(old.e) |-> One]], head |-> i.part >= HeadTokens(i), have |-> kd], store,
           Ret(SetFile(store, [File EXCEPT !.fail = TRUE]),
               RList(<<RBool(FALSE)>> \o (IF i.part >= HeadTokens(i) THEN <<RNat(i.r), RNat(i.c), RVec(i.t, SubSeq(i.e, 1, kd))>> ELSE <<>>))))
ActFRead ==
    \E f \in {File} :
    \E over \in {f.fail \/ f.skip > 0 \/ f.pos > Len(f.items)} :
    IF ~over /\ f.items[f.pos].part > 0 THEN ActFReadPart(f.items[f.pos])
    ELSE
    \E i \in {IF over THEN [k |-> RandomElement({"M", "V"}), t |-> RandomElement(Types), r |-> 0, c |-> 0, e |-> <<>>] ELSE f.items[f.pos]} :
    \E k \in (IF over THEN {i.k} ELSE Bias(93, {i.k}, {"M", "V"})) :
    \E t \in (IF over \/ k # i.k THEN Pick(Types) ELSE Bias(75, {i.t}, {x \in Types : AsType(i, x)})) :
    \E new \in {IF k # i.k \/ over THEN Nil ELSE OfKind([t |-> t, r |-> i.r, c |-> i.c, e |-> i.e], k)} :
    \E d \in (IF k = "M" THEN PickOp(75, store, {x \in Mats(store) : store[x].t = t /\ (new = Nil \/ ViewsOk([store EXCEPT ![x] = new]))}, FreeM(store), {o \in UNION {FreshM(t, r, c) : r \in Pick(1..4), c \in Pick(1..4)} : TRUE})
              ELSE PickOp(75, store, {x \in Vecs(store) : store[x].t = t}, FreeV(store), UNION {FreshV(t, l) : l \in Pick(0..6)})) :
        IF over THEN Do([op |-> "fread", d |-> d.x, dead |-> f.fail \/ f.skip = 0], d.s,
                        Ret(SetFile(d.s, [f EXCEPT !.fail = @ \/ f.skip = 0, !.skip = IF @ > 0 THEN @ - 1 ELSE 0]), IF f.fail \/ f.skip = 0 THEN RBool(FALSE) ELSE None))
        ELSE IF k # i.k THEN Do([op |-> "fread", d |-> d.x, dead |-> FALSE], d.s, Ret(SetFile(d.s, [f EXCEPT !.skip = Tokens(i)]), None))
        ELSE Do([op |-> "fread", d |-> d.x, dead |-> TRUE], d.s, Ret(SetFile([d.s EXCEPT ![d.x] = new], [f EXCEPT !.pos = @ + 1]), RBool(TRUE)))
ActFile ==
    \E f \in {File}, x \in Pick(1..100) :
        IF f.items = <<>> /\ f.w # "w" THEN ActFOpen("w")
        ELSE IF f.w = "w" THEN
            (IF f.items = <<>> \/ (Len(f.items) < 6 /\ x <= 60) THEN (IF x <= 12 THEN ActFText ELSE ActFWrite)
             ELSE IF x <= 85 THEN ActFOpen("r") ELSE IF x <= 97 THEN ActFCut ELSE ActFOpen("w"))
        ELSE IF f.w = "" THEN ActFOpen("r")      \* cut
        ELSE IF f.skip = 1 THEN ActFOpen("r")
        ELSE IF f.fail THEN (IF x <= 30 THEN ActFRead ELSE IF x <= 70 \/ Cut(f) THEN ActFOpen("w") ELSE ActFOpen("a"))
        ELSE IF x <= 90 THEN ActFRead ELSE IF x <= 94 \/ Cut(f) THEN ActFOpen("r") ELSE ActFOpen("a")

-----------------------------------------------------------------------------
LawText ==
    LET o == out' IN
    /\ o.op = "text" /\ o.a.f = "out" => LET m == Arg(o.a.a) IN     \* every line is as long as every other
         m.r >= 1 /\ m.c >= 1 => LET l == (Len(o.res.v) + 1) \div m.r - 1 IN
            /\ Len(o.res.v) = m.r * (l + 1) - 1
            /\ \A i \in 1..(m.r - 1) : SubSeq(o.res.v, i * (l + 1), i * (l + 1)) = "\n"
=============================================================================
