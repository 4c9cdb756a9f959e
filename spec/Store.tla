------------------------------- MODULE Store --------------------------------
(* The state of a program that uses the library: named objects (matrices,
   vectors, views, cofactor views), the process-wide comparison tolerance, and
   the record of the last call.  An operation is described by a record (its
   name and arguments) and an effect [ok, s, res]: whether it returns or
   throws, the store afterwards, and the value it returns.

   Every object is
     [k |-> "N"]                              nothing
     [k |-> "M", t, r, c, e]                  matrix
     [k |-> "V", t, r |-> 1, c, e]            vector (of c elements)
     [k |-> "W", t, base, cst, r0, r1, c0, c1] window view on slot base
     [k |-> "C", t, base, cst, xr, xc]        cofactor view on slot base
   A view holds no elements: its value is computed from its base (Val), and
   writing to it writes to the root matrix (Write).                         *)
EXTENDS Mat, Json

CONSTANTS
    Sim,        \* TRUE: choose randomly (tlc -simulate); FALSE: enumerate
    Types,      \* element types of freshly created objects
    MaxDim,     \* largest number of rows / columns of a fresh object
    BigPct      \* percentage of fresh objects that may be larger

VARIABLES store, tol, out, n
vars == <<store, tol, out, n>>

MSlots == {"A", "B", "C", "D", "E"}
VSlots == {"u", "v", "w"}
WSlots == {"P", "Q", "R"}
Slots  == MSlots \cup VSlots \cup WSlots

Nil == [k |-> "N"]
All == 9999                    \* the "until the end" bound of a range

MObj(t, m) == [k |-> "M", t |-> t, r |-> m.r, c |-> m.c, e |-> m.e]
VObj(t, s) == [k |-> "V", t |-> t, r |-> 1, c |-> Len(s), e |-> s]

-----------------------------------------------------------------------------
(* Reading and writing through views. *)
RECURSIVE Val(_, _)
Val(s, x) ==
    LET o == s[x] IN
    IF o.k \in {"M", "V"} THEN o
    ELSE LET b == Val(s, o.base) IN
         IF o.k = "W"
         THEN LET re == Max2(Min2(o.r1, b.r), o.r0)
                  ce == Max2(Min2(o.c1, b.c), o.c0)
              IN  SubMat(b, o.r0, re, o.c0, ce)
         ELSE Minor(b, o.xr, o.xc)

(* The same with the element type. *)
TVal(s, x) == LET v == Val(s, x) IN [t |-> s[x].t, r |-> v.r, c |-> v.c, e |-> v.e]

RECURSIVE Root(_, _)
Root(s, x) == IF s[x].k \in {"W", "C"} THEN Root(s, s[x].base) ELSE x

(* The linear positions of the root's elements that view x shows. *)
RECURSIVE Cells(_, _)
CellsOf(s, x) == LET c == Cells(s, x) IN {c.e[i] : i \in 1..Len(c.e)}
Cells(s, x) ==
    LET o == s[x] IN
    IF o.k \in {"M", "V"} THEN [r |-> o.r, c |-> o.c, e |-> [i \in 1..(o.r * o.c) |-> i]]
    ELSE LET b == Cells(s, o.base) IN
         IF o.k = "W"
         THEN LET re == Max2(Min2(o.r1, b.r), o.r0)
                  ce == Max2(Min2(o.c1, b.c), o.c0)
              IN  SubMat(b, o.r0, re, o.c0, ce)
         ELSE Minor(b, o.xr, o.xc)

(* The store after the elements of x became those of m (same shape). *)
Write(s, x, m) ==
    LET o == s[x] IN
    IF o.k \in {"M", "V"}
    THEN [s EXCEPT ![x].e = ConvM(o.t, m).e]
    ELSE LET cs == Cells(s, x).e
             rt == Root(s, x)
             ro == s[rt]
             pos == {cs[i] : i \in 1..Len(cs)}
             at(p) == CHOOSE i \in 1..Len(cs) : cs[i] = p
         IN  [s EXCEPT ![rt].e = TLCEval([p \in 1..Len(ro.e) |->
                 IF p \in pos THEN Conv(ro.t, m.e[at(p)]) ELSE ro.e[p]])]

Live(s) == {x \in Slots : s[x].k # "N"}
MatLike(s) == {x \in MSlots \cup WSlots : s[x].k # "N"}
Mats(s) == {x \in MSlots : s[x].k # "N"}
Vecs(s) == {x \in VSlots : s[x].k # "N"}
Views(s) == {x \in WSlots : s[x].k # "N"}
Refd(s) == {s[x].base : x \in Views(s)}
Writable(s, x) == s[x].k \in {"M", "V"} \/ ~s[x].cst

(* No view is left without its base, and no cofactor view hangs on an empty
   base (the library says nothing about those). *)
ViewsOk(s) == \A x \in Views(s) :
                  /\ s[s[x].base].k \in {"M", "W", "C"}
                  /\ s[x].k = "C" => LET b == Val(s, s[x].base) IN b.r >= 1 /\ b.c >= 1

(* Bound on the magnitude of the elements of x. *)
RECURSIVE MaxMag(_, _)
MaxMag(e, i) == IF i = 0 THEN 0 ELSE Max2(MagQ(e[i]), MaxMag(e, i - 1))
Mag(s, x) == LET m == Val(s, x) IN MaxMag(m.e, Len(m.e))
HasOpaque(s, x) == LET m == Val(s, x) IN \E i \in 1..Len(m.e) : IsOpaque(m.e[i])
RECURSIVE MaxDen(_, _)
MaxDen(e, i) == IF i = 0 THEN 1 ELSE Max2(e[i][3], MaxDen(e, i - 1))
AllDyadic(e) == \A i \in 1..Len(e) : e[i][3] # 0 /\ IsPow2(e[i][3])

(* Bounds on the values themselves: |x| < 2^vb or so, denominators up to db. *)
FloorAbs(x) == IF x[3] = 0 THEN 0 ELSE Max2(Abs(x[1]), Abs(x[2])) \div x[3]
Within(e, vb, db) == \A i \in 1..Len(e) : e[i][3] # 0 /\ e[i][3] <= db /\ FloorAbs(e[i]) < vb

(* What can be observed of slot x. *)
Obs(s, x) ==
    LET o == s[x] IN
    IF o.k \in {"N", "M", "V"} THEN o
    ELSE LET v == Val(s, x) IN [k |-> o.k, t |-> o.t, r |-> v.r, c |-> v.c, e |-> v.e]

-----------------------------------------------------------------------------
(* Choice: one random element when simulating, every element otherwise. *)
(* (n >= 0 makes a choice depend on the state, so that TLC does not evaluate it
   once and for all.) *)
Pick(S) == IF Sim THEN (IF n < 0 \/ S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Coin(p) == IF Sim THEN {n >= 0 /\ RandomElement(1..100) <= p} ELSE {TRUE, FALSE}
(* Pick from S1 with probability p percent (if not empty), otherwise from S2. *)
Bias(p, S1, S2) ==
    IF ~Sim THEN S1 \cup S2
    ELSE IF S1 = {} THEN Pick(S2) ELSE IF S2 = {} THEN Pick(S1)
    ELSE UNION {IF k THEN Pick(S1) ELSE Pick(S2) : k \in Coin(p)}

(* Values of a fresh element of type t. *)
ValsI == {Int2Q(k) : k \in -5..9}
ValsD == ValsI \cup {Q(1,0,2), Q(-1,0,2), Q(3,0,2), Q(5,0,4), Q(-7,0,4), Q(9,0,2), Q(-3,0,8), Q(1,0,4)}
ValsSmall(t) == IF t \in {"i", "u"} THEN {Int2Q(-1), Zero, One, Int2Q(2)}
                ELSE IF t = "b" THEN {Zero, One}
                ELSE IF IsCplx(t) THEN {Zero, One, <<1, -1, 2>>}
                ELSE {Zero, One, Q(-1, 0, 2)}
RandVal(t) ==
    IF ~Sim THEN CHOOSE x \in ValsSmall(t) : TRUE
    ELSE IF t = "i" THEN RandomElement(ValsI)
    ELSE IF t = "u" THEN Int2Q(RandomElement(0..9))
    ELSE IF t = "b" THEN Int2Q(RandomElement(0..1))
    ELSE IF IsCplx(t) THEN Add(RandomElement(ValsD), Mul(ImU, RandomElement(ValsD)))
    ELSE RandomElement(ValsD)
FreshVals(t) == IF Sim THEN {RandVal(t)} ELSE ValsSmall(t)

(* Elements of large objects: such that sums of products of hundreds stay exact. *)
HugeVal(t) ==
    LET x == Int2Q(RandomElement(IF t \in {"u", "b"} THEN 0..1 ELSE -2..3)) IN
    IF t \in {"i", "u", "b"} THEN x
    ELSE IF IsCplx(t) THEN <<RandomElement(-2..2), RandomElement(-1..2), 1>>
    ELSE IF RandomElement(1..8) = 1 THEN Q(x[1], 0, 2) ELSE x
FreshSeqs(t, len) ==
    IF Sim THEN {TLCEval([i \in 1..len |-> IF len > 64 THEN HugeVal(t) ELSE RandVal(t)])}
    ELSE IF len = 0 THEN {<<>>} ELSE [1..len -> ValsSmall(t)]
FreshM(t, r, c) == {MObj(t, [r |-> r, c |-> c, e |-> q]) : q \in FreshSeqs(t, r * c)}
FreshV(t, len) == {VObj(t, q) : q \in FreshSeqs(t, len)}

(* Sizes: mostly small, sometimes larger, rarely beyond any plausible block size. *)
Huge(k) == RandomElement(1..k) = 1 /\ n >= 0
Dims == IF Sim THEN UNION {IF k THEN (IF Huge(8) THEN {9, 12, 16, 17, 24, 32, 33} ELSE 1..(2 * MaxDim + 2)) ELSE 1..MaxDim : k \in Coin(BigPct)} ELSE 1..MaxDim
VDims == IF Sim THEN UNION {IF k THEN (IF Huge(6) THEN {41, 63, 64, 65, 100, 127, 128, 129, 256, 257} ELSE 1..40) ELSE 0..(MaxDim + 3) : k \in Coin(BigPct)} ELSE 0..MaxDim

FreshAnyM(ts, rs, cs) == UNION {FreshM(t, r, c) : t \in Pick(ts), r \in Pick(rs), c \in Pick(cs)}
FreshAnyV(ts, ls) == UNION {FreshV(t, l) : t \in Pick(ts), l \in Pick(ls)}

(* Slots that an operation may overwrite with a new object. *)
FreeM(s) == MSlots \ Refd(s)
FreeV(s) == VSlots

(* Choose an operand: an existing object that satisfies ok, or a fresh one in
   a slot that is neither used by a view nor in avoid.  Each choice is
   [x |-> slot, s |-> store with the fresh object installed].               *)
PickOld(s, ex) == {[x |-> x, s |-> s] : x \in Pick(ex)}
PickNew(s, free, fresh) == {[x |-> y, s |-> [s EXCEPT ![y] = o]] : y \in Pick(free), o \in fresh}
PickOp(p, s, ex, free, fresh) ==
    IF ~Sim THEN PickOld(s, ex)
    ELSE IF ex = {} THEN PickNew(s, free, fresh)
    ELSE IF free = {} THEN PickOld(s, ex)
    ELSE UNION {IF k THEN PickOld(s, ex) ELSE PickNew(s, free, fresh) : k \in Coin(p)}

-----------------------------------------------------------------------------
None == [k |-> "none"]
Ret(s, res) == [ok |-> TRUE, s |-> s, res |-> res, tol |-> tol]
Thr(s) == [ok |-> FALSE, s |-> s, res |-> None, tol |-> tol]
(* Returned values. *)
RMat(t, m) == [k |-> "M", t |-> t, r |-> m.r, c |-> m.c, e |-> m.e]
RVec(t, e) == [k |-> "V", t |-> t, r |-> 1, c |-> Len(e), e |-> e]
RSca(t, x) == [k |-> "S", t |-> t, v |-> x]
RBool(b) == [k |-> "B", v |-> IF b THEN 1 ELSE 0]
RNat(i) == [k |-> "I", v |-> i]
RStr(x) == [k |-> "T", v |-> x]
RList(l) == [k |-> "L", v |-> l]

(* One step: rec is the call, s1 the store with the fresh operands installed,
   eff the effect of the call on it. *)
Changed(s1, s2, S) == {x \in S : Obs(s1, x) # Obs(s2, x)}
Do(rec, s1, eff) ==
    /\ ViewsOk(eff.s)
    /\ store' = eff.s
    /\ tol' = eff.tol
    /\ n' = n + 1
    /\ LET mks == {x \in MSlots \cup VSlots : store[x] # s1[x]}
           ups == {x \in Slots : Obs(s1, x) # Obs(eff.s, x)}
       IN  out' = [step |-> n + 1, op |-> rec.op, a |-> rec, ok |-> eff.ok, res |-> eff.res, tol |-> eff.tol,
                   mk |-> [x \in mks |-> s1[x]],
                   upd |-> [x \in ups |-> Obs(eff.s, x)]]

(* The result object of a functional operation goes to slot d. *)
Put(s, d, o) == [s EXCEPT ![d] = o]

DefaultTol == <<1, 1000000>>
Init == /\ store = [x \in Slots \cup {"F"} |-> Nil]      \* F: a file (OpsIo)
        /\ tol = DefaultTol
        /\ n = 0
        /\ out = [step |-> 0, op |-> "init"]

(* The value of operand x of the last call, before it (for the laws). *)
Arg(x) == IF x \in DOMAIN out'.mk THEN out'.mk[x] ELSE Val(store, x)

Emit == PrintT(ToJson(out'))

TypeOK ==
    /\ \A x \in Slots :
         LET o == store[x] IN
         \/ o.k = "N"
         \/ o.k \in {"M", "V"} /\ o.r >= 0 /\ o.c >= 0 /\ Len(o.e) = o.r * o.c
            /\ (o.t \in {"i", "u"} => \A i \in 1..Len(o.e) : IsInt(o.e[i]))
            /\ (~IsCplx(o.t) => \A i \in 1..Len(o.e) : IsReal(o.e[i]))
            /\ (o.k = "M" <=> x \in MSlots) /\ (o.k = "V" <=> x \in VSlots)
         \/ o.k = "W" /\ x \in WSlots /\ o.r0 < o.r1 /\ o.c0 < o.c1
         \/ o.k = "C" /\ x \in WSlots
    /\ ViewsOk(store)
=============================================================================
