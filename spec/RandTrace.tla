------------------------------ MODULE RandTrace -------------------------------
(* Checks the log of what random generation returned: every line is a call (its
   arguments a) and the results of making it twice in a row.  A result is
   [t, r, c, lo, hi] where lo and hi hold, for every element (or every part of
   a complex one), the integers around Scale times its value.               *)
EXTENDS Num, Json, IOUtils, FiniteSets

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, seen
vars == <<i, seen>>

(* x * Scale as an integer (integer elements are not scaled). *)
ScaleOf(t) == IF t = "i" THEN 1 ELSE 256
Times(x, k) == (x[1] * k) \div x[3]
Parts(t) == IF IsCplx(t) THEN 2 ELSE 1
Vals(res) == {<<res.lo[k], res.hi[k]>> : k \in 1..Len(res.lo)}
ResultOk(a, res) ==
    LET k == ScaleOf(a.t)  lo == Times(a.lo, k)  hi == Times(a.hi, k)  len == Len(res.lo) IN
    /\ res.t = a.t /\ res.r = a.r /\ res.c = a.c
    /\ len = a.r * a.c * Parts(a.t) /\ Len(res.hi) = len
    /\ \A j \in 1..len : res.lo[j] >= lo /\ res.hi[j] <= hi
    /\ a.t = "i" => res.lo = res.hi
    (* not all equal: the chance is less than 2^-60 that this fails *)
    /\ (a.t # "i" /\ a.lo # a.hi /\ a.r * a.c >= 8) =>
         /\ ~res.same
         /\ IsCplx(a.t) => ~res.partsame
         /\ ~res.rowsame
    /\ (a.t = "i" /\ a.lo # a.hi /\ a.r * a.c >= 64) => Cardinality(Vals(res)) > 1
LineOk(l) ==
    /\ ResultOk(l.a, l.first) /\ ResultOk(l.a, l.second)
    /\ (l.a.t # "i" /\ l.a.lo # l.a.hi /\ l.a.r * l.a.c >= 8) => ~l.repeated
    /\ (l.a.t = "i" /\ l.a.lo # l.a.hi /\ l.a.r * l.a.c >= 64) => ~l.repeated

(* How often integer calls were sampled, and what they returned. *)
Small(a) == a.t = "i" /\ a.lo[1] > -1000 /\ a.hi[1] < 1000 /\ a.hi[1] - a.lo[1] < 10
Key(a) == <<a.vec, a.lo[1], a.hi[1]>>
Keys == {Key(Log[k].a) : k \in {j \in 1..Len(Log) : Small(Log[j].a)}}

Init == /\ i = 1
        /\ seen = [k \in Keys |-> [n |-> 0, v |-> {}]]
Next ==
    \/ /\ i <= Len(Log)
       /\ LineOk(Log[i])
       /\ i' = i + 1
       /\ seen' = IF ~Small(Log[i].a) THEN seen
                  ELSE LET l == Log[i] IN
                       [seen EXCEPT ![Key(l.a)] = [n |-> @.n + Len(l.first.lo) + Len(l.second.lo),
                                                   v |-> @.v \cup {l.first.lo[k] : k \in 1..Len(l.first.lo)} \cup {l.second.lo[k] : k \in 1..Len(l.second.lo)}]]
    \/ i > Len(Log) /\ UNCHANGED vars

(* Every value of a small range of integers turns up (the chance that one does
   not is less than 10 * exp(-60) when the sample is this large). *)
Complete == i > Len(Log) => \A k \in Keys : seen[k].n >= 60 * (k[3] - k[2] + 1) => seen[k].v = k[2]..k[3]
=============================================================================
