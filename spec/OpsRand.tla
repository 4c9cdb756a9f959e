------------------------------- MODULE OpsRand --------------------------------
(* Random matrices and vectors.  The values cannot be predicted: the state
   machine chooses the calls, and what the library returned is recorded and
   checked against RandOk by RandTrace, line by line.                       *)
EXTENDS OpsIo

(* Ranges of integer and of real elements, the bounds as scalars. *)
IntRanges == {<<0, 1>>, <<1, 6>>, <<-3, 3>>, <<5, 5>>, <<-7, -4>>, <<2, 4>>, <<-1, 0>>, <<0, 255>>, <<-2000000000, 2000000000>>, <<-100000, -5>>}
RealRanges == {<<Zero, One>>, <<Int2Q(-1), One>>, <<Q(1, 0, 2), Q(3, 0, 4)>>, <<Q(-9, 0, 4), Q(-7, 0, 4)>>, <<Int2Q(3), Int2Q(3)>>, <<Q(-5, 0, 8), Q(-5, 0, 8)>>,
               <<Int2Q(2), Int2Q(9)>>, <<Int2Q(-6), Int2Q(-2)>>, <<Int2Q(-100), Int2Q(100)>>, <<Int2Q(1000), Int2Q(1001)>>, <<Zero, Zero>>}
ActRand ==
    \E t \in Pick(Types), vec \in Coin(45) :
    \E r \in (IF vec THEN {1} ELSE Bias(96, Dims, {0})) :
    \E c \in (IF vec THEN Pick(VDims) ELSE Bias(96, Dims, {0})) :
    \E b \in (IF t = "i" THEN {<<Int2Q(p[1]), Int2Q(p[2])>> : p \in Pick(IntRanges)} ELSE Pick(RealRanges)) :
    \E tb \in Pick(IF t = "i" \/ (IsInt(b[1]) /\ IsInt(b[2])) THEN {"i", BaseOf(t)} ELSE {"d", BaseOf(t)}) :
        Do([op |-> "rand", vec |-> vec, t |-> t, r |-> r, c |-> c, lo |-> b[1], hi |-> b[2], tb |-> tb], store, Ret(store, None))
=============================================================================
