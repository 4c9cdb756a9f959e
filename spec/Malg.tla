-------------------------------- MODULE Malg --------------------------------
(* The whole library: any sequence of the calls named in Acts.  Acts is a set
   of <<name, k>>; the ks only weigh the random choice of the simulation.   *)
EXTENDS OpsRand

CONSTANT Acts

Step(name) ==
  CASE name = "new"         -> ActNew
    [] name = "newempty"    -> ActNewEmpty
    [] name = "newnone"     -> ActNewNone
    [] name = "newv"        -> ActNewV
    [] name = "drop"        -> ActDrop
    [] name = "copyctor"    -> ActCopyCtor
    [] name = "movector"    -> ActMoveCtor
    [] name = "assign"      -> ActAssign
    [] name = "assignown"   -> ActAssignOwnView
    [] name = "assignempty" -> ActAssignEmpty
    [] name = "moveassign"  -> ActMoveAssign
    [] name = "assignlist"  -> ActAssignList
    [] name = "swap"        -> ActSwap
    [] name = "copyctorv"   -> ActCopyCtorV
    [] name = "movectorv"   -> ActMoveCtorV
    [] name = "assignv"     -> ActAssignV
    [] name = "moveassignv" -> ActMoveAssignV
    [] name = "set"         -> ActSet
    [] name = "fill"        -> ActFill
    [] name = "read"        -> ActRead
    [] name = "reshape"     -> ActReshape
    [] name = "resize"      -> ActResize
    [] name = "resizev"     -> ActResizeV
    [] name = "resizelikev" -> ActResizeLikeV
    [] name = "view"        -> ActView
    [] name = "cofview"     -> ActCofView
    [] name = "vassign"     -> ActVAssign
    [] name = "vassignlist" -> ActVAssignList
    [] name = "mbin"        -> ActMBin
    [] name = "minp"        -> ActMInp
    [] name = "mscal"       -> ActMScal
    [] name = "mscalinp"    -> ActMScalInp
    [] name = "vbin"        -> ActVBin
    [] name = "vinp"        -> ActVInp
    [] name = "vscal"       -> ActVScal
    [] name = "vscalinp"    -> ActVScalInp
    [] name = "sbin"        -> ActSBin
    [] name = "mul"         -> ActMul
    [] name = "mulinp"      -> ActMulInp
    [] name = "mulv"        -> ActMulV
    [] name = "dot"         -> ActDot
    [] name = "powm"        -> ActPow
    [] name = "transpose"   -> ActTranspose
    [] name = "cmpmm"       -> ActCmpMM
    [] name = "cmpvv"       -> ActCmpVV
    [] name = "cmpms"       -> ActCmpMS
    [] name = "cmpvs"       -> ActCmpVS
    [] name = "allany"      -> ActAllAny
    [] name = "allclose"    -> ActAllClose
    [] name = "compare"     -> ActCompare
    [] name = "settol"      -> ActSetTol
    [] name = "gettol"      -> ActGetTol
    [] name = "feq"         -> ActFeq
    [] name = "stack"       -> ActStack
    [] name = "stackv"      -> ActStackV
    [] name = "concat"      -> ActConcat
    [] name = "extract"     -> ActExtract
    [] name = "extractline" -> ActExtractLine
    [] name = "swaplines"   -> ActSwapLines
    [] name = "remove"      -> ActRemove
    [] name = "gen"         -> ActGen
    [] name = "mtov"        -> ActMtoV
    [] name = "vtom"        -> ActVtoM
    [] name = "space"       -> ActSpace
    [] name = "flatnonzero" -> ActFlatNonZero
    [] name = "find"        -> ActFind
    [] name = "sum"         -> ActSum
    [] name = "trace"       -> ActTrace
    [] name = "minmaxv"     -> ActMinMaxV
    [] name = "minmaxm"     -> ActMinMaxM
    [] name = "accumulate"  -> ActAccumulate
    [] name = "inner"       -> ActInner
    [] name = "misc"        -> ActMisc
    [] name = "normv"       -> ActNormV
    [] name = "normm"       -> ActNormM
    [] name = "collen"      -> ActColLen
    [] name = "log2ceil"    -> ActLog2
    [] name = "pred"        -> ActPred
    [] name = "newstruct"   -> ActNewStruct
    [] name = "funm"        -> ActFunM
    [] name = "funv"        -> ActFunV
    [] name = "binm"        -> ActBinM
    [] name = "binv"        -> ActBinV
    [] name = "det"         -> ActDet
    [] name = "adj"         -> ActAdj
    [] name = "cof"         -> ActCof
    [] name = "inv"         -> ActInv
    [] name = "div"         -> ActDiv
    [] name = "lu"          -> ActLU
    [] name = "qr"          -> ActQr
    [] name = "solve"       -> ActSolve
    [] name = "expe"        -> ActExpE
    [] name = "expm"        -> ActExpm
    [] name = "expmbad"     -> ActExpmBad
    [] name = "c2d"         -> ActC2d
    [] name = "simstep"     -> ActSimStep
    [] name = "simulate"    -> ActSimulate
    [] name = "syszero"     -> ActZeros
    [] name = "blocks"      -> ActBlocks
    [] name = "polyv"       -> ActPolyV
    [] name = "polym"       -> ActPolyM
    [] name = "polyreduce"  -> ActPolyReduce
    [] name = "acker"       -> ActAcker
    [] name = "hess"        -> ActHess
    [] name = "givens"      -> ActGivens
    [] name = "schur"       -> ActSchur
    [] name = "eigvec"      -> ActEigVec
    [] name = "text"        -> ActText
    [] name = "textsys"     -> ActTextSys
    [] name = "textrange"   -> ActTextRange
    [] name = "file"        -> ActFile
    [] name = "rand"        -> ActRand

(* Calls that cannot happen in the present state need not be chosen. *)
WritableViews == {x \in Views(store) : Writable(store, x)}
Ready(name) ==
    CASE name \in {"assignempty", "assignlist", "swap"} -> Mats(store) # {}
      [] name \in {"drop"} -> Live(store) \ Refd(store) # {}
      [] name \in {"resizelikev"} -> Vecs(store) # {}
      [] name \in {"assignown"} -> Views(store) # {}
      [] name \in {"vassign", "vassignlist"} -> NonEmpty(store, WritableViews) # {}
      [] name \in {"view", "cofview"} -> FreeW(store) # {}
      [] OTHER -> TRUE

Next == n >= 0 /\ \E a \in Pick({b \in Acts : Ready(b[1])}) : Step(a[1])
Spec == Init /\ [][Next]_vars
=============================================================================
