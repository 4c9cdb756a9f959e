-------------------------------- MODULE Props --------------------------------
(* The calls each property is about, and the laws checked on the
   specification itself.                                                    *)
EXTENDS Malg

W(k, names) == names \X (1..k)

Acts_C01 == W(3, {"new", "newv", "copyctor", "assign", "movector", "moveassign", "copyctorv", "assignv", "movectorv", "moveassignv"})
       \cup W(2, {"newempty", "assignown", "assignempty", "assignlist", "swap", "set", "fill", "resize", "view"})
       \cup W(1, {"drop", "read", "reshape", "resizev", "resizelikev", "cofview"})

Acts_C02 == W(5, {"reshape", "resize"})
       \cup W(3, {"resizev"})
       \cup W(2, {"new", "resizelikev", "set", "fill", "read", "view"})
       \cup W(1, {"newv", "newempty", "assign", "moveassign", "cofview", "copyctor", "movector", "drop"})

(* Everything. *)
Acts_C03 == W(3, {"new", "newv", "drop", "copyctor", "movector", "assign", "moveassign", "resize", "resizev", "view", 
                  "cofview", "reshape", "swap"})
       \cup W(1, {"newempty", "newnone", "assignown", "assignempty", "assignlist", "copyctorv", "movectorv", "assignv", "moveassignv", 
                  "set", "fill", "read", "resizelikev", "vassign", "vassignlist", "mbin", "minp", "mscal", "mscalinp", "vbin", 
                  "vinp", "vscal", "vscalinp", "sbin", "mul", "mulinp", "mulv", "dot", "powm", "transpose", "cmpmm", "cmpvv", 
                  "cmpms", "cmpvs", "allany", "allclose", "compare", "gettol", "feq", "stack", "stackv", "concat", 
                  "extract", "extractline", "swaplines", "remove", "gen", "mtov", "vtom", "space", "flatnonzero", "find", 
                  "sum", "trace", "minmaxv", "minmaxm", "accumulate", "inner", "misc", "normv", "normm", "collen", "log2ceil", 
                  "pred", "newstruct", "funm", "funv", "binm", "binv", "det", "adj", "cof", "inv", "div", "lu", "qr", "solve", 
                  "expe", "expm", "expmbad", "c2d", "simstep", "simulate", "syszero", "blocks", "polyv", "polym", "polyreduce", 
                  "acker", "hess", "givens", "schur", "eigvec", "text", "textsys", "textrange", "rand"}) \cup W(8, {"file"})

Acts_C04 == W(4, {"set", "fill", "read"})
       \cup W(2, {"new", "view", "newv"})
       \cup W(1, {"cofview", "reshape", "resize", "resizev", "assign", "moveassign", "newempty"})

Acts_C05 == W(6, {"view"})
       \cup W(3, {"vassign", "vassignlist", "set", "fill"})
       \cup W(2, {"new", "read", "copyctor", "assign"})
       \cup W(1, {"cofview", "resize", "reshape", "moveassign", "assignown", "swap", "drop"})

Acts_C06 == W(6, {"cofview"})
       \cup W(3, {"vassign", "set", "fill", "read"})
       \cup W(2, {"new", "copyctor", "assign", "view"})
       \cup W(1, {"resize", "reshape", "moveassign", "assignown", "swap", "drop"})
Acts_C07 == W(5, {"mbin", "minp", "mscal", "mscalinp"})
       \cup W(3, {"view"}) \cup W(2, {"cofview"})
       \cup W(1, {"new", "set", "resize", "reshape", "assign", "moveassign", "newempty"})

Acts_C08 == W(5, {"vbin", "vinp", "vscal", "vscalinp"})
       \cup W(1, {"newv", "set", "fill", "resizev", "assignv", "moveassignv"})

(* Calls that relate shapes. *)
Acts_C09 == W(2, {"mbin", "minp", "vbin", "vinp", "mul", "mulinp", "mulv", "dot", "cmpmm", "cmpvv", "allclose", "compare", "stack", "stackv",
                  "extract", "extractline", "remove", "reshape", "binm", "binv", "solve", "div", "blocks", "powm", "polym", "expmbad"})
       \cup W(1, {"det", "adj", "inv", "lu", "gen", "view", "cofview", "new", "newempty", "newnone", "resize", "assign", "moveassign", "set"})

Acts_C10 == W(4, {"mul", "mulinp", "mulv", "transpose"}) \cup W(3, {"powm"}) \cup W(2, {"dot", "view", "new"})
       \cup W(1, {"cofview", "newempty", "set", "assign", "moveassign"})
Laws_C10 == [][LawProd]_vars

Acts_C11 == W(4, {"cmpmm"}) \cup W(3, {"cmpvv", "cmpms", "cmpvs", "settol"}) \cup W(2, {"feq", "allany", "allclose", "compare"})
       \cup W(1, {"gettol", "view", "cofview", "new", "newv", "set", "fill", "assign"})
Laws_C11 == [][LawCmp]_vars

Acts_C12 == W(4, {"stack", "extract", "extractline", "swaplines", "remove"}) \cup W(3, {"stackv"}) \cup W(2, {"concat", "view"})
       \cup W(1, {"new", "newempty", "newv", "set", "cofview", "resize", "assign", "moveassign"})
Laws_C12 == [][LawStruct]_vars
Acts_C13 == W(4, {"gen", "mtov", "vtom", "space"}) \cup W(1, {"new", "newv", "newempty", "view", "cofview", "resize", "resizev", "set", "fill"})
Laws_C13 == [][LawGen]_vars
Acts_C14 == W(4, {"find", "minmaxv", "minmaxm"}) \cup W(3, {"flatnonzero", "sum", "trace"}) \cup W(2, {"accumulate", "inner", "newempty"}) \cup W(1, {"misc", "new", "newv", "view", "cofview", "set", "resize"})
Laws_C14 == [][LawFind]_vars
Acts_C15 == W(4, {"normv", "normm", "collen"}) \cup W(3, {"log2ceil"}) \cup W(1, {"new", "newv", "newempty", "view", "cofview", "set", "fill", "resize", "resizev"})
Acts_C16 == W(8, {"pred"}) \cup W(3, {"newstruct", "view"}) \cup W(1, {"newempty", "cofview", "set", "resize", "reshape", "drop"})
Laws_C16 == [][LawPred]_vars
Acts_C31 == W(4, {"funm", "binm"}) \cup W(3, {"funv", "binv"}) \cup W(1, {"new", "newv", "newempty", "view", "cofview", "set", "fill", "resize"})
Laws_C31 == [][LawFun]_vars

Acts_C17 == W(8, {"det"}) \cup W(2, {"view"}) \cup W(1, {"newempty", "cofview", "swaplines", "set", "adj", "transpose"})
Laws_C17 == [][LawDet]_vars
Acts_C18 == W(6, {"inv", "adj", "div"}) \cup W(4, {"cof"}) \cup W(2, {"view"}) \cup W(1, {"newempty", "cofview", "set"})
Laws_C18 == [][LawInv]_vars
Acts_C19 == W(8, {"lu"}) \cup W(1, {"view", "cofview", "set"})
Laws_C19 == [][LawLU]_vars
Acts_C20 == W(8, {"qr", "solve"}) \cup W(1, {"new", "newv", "set", "resize"})
Laws_C20 == [][LawSolve]_vars
Acts_C21 == W(8, {"expm"}) \cup W(6, {"expe"}) \cup W(1, {"expmbad", "new", "view", "cofview", "set"})
Laws_C21 == [][LawExp]_vars

Acts_C22 == W(4, {"c2d"}) \cup W(1, {"syszero"})
Acts_C23 == W(2, {"simstep"}) \cup W(3, {"simulate"})
Laws_C23 == [][LawSim]_vars
Acts_C24 == W(8, {"blocks"}) \cup W(1, {"new", "view", "cofview", "set"})
Laws_C24 == [][LawCtl]_vars
Acts_C25 == W(4, {"acker", "polym"}) \cup W(3, {"polyv"}) \cup W(2, {"polyreduce"}) \cup W(1, {"view", "cofview", "set", "newempty"})
Laws_C25 == [][LawPoly]_vars

Acts_C26 == W(2, {"hess", "givens", "schur", "eigvec"}) \cup W(1, {"set"})
Laws_C26 == [][LawEig]_vars

Acts_C27 == W(20, {"file"}) \cup W(1, {"view", "cofview", "set", "fill", "drop", "resize", "swap"})
Acts_C28 == W(8, {"text"}) \cup W(1, {"textsys", "textrange", "view", "cofview", "set", "fill", "resize", "newempty", "new"})
Laws_C28 == [][LawText]_vars

Acts_C29 == W(1, {"sbin"})
Acts_C30 == W(1, {"rand"})
=============================================================================
