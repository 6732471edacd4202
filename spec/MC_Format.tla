------------------------------ MODULE MC_Format ------------------------------
(* Method descriptors built type by type, next to the text that should be    *)
(* shown for them.  Every complete descriptor is printed, to be given to the *)
(* real code.                                                                *)
EXTENDS Format, Json

CONSTANTS MaxArgs, MaxDims, MaxPrinted

VARIABLES desc, args, dims, ret, done
vars == <<desc, args, dims, ret, done>>

Prims == {66, 67, 68, 70, 73, 74, 83, 90}
(* class names that look like something else *)
Names == {T("I"), T("LL"), T("V"), T("a/b"), T("p/Q(x)"), T("L/I)["), T("x/Y$Z"), T("a b"), <<206, 187, 47, 87>>}
GoodNames == {n \in Names : \A i \in 1..Len(n) : n[i] # BRACKET /\ n[i] # SEMI}

TypeOpen == ~done
AddDim == TypeOpen /\ dims < MaxDims /\ dims' = dims + 1 /\ desc' = Append(desc, BRACKET) /\ UNCHANGED <<args, ret, done>>
AddArg == /\ TypeOpen /\ Len(args) < MaxArgs
          /\ \E c \in Prims : /\ desc' = Append(desc, c)
                              /\ args' = Append(args, BaseType(c) \o Dims(dims))
          /\ dims' = 0 /\ UNCHANGED <<ret, done>>
AddClassArg == /\ TypeOpen /\ Len(args) < MaxArgs
               /\ \E n \in GoodNames : /\ desc' = desc \o <<CAPITAL_L>> \o n \o <<SEMI>>
                                       /\ args' = Append(args, Dotted(n) \o Dims(dims))
               /\ dims' = 0 /\ UNCHANGED <<ret, done>>
Return == /\ TypeOpen /\ dims = 0 /\ done' = TRUE
          /\ \/ \E c \in Prims, d \in 0..MaxDims : desc' = desc \o <<RPAR>> \o Rep(<<BRACKET>>, d) \o <<c>> /\ ret' = BaseType(c) \o Dims(d)
             \/ \E n \in GoodNames, d \in 0..MaxDims : desc' = desc \o <<RPAR>> \o Rep(<<BRACKET>>, d) \o <<CAPITAL_L>> \o n \o <<SEMI>> /\ ret' = Dotted(n) \o Dims(d)
             \/ desc' = desc \o <<RPAR, 86>> /\ ret' = T("void")
          /\ UNCHANGED <<args, dims>>

Init == desc = <<LPAR>> /\ args = <<>> /\ dims = 0 /\ ret = <<>> /\ done = FALSE
Next == AddDim \/ AddArg \/ AddClassArg \/ Return
Spec == Init /\ [][Next]_vars

(* parsing the descriptor gives back what it was made of *)
RoundTrip == done => MethodType(desc) = [ok |-> TRUE, args |-> args, ret |-> ret]
(* nothing that is not complete is taken for a descriptor *)
NoPrefix == ~done => ~MethodType(desc).ok
Printed == done /\ Len(args) <= MaxPrinted => PrintT(<<"DESC", ToJson(desc)>>)
=============================================================================
