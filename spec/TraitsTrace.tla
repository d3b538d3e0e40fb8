------------------------------- MODULE TraitsTrace -------------------------------
(* Accepts what the real library says about, and does with, each class: one event per step.
   [e |-> "is", ...] the traits; [e |-> "size"|"pack"|"create"|"unpack"] what ran, in order;
   [e |-> "back", x, y, p, q |-> which members arrived]. *)
EXTENDS Traits, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l
E == Cases[case].ev[l + 1]
C == Cases[case].c
Script == IF Works(C) THEN <<"is", "size", "pack", "create", "unpack", "back", "over">> ELSE <<"is">>
Step ==
  /\ l < Len(Script) /\ E.e = Script[l + 1]
  /\ CASE E.e = "is"  -> E.is = Is(C)
       [] E.e \in {"size", "pack", "unpack"} -> E.log = Calls(C)
       [] E.e = "create" -> E.log = <<Means(C)>>
       [] E.e = "back" -> {E.got[i] : i \in 1..Len(E.got)} = Carried(C)
       \* in place: the same calls, nothing created
       [] E.e = "over" -> E.log = Calls(C) /\ {E.got[i] : i \in 1..Len(E.got)} = Carried(C)
TraceInit == case \in 1..Len(Cases) /\ l = 0
TraceNext == \/ l < Len(Cases[case].ev) /\ Step /\ l' = l + 1 /\ case' = case
             \/ l = Len(Cases[case].ev) /\ l = Len(Script) /\ UNCHANGED <<case, l>>
View == <<case, l>>
================================================================================
