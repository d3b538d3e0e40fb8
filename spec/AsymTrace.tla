-------------------------------- MODULE AsymTrace --------------------------------
(* Accepts recordings of the real library that are behaviours of Asym. *)
EXTENDS Asym, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l
tvars == <<vars, case, l>>
E == Cases[case].ev[l + 1]
O == Cases[case].ops[l + 1]
Scripted == E.op = O[1] /\ E.a = O[2] /\ E.b = O[3]
Kind(op) == CASE op \in {"se", "su", "dm", "di", "du"} -> "m" [] op \in {"wf", "rf", "ri"} -> "f" [] OTHER -> "s"
Step ==
  \/ E.op = "mk" /\ Make(E.a, E.b, E.val)
  \/ E.op = "pg" /\ Program(O[5], O[6], O[7])
  \/ E.op = "gs" /\ GetSize(E.a, E.out)
  \/ E.op = "ns" /\ UNCHANGED vars
  \/ E.op \in {"se", "su", "wf", "ws"} /\ Write(E.a, <<Kind(E.op), E.b>>, E.out, E.d = "overrun")
  \/ E.op \in {"dm", "du", "rf", "rs", "di", "ri", "rt"} /\ Read(<<Kind(E.op), E.a>>, E.b, O[4], E.out, E.val)
  \/ E.op = "end" /\ UNCHANGED vars
TraceInit == Init /\ case \in 1..Len(Cases) /\ l = 0 /\ ec = (Cases[case].cfg = "ec")
TraceNext ==
  \/ /\ l < Len(Cases[case].ops) /\ l < Len(Cases[case].ev)
     /\ Scripted /\ Step
     /\ l' = l + 1 /\ case' = case
  \/ l = Len(Cases[case].ops) /\ l = Len(Cases[case].ev) /\ UNCHANGED tvars
View == <<case, l>>
================================================================================
