----------------------------- MODULE FootprintTrace -----------------------------
EXTENDS Footprint
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l
E == Cases[case].ev[l + 1]
Scripted == LET o == Cases[case].ops[l + 1] IN E.op = o[1] /\ E.a = o[2] /\ E.b = o[3]
Step == \/ E.op = "mk" /\ Make(E.a, Ids[E.b], E.val)
        \/ E.op = "fp" /\ E.out = "ok" /\ Ask(E.a, E.b, E.n1)
        \/ E.op = "end" /\ UNCHANGED obj
TraceInit == Init /\ case \in 1..Len(Cases) /\ l = 0
TraceNext == \/ l < Len(Cases[case].ops) /\ l < Len(Cases[case].ev) /\ Scripted /\ Step /\ l' = l + 1 /\ case' = case
             \/ l = Len(Cases[case].ops) /\ l = Len(Cases[case].ev) /\ UNCHANGED <<obj, case, l>>
View == <<case, l>>
================================================================================
