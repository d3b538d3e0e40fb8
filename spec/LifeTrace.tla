------------------------------- MODULE LifeTrace -------------------------------
(* Accepts recordings of the real library that are behaviours of Life.
   TRACEFILE: one line per case, [ops |-> script, ev |-> recorded events]; one event per step. *)
EXTENDS Life
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l, o
tvars == <<vars, case, l, o>>

E == Cases[case].ev[l + 1]
Op == Cases[case].ops[o + 1]
Scripted == E.h = Op[1] /\ E.a = Op[2] /\ E.b = Op[3]
Y(how) == IF how = "usr" THEN "" ELSE "07000000"     \* what every constructor sets y to

Step ==
  \/ E.e = "op" /\ o < Len(Cases[case].ops) /\ Scripted /\ Begin(E.h, E.a, E.b, Op[4]) /\ o' = o + 1
  \/ /\ o' = o
     /\ \/ E.e = "new" /\ New(E.a, E.k, E.h, Y(E.h))
        \/ E.e = "cp" /\ CopyOf(E.a, E.b)
        \/ E.e = "as" /\ Assign(E.a, E.b)
        \/ E.e = "del" /\ Destroy(E.a)
        \/ E.e = "vis" /\ Visit(E.a, E.b, CASE E.h = "0" -> 0 [] E.h = "1" -> 1 [] E.h = "2" -> 2 [] OTHER -> 3)
        \/ E.e = "called" /\ Called
        \/ E.e = "misplaced" /\ Misplaced
        \/ E.e = "fin" /\ Finish(E.a, E.b)
        \/ /\ E.e = "end"
           /\ IF E.h = "ok"
              THEN \/ EndMk(E.val, E.b) \/ EndRm(E.b) \/ EndWrite(E.val, E.a, E.b) \/ EndOther \/ EndRound(E.val, E.b)
                   \/ EndRead(E.val, E.b, TRUE) \/ EndRead(E.val, E.b, FALSE)
              ELSE EndFail(E.val, E.a, E.b)

TraceInit == Init /\ case \in 1..Len(Cases) /\ l = 0 /\ o = 0
TraceNext ==
  \/ l < Len(Cases[case].ev) /\ Step /\ l' = l + 1 /\ case' = case
  \/ l = Len(Cases[case].ev) /\ o = Len(Cases[case].ops) /\ UNCHANGED tvars
View == <<case, l>>
================================================================================
