----------------------------- MODULE IsolationTrace -----------------------------
(* Accepts recordings that are behaviours of the product of independent operations.
   TRACEFILE: per case [alone: <<[j, hist]...>>, want, ev]; an event begins (b) an instance of
   a job, is an observation (v) or the end (e) of one; want: how many have to be run (0: the
   free-running threads report each different history once, and their number). *)
EXTENDS Isolation, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l, run
tvars == <<case, l, run>>
C == Cases[case]
E == C.ev[l + 1]
Alone(j) == LET S == {x \in 1..Len(C.alone) : C.alone[x].j = j} IN IF S = {} THEN <<>> ELSE C.alone[CHOOSE x \in S : TRUE].hist
TraceInit == case \in 1..Len(Cases) /\ l = 0 /\ run = <<>>
TraceNext ==
  \/ /\ l < Len(C.ev) /\ l' = l + 1 /\ case' = case
     /\ \/ E.e = "b" /\ E.i \notin DOMAIN run /\ Alone(E.j) # <<>> /\ run' = Start(run, E.i, E.j, Alone(E.j))
        \/ E.e \in {"v", "e"} /\ CanObserve(run, E.i, E.j, E.s) /\ run' = Advance(run, E.i)
        \/ E.e = "n" /\ E.s = C.total /\ run' = run
  \/ /\ l = Len(C.ev) /\ AllDone(run) /\ Cardinality(DOMAIN run) >= C.want
     /\ UNCHANGED tvars
View == <<case, l>>
================================================================================
