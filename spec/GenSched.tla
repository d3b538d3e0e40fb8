-------------------------------- MODULE GenSched --------------------------------
(* All schedules of Threads threads of the given length with at most Switches changes of
   thread: which thread makes the next step. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Threads, Length, Switches
VARIABLES sched, sw
Init == sched = <<>> /\ sw = 0
Next == /\ Len(sched) < Length
        /\ \E t \in 1..Threads :
             /\ sched' = Append(sched, t)
             /\ sw' = IF sched = <<>> \/ sched[Len(sched)] = t THEN sw ELSE sw + 1
             /\ sw' <= Switches
Emit == Len(sched) = Length => PrintT("SCHED " \o ToJson(sched))
================================================================================
