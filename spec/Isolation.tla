------------------------------- MODULE Isolation -------------------------------
(* Operations are machines that share nothing. Each has a history of observations it makes
   when it runs alone: what its serialize functions see (which one, in which pass, at which
   position, with which value) and how it ends (outcome, bytes, restored value). A system of
   operations, interleaved in any way, nested in each other and whatever failed before, is
   the product of those machines: each goes through its own history, one step at a time. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
\* running: instance -> [job, at, hist]   (hist: the history of that job alone)
Start(running, i, j, hist) ==
  [k \in DOMAIN running \cup {i} |-> IF k = i THEN [job |-> j, at |-> 0, hist |-> hist] ELSE running[k]]
CanObserve(running, i, j, o) ==
  /\ i \in DOMAIN running /\ running[i].job = j
  /\ running[i].at < Len(running[i].hist)
  /\ running[i].hist[running[i].at + 1] = o
Advance(running, i) == [running EXCEPT ![i].at = @ + 1]
AllDone(running) == \A i \in DOMAIN running : running[i].at = Len(running[i].hist)
================================================================================
