----------------------------- MODULE IsolationModel -----------------------------
(* The design of operations on threads: what an operation works with belongs to it - the
   position in its buffer, the bytes, the mark "the next object is not dispatched virtually"
   that the virtual dispatch leaves for the call it makes - and what is shared (the registries)
   is only ever written with the value it already has. An operation is a walk over a list of
   elements: n a plain field, v a polymorphic object (mark, then the body without virtual
   dispatch), u a nested complete operation, x a failure. Steps of different operations
   interleave; an operation can begin another one in its middle. The history of each is the
   one it has alone. Flaw selects a broken variant. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Flaw, Threads, Ops
VARIABLES stack, todo, shared, seen, done
vars == <<stack, todo, shared, seen, done>>
(* stack[t]: the operations in progress on thread t, innermost last: [els, k, mark, pos, n]
   todo[t]: operations still to run. seen[t]: the history of each, in progress, innermost last *)
Programs == UNION {[1..n -> {"n", "v", "x", "u"}] : n \in 1..2}
Inner == <<"v", "n">>
Fresh(els) == [els |-> els, k |-> 1, mark |-> FALSE, pos |-> 0, mid |-> FALSE]
Init ==
  /\ todo \in [Threads -> [1..Ops -> Programs]]
  /\ stack = [t \in Threads |-> <<>>]
  /\ seen = [t \in Threads |-> <<>>]
  /\ done = [t \in Threads |-> <<>>]
  /\ shared = [mark |-> FALSE, pos |-> 0, lock |-> 0, depth |-> [t \in Threads |-> 0], reg |-> 0]
Top(t) == stack[t][Len(stack[t])]
SetTop(t, o) == [stack EXCEPT ![t][Len(stack[t])] = o]
\* what is the operation's own, or (in a flawed design) is not
Mark(t) == IF Flaw \in {"sharedmark", "threadmark"} THEN (IF Flaw = "sharedmark" THEN shared.mark ELSE shared.depth[t] = 1) ELSE Top(t).mark
Pos(t) == IF Flaw = "sharedpos" THEN shared.pos ELSE Top(t).pos
WithMark(o, b) == IF Flaw \in {"sharedmark", "threadmark"} THEN o ELSE [o EXCEPT !.mark = b]
SharedMark(s, t, b) == IF Flaw = "sharedmark" THEN [s EXCEPT !.mark = b] ELSE IF Flaw = "threadmark" THEN [s EXCEPT !.depth[t] = IF b THEN 1 ELSE 0] ELSE s
Obs(t, what) == [seen EXCEPT ![t][Len(seen[t])] = Append(@, <<what, Pos(t)>>)]
Begin(t) ==
  /\ stack[t] = <<>> /\ todo[t] # <<>>
  /\ Flaw = "lock" => shared.lock = 0
  /\ stack' = [stack EXCEPT ![t] = <<Fresh(Head(todo[t]))>>]
  /\ seen' = [seen EXCEPT ![t] = << <<>> >>]
  /\ shared' = [shared EXCEPT !.pos = 0, !.lock = IF Flaw = "lock" THEN t ELSE 0]
  /\ UNCHANGED <<todo, done>>
Moved(t, n) == IF Flaw = "sharedpos" THEN shared.pos + n ELSE Top(t).pos + n
Step(t) ==
  /\ stack[t] # <<>> /\ Top(t).k <= Len(Top(t).els)
  /\ LET o == Top(t) e == o.els[o.k] IN
     CASE e = "n" -> /\ seen' = Obs(t, "n")
                     /\ stack' = SetTop(t, [o EXCEPT !.k = @ + 1, !.pos = Moved(t, 1)])
                     /\ shared' = [shared EXCEPT !.pos = Moved(t, 1)]
                     /\ UNCHANGED <<todo, done>>
       [] e = "v" /\ ~o.mid ->       \* the virtual dispatch: leaves the mark and calls the body
                     /\ IF Mark(t) /\ Flaw # "" THEN seen' = Obs(t, "static") ELSE seen' = Obs(t, "dispatch")
                     /\ stack' = SetTop(t, WithMark([o EXCEPT !.mid = TRUE], TRUE))
                     /\ shared' = SharedMark(shared, t, TRUE)
                     /\ UNCHANGED <<todo, done>>
       [] e = "v" /\ o.mid ->        \* the body takes the mark away
                     /\ seen' = Obs(t, IF Mark(t) THEN "body" ELSE "again")
                     /\ stack' = SetTop(t, WithMark([o EXCEPT !.mid = FALSE, !.k = @ + 1, !.pos = Moved(t, 2)], FALSE))
                     /\ shared' = [SharedMark(shared, t, FALSE) EXCEPT !.pos = Moved(t, 2)]
                     /\ UNCHANGED <<todo, done>>
       [] e = "u" -> /\ Flaw = "lock" => shared.lock # t
                     /\ stack' = [stack EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].k = o.k + 1], Fresh(Inner))]
                     /\ seen' = [seen EXCEPT ![t] = Append(Obs(t, "user")[t], <<>>)]
                     /\ shared' = [shared EXCEPT !.pos = 0]
                     /\ UNCHANGED <<todo, done>>
       [] OTHER ->                   \* x: fails; in the middle of a dispatch, after leaving the mark
                     /\ seen' = Obs(t, "throw")
                     /\ stack' = SetTop(t, [o EXCEPT !.k = Len(o.els) + 1])
                     /\ shared' = SharedMark(shared, t, TRUE)
                     /\ UNCHANGED <<todo, done>>
End(t) ==
  /\ stack[t] # <<>> /\ Top(t).k > Len(Top(t).els)
  /\ LET h == seen[t][Len(seen[t])] IN
     /\ done' = [done EXCEPT ![t] = Append(@, <<Top(t).els, h>>)]
     /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
     /\ seen' = [seen EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
     /\ shared' = [shared EXCEPT !.lock = IF Len(stack[t]) = 1 THEN 0 ELSE @]
     /\ todo' = IF Len(stack[t]) = 1 THEN [todo EXCEPT ![t] = Tail(@)] ELSE todo
AllOver == \A t \in Threads : stack[t] = <<>> /\ todo[t] = <<>>
Next == (\E t \in Threads : Begin(t) \/ Step(t) \/ End(t)) \/ (AllOver /\ UNCHANGED vars)

RECURSIVE Hist(_, _, _)
Hist(els, k, p) ==
  IF k > Len(els) THEN <<>>
  ELSE CASE els[k] = "n" -> << <<"n", p>> >> \o Hist(els, k + 1, p + 1)
         [] els[k] = "v" -> << <<"dispatch", p>>, <<"body", p>> >> \o Hist(els, k + 1, p + 2)
         [] els[k] = "u" -> << <<"user", p>> >> \o Hist(els, k + 1, p)
         [] OTHER -> << <<"throw", p>> >>
Isolated == \A t \in Threads : \A i \in 1..Len(done[t]) : done[t][i][2] = Hist(done[t][i][1], 1, 0)
================================================================================
