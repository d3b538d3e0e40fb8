------------------------------ MODULE TraverseModel ------------------------------
(* The design of a traversal: one traverser is carried through a stack of what is still to
   be visited. Values here are trees: a byte, or an object of class "c" or "d" with parts.
   Whatever the value and the set of intercepted classes, the consultations and bytes are
   those of the recursive definition. Flaw selects a broken variant, which must fail. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Depth, Flaw
Byte == {[k |-> "b", p |-> <<>>, x |-> i] : i \in {1, 2}}
RECURSIVE Trees(_)
SeqUpTo2(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
Trees(d) == IF d = 0 THEN Byte ELSE Byte \cup {[k |-> c, p |-> s, x |-> 0] : c \in {"c", "d"}, s \in SeqUpTo2(Trees(d - 1))}

VARIABLES root, stops, todo, seen, bytes, trav
vars == <<root, stops, todo, seen, bytes, trav>>
\* trav: which traverser object is at work (copies have another number)
Init == /\ root \in Trees(Depth) /\ stops \in SUBSET {"c", "d"}
        /\ todo = <<root>> /\ seen = <<>> /\ bytes = <<>> /\ trav = 1

RECURSIVE Walk(_), WalkAll(_), Data(_), DataAll(_)
Walk(t) == IF t.k = "b" THEN <<>> ELSE IF t.k \in stops THEN <<t.k>> ELSE <<t.k>> \o WalkAll(t.p)
WalkAll(s) == IF s = <<>> THEN <<>> ELSE Walk(s[1]) \o WalkAll(Tail(s))
Data(t) == IF t.k = "b" THEN <<t.x>> ELSE IF t.k \in stops THEN <<>> ELSE DataAll(t.p)
DataAll(s) == IF s = <<>> THEN <<>> ELSE Data(s[1]) \o DataAll(Tail(s))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Parts(t) == CASE Flaw = "skiplast" /\ Len(t.p) = 2 -> <<t.p[1]>>
              [] Flaw = "reverse" -> Rev(t.p)
              [] Flaw = "again" /\ Len(t.p) = 2 -> t.p \o <<t.p[2]>>
              [] OTHER -> t.p
Next ==
  /\ todo # <<>>
  /\ LET t == Head(todo) IN
     IF t.k = "b"
     THEN /\ bytes' = Append(bytes, t.x) /\ todo' = Tail(todo) /\ UNCHANGED <<seen, trav>>
     ELSE /\ seen' = (IF Flaw = "twice" /\ t.p = <<>> THEN seen \o <<t.k, t.k>>
                      ELSE IF Flaw = "nested" /\ Len(seen) > 0 /\ t.k = "d" THEN seen ELSE Append(seen, t.k))
          /\ todo' = (IF t.k \in stops /\ Flaw # "descend" THEN <<>> ELSE Parts(t)) \o Tail(todo)
          /\ bytes' = (IF Flaw = "frame" THEN Append(bytes, 9) ELSE bytes)
          /\ trav' = (IF Flaw = "copy" /\ Len(t.p) = 2 THEN trav + 1 ELSE trav)
  /\ UNCHANGED <<root, stops>>
Progress == seen \o WalkAll(todo) = Walk(root) /\ bytes \o DataAll(todo) = Data(root)
OneTraverser == trav = 1
================================================================================
