------------------------------- MODULE TraitsModel -------------------------------
(* A class gains declarations one at a time; at any moment an object of it may be written
   and read back. The steps are those of the library's selection: bytes, else member, else
   free function; tagged constructor, else reconstruct, else default constructor. *)
EXTENDS Traits
CONSTANTS MaxDecl, Flaw
VARIABLES c, phase, log, made
vars == <<c, phase, log, made>>
Init == c = Plain /\ phase = "idle" /\ log = <<>> /\ made = <<>>
Declare == /\ phase = "idle" /\ Declared(c) < MaxDecl
           /\ \E d \in Names : c[d] = Dims[d][1] /\ \E v \in Vals(d) \ {Dims[d][1]} : c' = [c EXCEPT ![d] = v]
           /\ UNCHANGED <<phase, log, made>>
Visit(x) == IF (IF Flaw = "bytes" THEN HasSer(x) ELSE ~Copyable(x)) /\ x.ser # "mac"
            THEN IF x.ser = "free" THEN <<"free">> ELSE <<"ser">> \o (IF x.split = "both" THEN <<"par", "this">> ELSE <<>>)
            ELSE <<>>
Create(x) == IF Flaw = "order" /\ Rebuilt(x) THEN "rec"
             ELSE IF x.tag = "yes" THEN "tag" ELSE IF Rebuilt(x) THEN "rec" ELSE "def"
Next ==
  \/ Declare
  \/ phase = "idle" /\ Works(c) /\ phase' = "size" /\ log' = <<>> /\ made' = <<>> /\ c' = c
  \/ phase = "size" /\ phase' = "pack" /\ log' = Append(log, Visit(c)) /\ UNCHANGED <<c, made>>
  \/ phase = "pack" /\ phase' = "create" /\ log' = Append(log, Visit(c)) /\ UNCHANGED <<c, made>>
  \/ phase = "create" /\ phase' = "unpack" /\ made' = Append(made, Create(c)) /\ UNCHANGED <<c, log>>
  \/ phase = "unpack" /\ phase' = "done" /\ log' = Append(log, Visit(c)) /\ UNCHANGED <<c, made>>
  \/ phase = "done" /\ phase' = "idle" /\ log' = <<>> /\ made' = <<>> /\ c' = c
Agrees == phase = "done" => log = <<Calls(c), Calls(c), Calls(c)>> /\ made = <<Means(c)>>
\* what is called serializable works, and what works has something to do it with
Sound == /\ Serializable(c) => Works(c)
         /\ Works(c) => (Calls(c) # <<>> \/ Carried(c) = {"x", "y", "p", "q"})
         /\ Works(c) => (Means(c) = "def" => c.dfl = "yes")
\* a further way to be created or written never takes anything away
More(d, x, y) == x[d] = Dims[d][1] /\ y[d] # x[d]
Monotone == [][(\A d \in {"dfl"} : c'[d] = c[d]) => (Serializable(c) => Serializable(c')) /\ (Copyable(c) => Copyable(c')) /\ (Works(c) => Works(c'))]_c
================================================================================
