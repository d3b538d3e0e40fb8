------------------------------- MODULE StoreTrace -------------------------------
(* Accepts recordings of the real library that are behaviours of Store.
   TRACEFILE: one line per case, [ops |-> script, ev |-> recorded events].
   A recording that is no behaviour makes its case stop early: a deadlock. *)
EXTENDS Store, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l
tvars == <<vars, case, l>>

E == Cases[case].ev[l + 1]
Scripted == \* the event is the next operation of the script
  LET o == Cases[case].ops[l + 1] IN E.op = o[1] /\ E.a = o[2] /\ E.b = o[3]
Ty == Cases[case].ops[l + 1][4]
Ok == E.out = "ok"

Step ==
  \/ E.op = "mk" /\ Make(E.a, E.b, E.val)
  \/ E.op = "rm" /\ Remove(E.a)
  \/ E.op = "gs" /\ Ok /\ GetSize(E.a, E.n1, E.val)
  \/ E.op = "fp" /\ Ok /\ Footprint(E.a, E.b, E.n1, E.val)
  \/ E.op \in {"se", "su", "sn"} /\ Ok /\ Serialize(E.op, E.a, E.b, E.n1, E.d, E.n2, E.n3, E.what, E.val)
  \/ E.op = "sr" /\ Ok /\ Roundtrip(E.a, E.b, E.n1, E.val)
  \/ E.op = "wf" /\ Ok /\ WriteFile(E.a, E.b, E.n1, E.d, E.val)
  \/ E.op = "ns" /\ NewStream(E.a)
  \/ E.op = "ws" /\ Ok /\ WriteStream(E.a, E.b, E.n1, E.n2 = 1, E.d, E.val)
  \/ E.op = "as" /\ AppendJunk(E.a, E.b)
  \/ E.op = "ks" /\ Skip(E.a, E.b)
  \/ E.op = "dm" /\ Ok /\ ReadImg(E.a, E.b, Ty, FALSE, E.n2 = 1, E.val)
  \/ E.op = "du" /\ Ok /\ (On("C01") => E.n1 = 1) /\ ReadImg(E.a, E.b, Ty, FALSE, E.n2 = 1, E.val)
  \/ E.op = "di" /\ Ok /\ ReadImg(E.a, E.b, Ty, TRUE, E.n2 = 1, E.val)
  \/ E.op = "rf" /\ Ok /\ ReadFile(E.a, E.b, Ty, FALSE, E.n2 = 1, E.val)
  \/ E.op = "ri" /\ Ok /\ ReadFile(E.a, E.b, Ty, TRUE, E.n2 = 1, E.val)
  \/ E.op = "rs" /\ Ok /\ ReadStream(E.a, E.b, Ty, FALSE, E.n1, E.n2 = 1, E.val)
  \/ E.op = "rt" /\ Ok /\ ReadStream(E.a, E.b, Ty, TRUE, E.n1, E.n2 = 1, E.val)
  \/ E.op = "rs" /\ ~Ok /\ E.val.t = "" /\ ReadStreamShort(E.a, E.b, Ty, FALSE)
  \/ E.op = "rt" /\ ~Ok /\ ReadStreamShort(E.a, E.b, Ty, TRUE)
  \/ E.op = "cp" /\ Copy(SubSeq(E.what, 1, 1), E.a, SubSeq(E.what, 2, 2), E.b, E.n1)
  \/ E.op = "tr" /\ TruncateStream(E.a, E.n1)
  \/ E.op = "mx" /\ LET o == Cases[case].ops[l + 1] IN ReadAsEach(Content(E.d, E.a), o[5], o[6], E.n1, E.n2, E.val.k, E.n3)
  \/ E.op = "jb" /\ Spoil(E.a, E.n1 = 1)
  \/ E.op = "tn" /\ ReadEachCut(Content(E.d, E.a), Cases[case].ops[l + 1][5], E.n1, E.n2, E.val.k, E.n3)
  \/ E.op = "pg" /\ UNCHANGED vars
  \/ E.op = "kw" /\ WriteKilled(E.a, E.b, E.n1, E.n2, E.d)
  \/ E.op = "kr" /\ ReadLeft(E.a, Ty, E.out, E.val)
  \/ E.op = "hg" /\ Ok /\ HugeObject(E.val.k, E.val.n = 1)
  \/ E.op = "end" /\ UNCHANGED vars

TraceInit == Init /\ case \in 1..Len(Cases) /\ l = 0
TraceNext ==
  \/ /\ l < Len(Cases[case].ops) /\ l < Len(Cases[case].ev)
     /\ Scripted /\ Step
     /\ l' = l + 1 /\ case' = case
  \/ l = Len(Cases[case].ops) /\ l = Len(Cases[case].ev) /\ UNCHANGED tvars
\* large values are compared when an operation is explained; the position identifies a state
View == <<case, l>>
================================================================================
