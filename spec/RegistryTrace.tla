----------------------------- MODULE RegistryTrace -----------------------------
(* Accepts recordings of real programs that are behaviours of Registry.
   TRACEFILE: one line per case, [cfg, ops |-> script, ev |-> events]; TABLEFILE: the
   classes, and what each translation unit knows. *)
EXTENDS Registry, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
Table == JsonDeserialize(IOEnv.TABLEFILE)
ChainDef == Table.chain
VARIABLES case, l
E == Cases[case].ev[l + 1]
Op == Cases[case].ops[l + 1]       \* <<operation, unit, type, slot, traversal, hierarchy, transport, value>>
Scripted == E.e = Op[1] /\ E.tu = Op[2] /\ E.t = Op[3] /\ E.s = Op[4] /\ E.j = Op[5] /\ E.h = Op[6] /\ E.m = Op[7]
Known(tu) == LET c == Table.units[tu + 1].classes IN {c[i] : i \in 1..Len(c)}
Hierarchies == {"A", "B", "C"}
Ok == E.out = "ok"
Step ==
  /\ Scripted
  /\ \/ E.e = "id" /\ Ok /\ TypeId(E.t, E.id, E.nm)
     \/ E.e = "many" /\ Ok /\ Len(E.ids) = Table.units[E.tu + 1].count /\ Many(Table.units[E.tu + 1].first, E.ids)
     \/ E.e = "cls" /\ Ok /\ ClassId(E.nm, E.id)
     \/ E.e = "ser" /\ Ok /\ Write(E.t, E.s, E.val)
     \/ E.e = "de" /\ Ok /\ Read(E.t, E.s, E.val)
     \/ E.e = "de" /\ E.out = "serr" /\ Cases[case].cfg = "ec" /\ Refuse(E.t, E.s)
     \/ E.e = "ps" /\ Ok /\ E.val = Op[8] /\ PWrite(E.h, E.s, E.val, E.vis)
     \/ E.e \in {"pd", "pi"} /\ Ok /\ PRead(E.h, E.s, E.val, E.vis)
     \/ E.e = "in" /\ Ok /\ Instantiate(E.j, Known(E.tu))
     \/ E.e = "tr" /\ Ok /\ E.val = Op[8] /\ Traverse(E.j, E.h, E.val, E.vis, E.d)
TraceInit == Init /\ case \in 1..Len(Cases) /\ l = 0
TraceNext ==
  \/ l < Len(Cases[case].ops) /\ l < Len(Cases[case].ev) /\ Step /\ l' = l + 1 /\ case' = case
  \/ l = Len(Cases[case].ops) /\ l + 1 = Len(Cases[case].ev) /\ E.e = "end" /\ UNCHANGED <<vars, case, l>>
View == <<case, l>>
================================================================================
