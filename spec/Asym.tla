---------------------------------- MODULE Asym ----------------------------------
(* User serialize functions that visit different fields in different passes (C10).

   Objects contain instances of a class whose serialize function is a program per pass; the
   programs of the victim instance are (S, P, U), all other instances are consistent. An
   operation that writes must be refused if the bytes differ from what was sized, an
   operation that reads (with error checking) if the fields differ from what was written,
   and nothing else may be refused. *)
EXTENDS Values

\* fields: a, b one byte; c, d four; f a class with a four-byte field; 2, 3 arrays of that
\* many two-byte elements; h eight bytes; e a string
Count(p, l) == Cardinality({i \in 1..Len(p) : p[i] = l})
RECURSIVE Sum(_, _)
Sum(p, w) == IF p = <<>> THEN 0 ELSE w[p[1]] + Sum(Tail(p), w)
Data  == [a |-> 1, b |-> 1, c |-> 4, d |-> 4, e |-> 0, f |-> 4, h |-> 8] @@ ("2" :> 4) @@ ("3" :> 6)
Frame == [a |-> 12, b |-> 12, c |-> 12, d |-> 12, e |-> 0, f |-> 24, h |-> 12] @@ ("2" :> 12) @@ ("3" :> 12)
Both  == [l \in DOMAIN Data |-> Data[l] + Frame[l]]
\* whatever the framing of the format, p writes more bytes than q
More(p, q) == LET e == Count(p, "e") - Count(q, "e")
                  x == Sum(p, Data) - Sum(q, Data)
                  y == Sum(p, Both) - Sum(q, Both)
              IN (e > 0 /\ x >= 0 /\ y >= 0) \/ (e = 0 /\ x > 0 /\ y > 0)
MustRefuse(s, p) == More(s, p) \/ More(p, s)

VARIABLES obj, held, pg, ec
vars == <<obj, held, pg, ec>>
Put(f, x, y) == (x :> y) @@ f
None == [S |-> <<>>, P |-> <<>>, U |-> <<>>]
Init == obj = [x \in {} |-> 0] /\ held = [x \in {} |-> 0] /\ pg = None

Make(s, ty, v) == obj' = Put(obj, s, [ty |-> ty, val |-> v]) /\ UNCHANGED <<held, pg, ec>>
Program(S, P, U) == pg' = [S |-> S, P |-> P, U |-> U] /\ UNCHANGED <<obj, held, ec>>
GetSize(s, out) == out = "ok" /\ UNCHANGED vars

\* place: <<kind, slot>>
Write(s, place, out, overrun) ==
  /\ ~overrun
  /\ MustRefuse(pg.S, pg.P) => out = "serr"
  /\ pg.S = pg.P => out = "ok"
  /\ out \in {"ok", "serr"}
  /\ held' = IF out = "ok" THEN Put(held, place, [ty |-> obj[s].ty, val |-> obj[s].val, pg |-> pg]) ELSE held
  /\ UNCHANGED <<obj, pg, ec>>

Read(place, s, ty, out, r) ==
  /\ place \in DOMAIN held /\ held[place].ty = ty
  /\ LET w == held[place] IN
       /\ w.pg.P = pg.U => out = "ok" /\ SameValue(w.val, r)
       /\ ec /\ w.pg.P # pg.U => out = "serr"
  /\ out \in {"ok", "serr"}
  /\ obj' = IF out = "ok" THEN Put(obj, s, [ty |-> ty, val |-> r]) ELSE [x \in DOMAIN obj \ {s} |-> obj[x]]
  /\ UNCHANGED <<held, pg, ec>>
================================================================================
