---------------------------------- MODULE Tape ----------------------------------
(* The image format and the passes over it, byte by byte.

   An image is a sequence of bytes. Every object that is checked is framed by a header (the
   identity of its type) and a trailer (its size); with error checking built in (EC) that is
   every object, otherwise only the top-level one. What an object contributes between the
   two is decided by its serialize function, which in this model is a program per pass: the
   sequence of fields it visits when sizing (S), packing (P) and unpacking (U).

   One behaviour: an object is sized, a file of that size is created (over whatever was
   there), packed byte by byte, possibly killed in the middle or cut short afterwards, and
   read back as some type. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS EC, Letters, MaxProg, Victims
VARIABLES ty, b, spu, n, file, pos, phase, res
vars == <<ty, b, spu, n, file, pos, phase, res>>

-------------------------------------------------------------------------------
(* Types: leaves a, b (one byte, distinct types), c (two bytes); classes made of them. *)
Leaves  == {"a", "b", "c"}
Width(t) == IF t = "c" THEN 2 ELSE 1
Classes == {"K0", "Ka", "Kab", "KcK", "V", "NV", "VN"}
Types   == Leaves \cup Classes
Idx(t)  == CASE t = "a" -> 0 [] t = "b" -> 1 [] t = "c" -> 2 [] t = "K0" -> 3 [] t = "Ka" -> 4 [] t = "Kab" -> 5
             [] t = "KcK" -> 6 [] t = "V" -> 7 [] t = "NV" -> 8 [] t = "VN" -> 9
SizeOf(t) == CASE t \in Leaves -> Width(t) [] t \in {"K0", "Ka"} -> 1 [] t \in {"Kab"} -> 2 [] t = "KcK" -> 4 [] t = "V" -> 3 [] OTHER -> 5
\* V is the class whose programs vary; NV and VN contain it
Fields(t, pass) ==
  CASE t = "K0" -> <<>> [] t = "Ka" -> <<"a">> [] t = "Kab" -> <<"a", "b">> [] t = "KcK" -> <<"c", "Ka">>
    [] t = "V" -> spu[pass] [] t = "NV" -> <<"V", "a">> [] t = "VN" -> <<"c", "V">>

Hdr(t) == <<173, Idx(t), 0, 222>>
Trl(t) == <<SizeOf(t), 0, 0, 0, 0, 0, 0, 0>>
Zeros(k) == [i \in 1..k |-> 0]

RECURSIVE Enc(_, _, _), EncAll(_, _, _)
Body(t, v, pass) == IF t \in Leaves THEN [i \in 1..Width(t) |-> v] ELSE EncAll(Fields(t, pass), v, pass)
Enc(t, v, pass)  == IF EC THEN Hdr(t) \o Body(t, v, pass) \o Trl(t) ELSE Body(t, v, pass)
EncAll(ts, v, pass) == IF ts = <<>> THEN <<>> ELSE Enc(ts[1], v, pass) \o EncAll(Tail(ts), v, pass)
Top(t, v, pass)  == IF EC THEN Enc(t, v, pass) ELSE Hdr(t) \o Body(t, v, pass) \o Trl(t)

\* reading: [ok, p: bytes consumed so far, v: the leaf values seen]
Take(f, r, k) == IF r.ok /\ r.p + k <= Len(f) THEN [r EXCEPT !.p = @ + k] ELSE [r EXCEPT !.ok = FALSE]
Expect(f, r, e) == LET q == Take(f, r, Len(e)) IN
                   IF q.ok /\ SubSeq(f, r.p + 1, q.p) = e THEN q ELSE [q EXCEPT !.ok = FALSE]
RECURSIVE Dec(_, _, _), DecAll(_, _, _)
DBody(t, f, r) == IF t \in Leaves THEN LET q == Take(f, r, Width(t)) IN
                                       IF q.ok THEN [q EXCEPT !.v = Append(@, SubSeq(f, r.p + 1, q.p))] ELSE q
                  ELSE DecAll(Fields(t, "U"), f, r)
Framed(t, f, r) == LET h == Expect(f, r, Hdr(t)) IN
                   IF ~h.ok THEN h ELSE LET q == DBody(t, f, h) IN IF q.ok THEN Expect(f, q, Trl(t)) ELSE q
Dec(t, f, r) == IF EC THEN Framed(t, f, r) ELSE DBody(t, f, r)
DecAll(ts, f, r) == IF ts = <<>> \/ ~r.ok THEN r ELSE DecAll(Tail(ts), f, Dec(ts[1], f, r))
Read(t, f) == Framed(t, f, [ok |-> TRUE, p |-> 0, v |-> <<>>])

-------------------------------------------------------------------------------
RECURSIVE Progs(_)
Progs(k) == IF k = 0 THEN {<<>>} ELSE Progs(k - 1) \cup {Append(p, l) : p \in Progs(k - 1), l \in Letters}
Uses(t) == t \in {"V", "NV", "VN"}
Consistent == [S |-> <<"a">>, P |-> <<"a">>, U |-> <<"a">>]
Spus == {[S |-> s, P |-> p, U |-> u] : s, p, u \in Progs(MaxProg)}

Init ==
  /\ ty \in Types /\ b \in {0, 1}
  /\ spu \in (IF Uses(ty) /\ Victims THEN Spus ELSE {Consistent})
  /\ Victims => Uses(ty)
  /\ n = 0 /\ pos = 0 /\ res = [ok |-> FALSE, p |-> 0, v |-> <<>>] /\ phase = "start"
  \* what the file held before: nothing, an older checkpoint (longer ones included), or junk
  /\ file \in {<<>>} \cup (IF Victims THEN {} ELSE {Top(ty, 1 - b, "P"), Top(ty, 1 - b, "P") \o Top(ty, 1 - b, "P"), Top("a", b, "P")})

Size   == phase = "start" /\ n' = Len(Top(ty, b, "S")) /\ phase' = "sized" /\ UNCHANGED <<ty, b, spu, file, pos, res>>
Create == phase = "sized" /\ file' = <<>> /\ phase' = "empty" /\ UNCHANGED <<ty, b, spu, n, pos, res>>
Extend == phase = "empty" /\ file' = Zeros(n) /\ phase' = "pack" /\ UNCHANGED <<ty, b, spu, n, pos, res>>
Img    == Top(ty, b, "P")
Put    == /\ phase = "pack" /\ pos < Len(Img) /\ pos < n
          /\ file' = [file EXCEPT ![pos + 1] = Img[pos + 1]] /\ pos' = pos + 1
          /\ UNCHANGED <<ty, b, spu, n, phase, res>>
Refuse == \* more than was sized: an error, before anything is written beyond the end; or less
  /\ phase = "pack" /\ ((pos < Len(Img) /\ pos = n) \/ (pos = Len(Img) /\ pos < n))
  /\ phase' = "serr" /\ UNCHANGED <<ty, b, spu, n, file, pos, res>>
Done   == phase = "pack" /\ pos = Len(Img) /\ pos = n /\ phase' = "done" /\ UNCHANGED <<ty, b, spu, n, file, pos, res>>
Kill   == phase \in {"empty", "pack"} /\ ~Victims /\ phase' = "torn" /\ UNCHANGED <<ty, b, spu, n, file, pos, res>>
Cut    == \E k \in 0..(Len(file) - 1) : phase = "done" /\ ~Victims /\ file' = SubSeq(file, 1, k) /\ phase' = "torn"
                                        /\ UNCHANGED <<ty, b, spu, n, pos, res>>
ReadAs(t) == /\ phase \in {"done", "torn"} /\ (Victims => t = ty)
             /\ res' = Read(t, file) /\ phase' = (IF t # ty THEN "other" ELSE IF phase = "torn" THEN "readtorn" ELSE "read")
             /\ UNCHANGED <<ty, b, spu, n, file, pos>>
Next == Size \/ Create \/ Extend \/ Put \/ Refuse \/ Done \/ Kill \/ Cut \/ \E t \in Types : ReadAs(t)
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
(* The properties. *)
\* C10, also in terms of what a user can see: the fields of each pass
RECURSIVE Payload(_)
Payload(ts) == IF ts = <<>> THEN 0 ELSE Width(ts[1]) + Payload(Tail(ts))
Total(ts) == Payload(ts) + (IF EC THEN 12 * Len(ts) ELSE 0)
WritesOtherSize == Uses(ty) /\ Total(spu.S) # Total(spu.P)
ReadsOtherTypes == Uses(ty) /\ spu.P # spu.U

SizeExact       == phase = "done" => pos = n /\ Len(file) = n                                    \* C02
RoundTrip       == phase = "read" /\ ~ReadsOtherTypes => res.ok /\ res.p = Len(file) /\ \A i \in 1..Len(res.v) : \A j \in 1..Len(res.v[i]) : res.v[i][j] = b  \* C01
TornRejected    == phase = "readtorn" => ~res.ok \/ file = Img                                    \* C08
OtherRejected   == phase = "other" => ~res.ok                                                     \* C09
MismatchRefused == phase \in {"done", "read"} => ~WritesOtherSize                                 \* C10
NoOverrun       == Len(file) <= n \/ phase \in {"start", "sized"}                                \* C10
MisreadRefused  == phase = "read" /\ EC /\ ReadsOtherTypes => ~res.ok                             \* C10
NeverRejected   == /\ phase = "serr" => WritesOtherSize                                           \* C10
                   /\ phase = "read" /\ ~ReadsOtherTypes => res.ok
================================================================================
