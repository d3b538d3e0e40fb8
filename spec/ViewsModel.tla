------------------------------- MODULE ViewsModel -------------------------------
(* Design model of how views travel: label and layout, then whether the source's memory is
   contiguous, then the elements - as they lie in memory if so, otherwise by index - with
   a host mirror where the host cannot touch the view's memory. And of hash maps: capacity and
   size, then the elements of the occupied slots; in place, the old elements go.
   Flaw: broken variants, which have to be rejected:
     raw        always copies the memory, contiguous or not
     asread     the reader asks its own view whether it is contiguous, not the image
     nomirror   nothing is copied back to the device on reading
     touch      the elements are read from the device's memory directly
     squeeze    strides are recomputed on reading
     exists     a slot is taken as occupied if its (possibly stale) key is in the map
     merge      in place, the old elements stay *)
EXTENDS Views
CONSTANTS MaxRank, MaxExt, Flaw
VARIABLES src, img, dst, touched
vars == <<src, img, dst, touched>>

None == [no |-> TRUE]
Exts == UNION {[1..r -> 0..MaxExt] : r \in 0..MaxRank}
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Strided(ext) == {Permuted(ext, p) : p \in Perms(Len(ext))} \cup {[i \in 1..Len(ext) |-> 2 * Permuted(ext, p)[i]] : p \in Perms(Len(ext))}
Sources ==
  {[lay |-> "R", ext |-> e, str |-> s, dev |-> d] : e \in Exts, s \in {Right(<<1>>)}, d \in {}} \cup
  UNION {{[lay |-> "R", ext |-> e, str |-> s, dev |-> d] : s \in {Right(e)} \cup (IF Len(e) > 1 THEN {PadRight(e)} ELSE {}), d \in BOOLEAN} : e \in Exts} \cup
  UNION {{[lay |-> "L", ext |-> e, str |-> s, dev |-> d] : s \in {Left(e)} \cup (IF Len(e) > 1 THEN {PadLeft(e)} ELSE {}), d \in BOOLEAN} : e \in Exts} \cup
  UNION {{[lay |-> "S", ext |-> e, str |-> s, dev |-> d] : s \in Strided(e), d \in BOOLEAN} : e \in Exts}

Junk == 0
\* element n of the source has value n; memory between them holds junk
Memory(ext, str) == [o \in 0..(Max(Span(ext, str), 1) - 1) |->
                       LET S == {n \in 1..Prod(ext) : Offset(ext, str, n) = o} IN IF S = {} THEN Junk ELSE CHOOSE n \in S : TRUE]
Elems(v, mem) == [n \in 1..Prod(v.ext) |-> mem[Offset(v.ext, v.str, n)]]
\* what a view of the layout looks like when it is made from its layout object
Fresh(lay, ext, str) == [ext |-> ext, str |-> IF lay = "R" THEN Right(ext) ELSE IF lay = "L" THEN Left(ext) ELSE str]

Write(v) ==
  LET mem  == Memory(v.ext, v.str)
      mv   == IF v.dev THEN Fresh(v.lay, v.ext, v.str) ELSE v        \* the host mirror ...
      mmem == IF v.dev THEN Memory(mv.ext, mv.str) ELSE mem         \* ... filled by deep_copy
      c    == Flaw = "raw" \/ Contiguous(v.ext, v.str)
  IN  [ext |-> v.ext, str |-> v.str, contig |-> c,
       data |-> IF c THEN [i \in 1..Prod(v.ext) |-> mmem[i - 1]] ELSE Elems(mv, mmem)]
Read(lay, dev, i) ==
  LET f    == Fresh(lay, i.ext, IF Flaw = "squeeze" THEN Right(i.ext) ELSE i.str)
      zero == [o \in 0..(Max(Span(f.ext, f.str), 1) - 1) |-> Junk]
      c    == IF Flaw = "asread" THEN Contiguous(f.ext, f.str) ELSE i.contig
      host == IF c THEN [o \in DOMAIN zero |-> IF o < Len(i.data) THEN i.data[o + 1] ELSE Junk]
              ELSE [o \in DOMAIN zero |-> LET S == {n \in 1..Prod(f.ext) : Offset(f.ext, f.str, n) = o} IN IF S = {} THEN Junk ELSE i.data[CHOOSE n \in S : TRUE]]
      mem  == IF dev /\ Flaw = "nomirror" THEN zero ELSE host
  IN  [k |-> "view", label |-> "l", ext |-> f.ext, str |-> f.str, alloc |-> TRUE, el |-> Elems(f, mem), parts |-> <<>>, cap |-> 0]
AsObject(v) == [k |-> "view", label |-> "l", ext |-> v.ext, str |-> v.str, alloc |-> TRUE, el |-> Elems(v, Memory(v.ext, v.str)), parts |-> <<>>, cap |-> 0]

(* Maps: slots hold (valid, key); an erased slot keeps its key; fresh slots hold key 0. *)
Cap == 3
Keys == 0..3
RECURSIVE Place(_, _, _, _)
Place(m, key, at, n) == IF n = 0 THEN m ELSE IF ~m[at].valid THEN [m EXCEPT ![at] = [valid |-> TRUE, key |-> key]] ELSE Place(m, key, (at + 1) % Cap, n - 1)
Has(m, key) == \E i \in 0..(Cap - 1) : m[i].valid /\ m[i].key = key
Insert(m, key) == IF Has(m, key) THEN m ELSE Place(m, key, key % Cap, Cap)
Erase(m, key) == [i \in 0..(Cap - 1) |-> IF m[i].valid /\ m[i].key = key THEN [m[i] EXCEPT !.valid = FALSE] ELSE m[i]]
Empty == [i \in 0..(Cap - 1) |-> [valid |-> FALSE, key |-> 0]]
Set(m) == {m[i].key : i \in {j \in 0..(Cap - 1) : m[j].valid}}
Size(m) == Cardinality(Set(m))
WriteMap(m) ==
  LET take(i) == IF Flaw = "exists" THEN Has(m, m[i].key) ELSE m[i].valid
      RECURSIVE W(_)
      W(i) == IF i = Cap THEN <<>> ELSE (IF take(i) THEN <<m[i].key>> ELSE <<>>) \o W(i + 1)
  IN  [size |-> Size(m), data |-> W(0)]
RECURSIVE Into(_, _)
Into(m, d) == IF d = <<>> THEN m ELSE Into(Insert(m, Head(d)), Tail(d))
ReadMap(prev, i) == Into(IF Flaw = "merge" THEN prev ELSE Empty, SubSeq(i.data, 1, i.size))

Init == /\ img = None /\ dst = None /\ touched = FALSE
        /\ \/ src \in [what : {"view"}, v : Sources]
           \/ src = [what |-> "map", m |-> Empty, n |-> 0]
\* a map is changed by its user
Change == /\ src.what = "map" /\ img = None /\ src.n < 4
          /\ \E k \in Keys : \E m \in {Insert(src.m, k), Erase(src.m, k)} : m # src.m /\ src' = [src EXCEPT !.m = m, !.n = @ + 1]
          /\ UNCHANGED <<img, dst, touched>>
DoWrite == /\ img = None
           /\ img' = IF src.what = "view" THEN Write(src.v) ELSE WriteMap(src.m)
           /\ touched' = (src.what = "view" /\ src.v.dev /\ Flaw = "touch")
           /\ UNCHANGED <<src, dst>>
DoRead == /\ img # None /\ dst = None
          /\ IF src.what = "view" THEN dst' = Read(src.v.lay, src.v.dev, img)
             ELSE \E prev \in {Empty, Insert(Empty, 1), Insert(Insert(Empty, 0), 3)} : dst' = ReadMap(prev, img)
          /\ UNCHANGED <<src, img, touched>>
Next == Change \/ DoWrite \/ DoRead

Faithful == dst # None => IF src.what = "view" THEN Restored(src.v.lay, AsObject(src.v), dst) ELSE Set(dst) = Set(src.m)
\* as many elements are written as were announced
Announced == img # None => Len(img.data) = IF src.what = "view" THEN Prod(src.v.ext) ELSE img.size
HostOnly == ~touched
================================================================================
