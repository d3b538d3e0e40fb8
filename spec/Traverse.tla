-------------------------------- MODULE Traverse --------------------------------
(* What a user-defined traversal of a value is shown.

   Parts: the objects of class or container type that make up a value, the value included,
   in the order in which they are serialized (preorder: an object before what it contains).
   An own dispatcher is consulted for each of them, once, in this order; what it intercepts
   is left out, together with everything in it and its bytes. The bytes shown are the
   object's data: what an image of it holds, without what is added to recognise and check it. *)
EXTENDS Values

\* scalars, enumerations and byte-copied objects are not dispatched
RECURSIVE Plain(_)
Plain(t) == \/ t.c \in Leaves \ (DurLeaves \cup {"str"})
            \/ t.c \in Variants /\ \A i \in 1..Len(t.a) : Plain(t.a[i])
RECURSIVE Name(_), Args(_)
Args(a) == IF a = <<>> THEN "" ELSE Name(a[1]) \o (IF Len(a) > 1 THEN "," \o Args(Tail(a)) ELSE "")
Name(t) == t.c \o (IF t.a = <<>> THEN "" ELSE "<" \o Args(t.a) \o ">")

Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Tuples3 == {"tup2", "tup3", "tup5"}           \* their components come in any order

\* the positions in the sequence of consultations `o` at which one that starts at p can end,
\* given the dispatcher intercepts the objects named `stop`
RECURSIVE Ends(_, _, _, _, _), All(_, _, _, _, _), Levels(_, _, _, _)
Ends(o, p, t, v, stop) ==
  IF Plain(t) THEN {p}
  ELSE IF p > Len(o) \/ o[p] # Name(t) THEN {}
  ELSE IF Name(t) = stop THEN {p + 1}
  ELSE
    CASE t.c \in DurLeaves \cup {"str", "tup0"} -> {p + 1}
      [] t.c = "Poly" ->
           IF p + 1 > Len(o) \/ o[p + 1] # "PolyPtr" THEN {}
           ELSE IF stop = "PolyPtr" \/ v.k[1].k = <<>> THEN {p + 2}
           ELSE Levels(o, p + 2, v.k[1].k[1], stop)
      [] t.c \in Maps -> All(o, {p + 1}, [i \in 1..(2 * Len(v.k)) |-> t.a[IF i % 2 = 1 THEN 1 ELSE 2]],
                             [i \in 1..(2 * Len(v.k)) |-> v.k[(i + 1) \div 2].k[IF i % 2 = 1 THEN 1 ELSE 2]], stop)
      [] t.c \in {"RPtr", "SPtr"} -> All(o, {p + 1}, [i \in 1..Len(v.k[1].k) |-> t.a[1]], v.k[1].k, stop)
      [] t.c \in Variants -> All(o, {p + 1}, <<t.a[v.n + 1]>>, v.k, stop)
      [] t.c \in Tuples3 -> UNION {All(o, {p + 1}, [i \in 1..Len(v.k) |-> t.a[q[i]]], [i \in 1..Len(v.k) |-> v.k[q[i]]], stop) : q \in Perms(Len(v.k))}
      [] t.c \in {"pair", "Rec", "tup1"} -> All(o, {p + 1}, t.a, v.k, stop)
      [] t.c = "Tree" -> All(o, {p + 1}, <<t.a[1], Un("vec", t)>>, v.k, stop)
      [] t.c = "Bush" -> All(o, {p + 1}, <<t.a[1], Bin("map", Leaf("i32"), t), Un("list", t), Un("deque", t), Un("vec", Un("opt", t)), Un("vec", Bin("var2", Leaf("i32"), t))>>, v.k, stop)
      [] t.c = "Link" -> All(o, {p + 1}, <<t.a[1], Un("ptr", t)>>, v.k, stop)
      [] t.c = "Der" -> All(o, {p + 1}, t.a, SubSeq(v.k, 1, 2), stop)
      [] OTHER -> All(o, {p + 1}, [i \in 1..Len(v.k) |-> t.a[1]], v.k, stop)
All(o, ps, ts, vs, stop) ==
  IF vs = <<>> \/ ps = {} THEN ps
  ELSE All(o, UNION {Ends(o, p, ts[1], vs[1], stop) : p \in ps}, Tail(ts), Tail(vs), stop)
\* the levels of a polymorphic object, from the root of its hierarchy
Lvl == <<"PolyBase", "PolyMid", "PolyLeaf">>
LvlParts == <<Leaf("i32"), Leaf("str"), Un("vec", Leaf("i16"))>>
Levels(o, p, x, stop) ==
  LET RECURSIVE G(_, _)
      G(i, ps) == IF i > Len(x.k) THEN ps
                  ELSE G(i + 1, UNION {IF q > Len(o) \/ o[q] # Lvl[i] THEN {}
                                       ELSE IF stop = Lvl[i] THEN {q + 1}
                                       ELSE Ends(o, q + 1, LvlParts[i], x.k[i], stop) : q \in ps})
  IN  G(1, {p})

\* consultations of things that are not parts (how a container handles its own members) do not count
Known(opens) == LET k == SelectSeq(opens, LAMBDA x : x[1] # "?") IN [i \in 1..Len(k) |-> k[i][1]]
Visits(opens, t, v, stop) == LET o == Known(opens) IN (Len(o) + 1) \in Ends(o, 1, t, v, stop)

-------------------------------------------------------------------------------
\* bytes without the extents of the intercepted objects; opens of the undisturbed traversal
RECURSIVE Cut(_, _, _, _)
Cut(bytes, opens, stop, from) ==      \* from: how many bytes are already dealt with
  IF opens = <<>> THEN SubSeq(bytes, from + 1, Len(bytes))
  ELSE LET x == opens[1] IN
       IF x[1] = stop /\ x[2] >= from
       THEN SubSeq(bytes, from + 1, x[2]) \o Cut(bytes, Tail(opens), stop, x[3])
       ELSE Cut(bytes, Tail(opens), stop, from)

\* an image without its framing
Body(img, framing, bytes) == Len(bytes) = Len(img) - framing /\ \E k \in 0..framing : SubSeq(img, k + 1, k + Len(bytes)) = bytes
\* with error checking every element of an image is framed: the data is what remains
RECURSIVE Within(_, _)
Within(bytes, img) ==
  LET RECURSIVE G(_, _)
      G(i, j) == IF i > Len(bytes) THEN TRUE ELSE IF j > Len(img) THEN FALSE ELSE G(IF bytes[i] = img[j] THEN i + 1 ELSE i, j + 1)
  IN G(1, 1)
================================================================================
