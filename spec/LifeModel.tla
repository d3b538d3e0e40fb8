------------------------------- MODULE LifeModel -------------------------------
(* A reference (de)serializer, small enough to be obviously right, playing against the rules
   of Life: it makes temporaries, prototypes and copies, visits, moves into place, destroys,
   and an exception may leave it after any visit. TLC checks that Life accepts every
   behaviour of it and the invariants below; with Flaw set to one of the listed mistakes,
   TLC has to find a behaviour that Life rejects (the specification is not vacuous). *)
EXTENDS Life, SequencesExt
CONSTANTS Flaw, MaxN
VARIABLES todo,   \* the rest of the running algorithm
          out,    \* its result: <<>> or <<value>>
          nid, made
mvars == <<vars, todo, out, nid, made>>

TypeNos == 1..Len(Table.types)
K(x) == Node("pb", 0, "", <<Node("b", 0, x, <<>>), Node("b", 0, "07000000", <<>>)>>)
\* values with up to MaxN elements
RECURSIVE Shapes(_)
Shapes(t) ==
  LET Two == {Node("tup", 0, "", <<a, b>>) : a \in Shapes(t.a[1]), b \in Shapes(t.a[2])}
      Seqs == UNION {[1..n -> Shapes(t.a[1])] : n \in 0..MaxN} IN
  CASE IsKind(t.c) -> {K("01000000")}
    [] t.c = "i32" -> {Node("b", 0, "01000000", <<>>)}
    [] t.c = "Box" -> {Node("tup", 0, "", <<x>>) : x \in Shapes(t.a[1])}
    [] t.c = "pair" -> Two
    [] t.c = "vec" -> {Node("vec", Len(s), "", s) : s \in Seqs}
    [] t.c = "list" -> {Node("seq", 0, "", s) : s \in Seqs}
    [] t.c = "opt" -> {Node("opt", 0, "", <<>>)} \cup {Node("opt", 0, "", <<x>>) : x \in Shapes(t.a[1])}
    [] t.c = "ptr" -> {Node("ptr", 0, "", <<>>)} \cup {Node("ptr", 0, "", <<x>>) : x \in Shapes(t.a[1])}
    [] t.c = "var2" -> {Node("var", 0, "", <<x>>) : x \in Shapes(t.a[1])} \cup {Node("var", 1, "", <<x>>) : x \in Shapes(t.a[2])}

\* steps: <<"new", id, kind, how>>, <<"cp", id, from>>, <<"vis", id, pass, level>>, <<"del", id>>
R(s, v, n) == [s |-> s, v |-> v, n |-> n]
VisitsOf(k, id, pass) == [l \in 1..KindOf(k).levels |-> <<"vis", id, pass, l - 1>>]
RECURSIVE Make(_, _, _)     \* default construction of a whole object (by its own constructors)
RECURSIVE Into(_, _, _)     \* reading into an object that exists: t, its value v (with ids), n
RECURSIVE Create(_, _, _)   \* the library creates an object for value v: then reads into it
Kind1(k, how, id, v) == R(<<<<"new", id, k, how>>>>, [v EXCEPT !.n = id], id + 1)
Make(t, v, n) ==
  CASE IsKind(t.c) -> Kind1(t.c, "def", n, v)
    [] t.c = "Box" -> LET a == Make(t.a[1], v.k[1], n) IN R(a.s, [v EXCEPT !.k = <<a.v>>], a.n)
    [] t.c = "pair" -> LET a == Make(t.a[1], v.k[1], n) b == Make(t.a[2], v.k[2], a.n) IN R(a.s \o b.s, [v EXCEPT !.k = <<a.v, b.v>>], b.n)
    [] OTHER -> R(<<>>, v, n)
RECURSIVE Copies(_, _, _, _)  \* cp of every object of a value, and destruction of the originals
Copies(ids, to, n, dest) == IF ids = <<>> THEN R(<<>>, to, n)
  ELSE LET rest == Copies(Tail(ids), (Head(ids) :> n) @@ to, n + 1, dest) IN
       R(<<<<"cp", n, Head(ids)>>>> \o rest.s, rest.v, rest.n)
RECURSIVE InOrder(_)
InOrder(v) == (IF v.t = "pb" THEN <<v.n>> ELSE <<>>) \o Cat([i \in 1..Len(v.k) |-> InOrder(v.k[i])])
RECURSIVE Rename(_, _)
Rename(v, f) == LET w == [v EXCEPT !.k = [i \in 1..Len(v.k) |-> Rename(v.k[i], f)]] IN IF v.t = "pb" THEN [w EXCEPT !.n = f[v.n]] ELSE w
Dels(ids) == [i \in 1..Len(ids) |-> <<"del", ids[Len(ids) + 1 - i]>>]
\* move a finished temporary into its place
MoveIn(r) == LET ids == InOrder(r.v) c == Copies(ids, Empty, r.n, 0) IN
  R(r.s \o c.s \o (IF Flaw = "leak" THEN <<>> ELSE Dels(ids)), Rename(r.v, c.v), c.n)
Create(t, v, n) ==
  IF IsKind(t.c) THEN LET a == Kind1(t.c, IF Flaw = "ctor" THEN "def" ELSE Prec(t.c), n, v) b == Into(t, a.v, a.n)
                          x == IF Flaw = "extra" THEN <<<<"new", b.n, t.c, Prec(t.c)>>, <<"del", b.n>>>> ELSE <<>>
                          d == IF Flaw = "early" THEN b.s \o a.s ELSE a.s \o b.s IN R(d \o x, b.v, b.n + Len(x) \div 2)
  ELSE LET a == Make(t, v, n) b == Into(t, a.v, a.n) IN R(a.s \o b.s, b.v, b.n)
Into(t, v, n) ==
  LET F(how, w, m) == CASE how = "elem" -> Create(t.a[1], w, m)
                        [] how = "moved" -> MoveIn(Create(t.a[1], w, m))
                        [] how = "default" -> Make(t.a[1], w, m)
                        [] how = "field" -> Into(t.a[1], w, m)
      RECURSIVE Each(_, _, _)
      Each(i, m, how) == IF i > Len(v.k) THEN R(<<>>, <<>>, m)
        ELSE LET a == F(how, v.k[i], m) b == Each(i + 1, a.n, how) IN R(a.s \o b.s, <<a.v>> \o b.v, b.n)
      K1(r) == R(r.s, [v EXCEPT !.k = r.v], r.n)
  IN
  CASE IsKind(t.c) -> LET vs == VisitsOf(t.c, v.n, 2) IN
         R(CASE Flaw = "twice" -> vs \o vs [] Flaw = "skip" -> <<>> [] OTHER -> vs, v, n)
    [] t.c = "Box" -> K1(Each(1, n, "field"))
    [] t.c = "pair" -> LET a == Into(t.a[1], v.k[1], n) b == Into(t.a[2], v.k[2], a.n) IN
         R(IF Flaw = "order" THEN b.s \o a.s ELSE a.s \o b.s, [v EXCEPT !.k = <<a.v, b.v>>], b.n)
    [] t.c = "vec" /\ HasDefault(t.a[1]) -> LET a == Each(1, n, "default") w == [v EXCEPT !.k = a.v]
                                                RECURSIVE Go(_, _)
                                                Go(i, m) == IF i > Len(w.k) THEN R(<<>>, <<>>, m) ELSE LET x == Into(t.a[1], w.k[i], m) y == Go(i + 1, x.n) IN R(x.s \o y.s, <<x.v>> \o y.v, y.n)
                                                b == Go(1, a.n) IN R(a.s \o b.s, [w EXCEPT !.k = b.v], b.n)
    [] t.c = "vec" /\ ~CanCopy(t.a[1]) -> K1(Each(1, n, "elem"))
    [] t.c = "vec" -> LET p == Kind1(t.a[1].c, Prec(t.a[1].c), n, K("")) len == Len(v.k)    \* prototype, copies
                          cs == [i \in 1..len |-> <<"cp", n + i, n>>]
                          vs == Cat([i \in 1..len |-> VisitsOf(t.a[1].c, n + i, 2)])
                      IN IF len = 0 THEN R(<<>>, v, n) ELSE R(p.s \o cs \o Dels(<<n>>) \o vs, [v EXCEPT !.k = [i \in 1..len |-> [v.k[i] EXCEPT !.n = n + i]]], n + len + 1)
    [] t.c = "list" -> K1(Each(1, n, "moved"))
    [] t.c = "opt" -> K1(Each(1, n, "moved"))
    [] t.c = "ptr" -> K1(Each(1, n, "elem"))
    [] t.c = "var2" -> LET d == Make(t.a[1], IF v.n = 0 THEN v.k[1] ELSE K(""), n)
                           c == MoveIn(Create(t.a[v.n + 1], v.k[1], d.n)) IN
                       R((IF IsKind(t.a[1].c) THEN d.s ELSE <<>>) \o c.s \o (IF IsKind(t.a[1].c) THEN Dels(<<n>>) ELSE <<>>), [v EXCEPT !.k = <<c.v>>], c.n)
    [] OTHER -> R(<<>>, v, n)

RECURSIVE Unstrip(_)
Unstrip(v) == IF v.t = "pb" THEN K(v.k[1].v) ELSE [v EXCEPT !.k = [i \in 1..Len(v.k) |-> Unstrip(v.k[i])]]

MInit == Init /\ todo = <<>> /\ out = <<>> /\ nid = 1 /\ made = {}
Thrown == Node("thrown", 0, "", <<>>)
Idle == cur.h = ""
Running == cur.h # "" /\ todo # <<>>
\* the user makes an object
RECURSIVE OwnAll(_, _)
OwnAll(v, n) == IF v.t = "pb" THEN R(<<<<"new", n, "", "usr">>>>, [v EXCEPT !.n = n], n + 1)
  ELSE LET RECURSIVE F(_, _)
           F(i, m) == IF i > Len(v.k) THEN R(<<>>, <<>>, m) ELSE LET a == OwnAll(v.k[i], m) b == F(i + 1, a.n) IN R(a.s \o b.s, <<a.v>> \o b.v, b.n)
           r == F(1, n) IN R(r.s, [v EXCEPT !.k = r.v], r.n)
RECURSIVE KindsIn(_, _)      \* kind of each object of a value, in order
KindsIn(t, v) == CASE IsKind(t.c) -> <<t.c>>
  [] t.c \in {"vec", "list", "opt", "ptr", "Box"} -> Cat([i \in 1..Len(v.k) |-> KindsIn(t.a[1], v.k[i])])
  [] t.c = "pair" -> KindsIn(t.a[1], v.k[1]) \o KindsIn(t.a[2], v.k[2])
  [] t.c = "var2" -> KindsIn(t.a[v.n + 1], v.k[1])
  [] OTHER -> <<>>

Mk(ty) == \E v \in Shapes(TypeOf(ty)) :
  LET r == OwnAll(v, nid) ks == KindsIn(TypeOf(ty), v) IN
  /\ objs = Empty /\ store = Empty /\ Begin("mk", 1, ty, 0)
  /\ todo' = [i \in 1..Len(r.s) |-> <<"new", r.s[i][2], ks[i], "usr">>] /\ out' = <<r.v>> /\ nid' = r.n /\ made' = {}
Write == /\ objs # Empty /\ 1 \in DOMAIN objs /\ store = Empty /\ Begin("se", 1, 1, 0)
         /\ LET v == objs[1].val f == Flat(v) S(p) == [i \in 1..Len(f) |-> <<"vis", f[i][1], p, f[i][2]>>] IN
            /\ todo' = S(0) \o S(1) /\ out' = <<v>>
         /\ nid' = nid /\ made' = {}
ReadBack == /\ <<"m", 1>> \in DOMAIN store /\ store[<<"m", 1>>] # <<>> /\ 2 \notin DOMAIN objs
        /\ LET ty == store[<<"m", 1>>][1].ty r == Create(TypeOf(ty), Unstrip(store[<<"m", 1>>][1].val), nid) IN
           /\ Begin("dm", 1, 2, ty) /\ todo' = r.s /\ out' = <<r.v>> /\ nid' = r.n
        /\ made' = {}
Rm == \E s \in DOMAIN objs : /\ store # Empty /\ Begin("rm", s, 0, 0) /\ todo' = Dels(InOrder(objs[s].val)) /\ out' = <<>> /\ nid' = nid /\ made' = {}
Play ==
  /\ Running
  /\ LET s == Head(todo) IN
     /\ CASE s[1] = "new" -> New(s[2], s[3], s[4], IF s[4] = "usr" THEN "" ELSE "07000000") /\ made' = made \cup {s[2]}
          [] s[1] = "cp" -> CopyOf(s[2], s[3]) /\ made' = made \cup {s[2]}
          [] s[1] = "vis" -> Visit(s[2], s[3], s[4]) /\ made' = made
          [] s[1] = "del" -> Destroy(s[2]) /\ made' = made \ {s[2]}
  /\ todo' = Tail(todo) /\ UNCHANGED <<out, nid>>
\* an exception after a visit: unwinding destroys what was made so far
Throw ==
  /\ cur.h \in {"se", "dm"} /\ cur.sz \o cur.pk \o cur.un # <<>> /\ out # <<Thrown>>
  /\ todo' = (IF Flaw = "unwind" THEN <<>> ELSE Dels(SetToSeq(made))) /\ out' = <<Thrown>> /\ UNCHANGED <<vars, nid, made>>
Finished ==
  /\ cur.h # "" /\ todo = <<>>
  /\ IF out = <<Thrown>> THEN EndFail(Nothing, 0, 0)
     ELSE IF cur.h = "rm" THEN EndRm(0)
     ELSE IF cur.h = "mk" THEN EndMk(out[1], 0)
     ELSE IF cur.h = "se" THEN EndWrite(out[1], 0, 0)
     ELSE EndRead(out[1], 0, TRUE)
  /\ todo' = <<>> /\ out' = <<>> /\ made' = {} /\ nid' = (IF live = Empty THEN 1 ELSE Max(DOMAIN live) + 1)
End == Idle /\ objs = Empty /\ store # Empty /\ DOMAIN live = {} /\ UNCHANGED mvars
MNext == \/ Idle /\ \E ty \in TypeNos : Mk(ty)
         \/ Idle /\ (Write \/ ReadBack \/ Rm)
         \/ Play \/ Throw \/ Finished \/ End

\* the rules accept every announcement and every outcome of the algorithm
Accepted == cur.h # "" => IF todo = <<>> THEN ENABLED Finished ELSE ENABLED Play
\* between operations exactly what the user holds is alive, each once
NoLeak == Idle => DOMAIN live = UserIds(objs) /\ Distinct(objs)
\* what was read back is what was written
Restored == Idle /\ {1, 2} \subseteq DOMAIN objs => Strip(objs[1].val) = Strip(objs[2].val)
===============================================================================
