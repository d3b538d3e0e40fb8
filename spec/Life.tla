---------------------------------- MODULE Life ----------------------------------
(* The lives of the objects the library touches.

   Every object of an instrumented class announces its construction (by which means), its
   copies, assignments, serialize calls (object, level of the class hierarchy, pass) and its
   destruction. An operation of the library is a begin, such announcements, and an end that
   gives the outcome and the value (with object identities) of the object it worked on.

   C11  polymorphic objects: dynamic class and every level, levels in order
   C12  how and how often objects are created
   C13  everything created is destroyed exactly once, every block of memory freed
   C18  who is visited, in which order, exactly once per pass; byte-copied objects never *)
EXTENDS Values, Json, IOUtils

CONSTANTS Props
\* types: type number -> type term
\* kinds: class name -> [tag, rec, def, copy: BOOLEAN, root: name of the hierarchy or "", levels]
Table == JsonDeserialize(IOEnv.TYPEFILE)
TypeOf(n) == Table.types[n]
KindNames == DOMAIN Table.kinds
KindOf(k) == Table.kinds[k]
IsKind(c) == c \in KindNames
VARIABLES live,    \* object -> [kind, root, src, vis, y]
          objs,    \* user's slot -> [ty, val]
          store,   \* <<"m"|"f"|"s", slot>> -> sequence of [ty, val] (cut: <<>>)
          cur      \* the running operation
vars == <<live, objs, store, cur>>
On(p) == p \in Props
Put(f, x, y) == (x :> y) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Empty == [x \in {} |-> 0]
None == [h |-> "", a |-> 0, b |-> 0, ty |-> 0, news |-> <<>>, sz |-> <<>>, pk |-> <<>>, un |-> <<>>]
Nothing == Node("", 0, "", <<>>)

Init == live = Empty /\ objs = Empty /\ store = Empty /\ cur = None

Writing == {"gs", "se", "su", "wf", "ws"}
ReadNew == {"dm", "du", "rf", "rs"}
ReadIn == {"di", "ri", "rt"}

-------------------------------------------------------------------------------
(* Values *)
RECURSIVE IdsOf(_)
IdsOf(v) == (IF v.t \in {"pb", "po"} THEN {v.n} ELSE {}) \cup UNION {IdsOf(v.k[i]) : i \in 1..Len(v.k)}
\* identities, reserved capacities and members that serialize does not mention left out
RECURSIVE Strip(_)
Strip(v) ==
  LET ks == [i \in 1..Len(v.k) |-> Strip(v.k[i])] IN
  CASE v.t = "pb" -> [t |-> "pb", n |-> 0, v |-> v.v, k |-> <<Strip(v.k[1])>>]
    [] v.t \in {"po", "vec"} -> [t |-> v.t, n |-> 0, v |-> v.v, k |-> ks]
    [] v.t = "bag" -> [t |-> "bag", n |-> 0, v |-> "", k |-> {<<ks[i], Cardinality({j \in 1..Len(ks) : ks[j] = ks[i]})>> : i \in 1..Len(ks)}]
    [] OTHER -> [t |-> v.t, n |-> v.n, v |-> v.v, k |-> ks]
RECURSIVE HasBag(_)
HasBag(v) == v.t = "bag" \/ \E i \in 1..Len(v.k) : HasBag(v.k[i])
RECURSIVE HasC(_, _)
HasC(t, c) == t.c \in c \/ \E i \in 1..Len(t.a) : HasC(t.a[i], c)

\* the serialize calls a value calls for, in order
RECURSIVE Flat(_)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Levels(id) == KindOf(live[id].kind).levels
Flat(v) ==
  CASE v.t = "pb" -> [l \in 1..Levels(v.n) |-> <<v.n, l - 1>>]
    [] v.t = "po" -> Cat([l \in 1..Len(v.k) |-> <<<<v.n, l - 1>>>> \o Flat(v.k[l])])
    [] OTHER -> Cat([i \in 1..Len(v.k) |-> Flat(v.k[i])])

-------------------------------------------------------------------------------
(* Announcements *)
New(id, kind, how, y) ==
  /\ id \notin DOMAIN live
  /\ live' = Put(live, id, [kind |-> kind, root |-> id, src |-> id, vis |-> <<>>, y |-> y])
  /\ cur' = [cur EXCEPT !.news = Append(@, [kind |-> kind, how |-> how, id |-> id])]
  /\ UNCHANGED <<objs, store>>
CopyOf(id, from) ==
  /\ id \notin DOMAIN live /\ from \in DOMAIN live
  /\ live' = Put(live, id, live[from])
  /\ UNCHANGED <<objs, store, cur>>
Assign(id, from) ==
  /\ id \in DOMAIN live /\ from \in DOMAIN live
  /\ live' = Put(live, id, live[from])
  /\ UNCHANGED <<objs, store, cur>>
Destroy(id) ==
  /\ id \in DOMAIN live
  /\ live' = Drop(live, id)
  /\ UNCHANGED <<objs, store, cur>>
Visit(id, pass, level) ==
  /\ id \in DOMAIN live
  /\ CASE pass = 0 -> cur' = [cur EXCEPT !.sz = Append(@, <<id, level, live[id].src>>)] /\ live' = live
       [] pass = 1 -> cur' = [cur EXCEPT !.pk = Append(@, <<id, level, live[id].src>>)] /\ live' = live
       [] pass = 2 -> /\ cur' = [cur EXCEPT !.un = Append(@, <<id, level>>)]
                      /\ live' = [live EXCEPT ![id].vis = Append(@, <<level, Len(cur.un) + 1>>)]
       [] OTHER -> FALSE
  /\ UNCHANGED <<objs, store>>
Misplaced == ~On("C12") /\ ~On("C13") /\ UNCHANGED vars  \* an object was put where its class must not be
Called == ~On("C18") /\ UNCHANGED vars     \* serialize of a byte-copied object ran

-------------------------------------------------------------------------------
(* C18/C11: visits *)
\* queues can only be traversed through a copy
Match(tok, want, viaCopy) == tok[2] = want[2] /\ (tok[1] = want[1] \/ (viaCopy /\ tok[3] = want[1]))
\* the components of a std::tuple may come in any order
SameVisits(got, want, t) ==
  LET viaCopy == HasC(t, {"queue"}) IN
  /\ Len(got) = Len(want)
  /\ IF HasC(t, {"tup2"}) THEN \A i \in 1..Len(want) : Cardinality({j \in 1..Len(got) : Match(got[j], want[i], viaCopy)}) = 1
     ELSE \A i \in 1..Len(got) : Match(got[i], want[i], viaCopy)
Reps(got, want, t) ==
  IF want = <<>> THEN got = <<>>
  ELSE /\ Len(got) % Len(want) = 0
       /\ \A r \in 0..(Len(got) \div Len(want) - 1) : SameVisits(SubSeq(got, r * Len(want) + 1, (r + 1) * Len(want)), want, t)
VisitsWriting(v, t) ==
  LET f == Flat(v) IN
  /\ Reps(cur.sz, f, t) /\ (cur.h = "gs" => cur.sz = <<>> <=> f = <<>>)
  /\ IF cur.h = "gs" THEN cur.pk = <<>> ELSE SameVisits(cur.pk, f, t)
  /\ cur.un = <<>>
\* every object of the result, possibly after moving, was visited once per level, in order
VisitsReading(v, t) ==
  LET f == Flat(v)
      Pos(j) == LET s == live[f[j][1]].vis IN s[f[j][2] + 1][2]
  IN
  /\ Len(cur.un) = Len(f)
  /\ \A j \in 1..Len(f) :
       LET s == live[f[j][1]].vis IN
       /\ Len(s) = Cardinality({f[i][2] : i \in {x \in 1..Len(f) : f[x][1] = f[j][1]}})
       /\ f[j][2] + 1 <= Len(s) /\ s[f[j][2] + 1][1] = f[j][2]
  /\ IF HasBag(v) \/ HasC(t, {"tup2"}) THEN {Pos(j) : j \in 1..Len(f)} = 1..Len(f) ELSE \A j \in 1..Len(f) : Pos(j) = j
RECURSIVE YsOf(_)
YsOf(v) == (IF v.t = "pb" THEN {<<v.n, v.k[2].v>>} ELSE {}) \cup UNION {YsOf(v.k[i]) : i \in 1..Len(v.k)}
Untouched(v) == \A p \in YsOf(v) : live[p[1]].y = p[2]

-------------------------------------------------------------------------------
(* C12: creation *)
Prec(k) == IF KindOf(k).tag THEN "tag" ELSE IF KindOf(k).rec THEN "rec" ELSE "def"
Pointees == {"ptr", "RPtr", "SPtr"}
Singles == Pointees \cup {"opt"}
SeqLike == {"vec", "list", "deque"}
NodeLike == {"queue", "set", "mset", "uset", "umset"}
MapLike == {"map", "umap", "mmap", "ummap"}
Classes(root) == {k \in KindNames : KindOf(k).root = root}
\* is the type default constructible (its contents then come from its constructor)
RECURSIVE HasDefault(_)
HasDefault(t) ==
  CASE IsKind(t.c) -> KindOf(t.c).def
    [] t.c \in {"Box", "pair", "arr3", "CArr", "tup2"} -> \A i \in 1..Len(t.a) : HasDefault(t.a[i])
    [] t.c = "var2" -> HasDefault(t.a[1])
    [] OTHER -> TRUE
RECURSIVE CanCopy(_)
CanCopy(t) == IF IsKind(t.c) THEN KindOf(t.c).copy ELSE t.c \notin Pointees /\ \A i \in 1..Len(t.a) : CanCopy(t.a[i])
\* ways in which objects inside a new object of type t may come to be; lib: the library
\* creates that object itself, otherwise its enclosing object's constructor does
RECURSIVE Hows(_, _)
Hows(t, lib) ==
  LET A(l) == UNION {Hows(t.a[i], l) : i \in 1..Len(t.a)} IN
  CASE IsKind(t.c) /\ KindOf(t.c).root # "" /\ ~lib -> {<<t.c, "def">>}
    [] IsKind(t.c) -> {<<t.c, IF lib THEN Prec(t.c) ELSE "def">>}
    [] t.c \in Pointees -> IF IsKind(t.a[1].c) /\ KindOf(t.a[1].c).root # "" THEN {<<k, Prec(k)>> : k \in Classes(KindOf(t.a[1].c).root)}
                          ELSE A(TRUE)
    [] t.c \in NodeLike \cup {"opt"} -> A(TRUE)
    [] t.c = "vec" -> A(~HasDefault(t.a[1]))
    [] t.c \in {"list", "deque"} -> A(TRUE)
    [] t.c = "tup2" -> A(lib)
    [] t.c = "var2" -> Hows(t.a[1], FALSE) \cup A(TRUE)
    [] t.c = "Holder" -> {<<"V1", "def">>} \cup {<<k, Prec(k)>> : k \in Classes("A0")}
    [] t.c \in MapLike \cup {"Box", "pair", "arr3", "CArr"} -> A(FALSE)
    [] OTHER -> {}
\* how many: [lo, hi] when an object of type t is created, and when v is then read into it
RECURSIVE Base(_)
Base(t) ==
  LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Base(t.a[i]) + Sum(i - 1) IN
  CASE IsKind(t.c) -> 1
    [] t.c \in {"Box", "pair", "tup2"} -> Sum(Len(t.a))
    [] t.c \in {"arr3", "CArr"} -> 3 * Base(t.a[1])
    [] t.c = "var2" -> Base(t.a[1])
    [] t.c = "Holder" -> 3
    [] OTHER -> 0
Fill(t, v) ==   \* <<lo, hi>>
  LET RECURSIVE F(_, _)
      F(x, w) ==
        LET n == Len(w.k)
            RECURSIVE S(_, _)
            S(i, same) == IF i = 0 THEN <<0, 0>> ELSE LET a == F(x.a[IF same THEN 1 ELSE i], w.k[i]) b == S(i - 1, same) IN <<a[1] + b[1], a[2] + b[2]>>
            Plus(p, lo, hi) == <<p[1] + lo, p[2] + hi>>
            Poly == Cardinality(IdsOf(w))
        IN
        CASE IsKind(x.c) /\ w.t = "po" -> <<Poly - 1, Poly - 1>>
          [] IsKind(x.c) -> <<0, 0>>
          [] x.c \in SeqLike -> LET b == Base(x.a[1])
                                    \* elements copied from a prototype; nested prototypes likewise
                                    lo == IF CanCopy(x.a[1]) THEN (IF n > 0 THEN b ELSE 0) ELSE n * b
                                IN Plus(S(n, TRUE), lo, (n + 1) * b)
          [] x.c \in NodeLike -> Plus(S(n, TRUE), n * Base(x.a[1]), n * Base(x.a[1]))
          [] x.c \in MapLike -> LET RECURSIVE M(_)
                                    M(i) == IF i = 0 THEN <<0, 0>> ELSE
                                            LET a == F(x.a[1], w.k[i].k[1]) c == F(x.a[2], w.k[i].k[2]) r == M(i - 1) IN <<a[1] + c[1] + r[1], a[2] + c[2] + r[2]>>
                                IN LET b == Base(x.a[1]) + Base(x.a[2]) IN Plus(M(n), n * b, n * b)
          [] x.c \in {"opt", "ptr"} -> IF n = 0 THEN <<0, 0>> ELSE Plus(S(n, TRUE), Base(x.a[1]), Base(x.a[1]))
          [] x.c \in {"RPtr", "SPtr"} -> IF w.k[1].k = <<>> THEN <<0, 0>> ELSE Plus(F(x.a[1], w.k[1].k[1]), Base(x.a[1]), Base(x.a[1]))
          [] x.c \in {"arr3", "CArr"} -> S(n, TRUE)
          [] x.c \in {"Box", "pair", "tup2"} -> S(n, FALSE)
          [] x.c = "var2" -> LET a == x.a[w.n + 1] IN Plus(F(a, w.k[1]), Base(a), Base(a))
          [] x.c = "Holder" -> LET p == IF w.k[2].k = <<>> THEN 0 ELSE Cardinality(IdsOf(w.k[2])) IN <<p, p>>
          [] OTHER -> <<0, 0>>
  IN F(t, v)
Creations(t, v, new) ==
  LET f == Fill(t, v)
      b == IF new THEN Base(t) ELSE 0
      lo == IF new THEN b + f[1] ELSE 0
      ids == {cur.news[i].id : i \in 1..Len(cur.news)}
      ok == Hows(t, new)
  IN
  /\ \A i \in 1..Len(cur.news) : <<cur.news[i].kind, cur.news[i].how>> \in ok
  /\ Len(cur.news) >= lo /\ Len(cur.news) <= b + f[2]
  /\ new => /\ \A i \in IdsOf(v) : live[i].root \in ids
            /\ ~HasC(t, SeqLike) => \A i, j \in IdsOf(v) : i # j => live[i].root # live[j].root
  /\ ~new /\ IsKind(t.c) /\ v.t = "pb" => cur.news = <<>> /\ v.n = objs[cur.b].val.n

-------------------------------------------------------------------------------
(* Operations *)
UserIds(o) == UNION {IdsOf(o[s].val) : s \in DOMAIN o}
Distinct(o) == \A s, u \in DOMAIN o : s # u => IdsOf(o[s].val) \cap IdsOf(o[u].val) = {}
Clean(o, blocks, bad) == On("C13") => DOMAIN live = UserIds(o) /\ blocks = 0 /\ bad = 0
Leftovers(o, bad) == On("C13") => DOMAIN live = UserIds(o) /\ bad = 0

Begin(h, a, b, ty) ==
  /\ cur.h = ""
  /\ cur' = [None EXCEPT !.h = h, !.a = a, !.b = b, !.ty = ty]
  /\ live' = [i \in DOMAIN live |-> [live[i] EXCEPT !.vis = <<>>, !.src = i]]
  /\ UNCHANGED <<objs, store>>

KeyW == CASE cur.h \in {"se", "su"} -> <<"m", cur.b>> [] cur.h = "wf" -> <<"f", cur.b>> [] cur.h = "ws" -> <<"s", cur.b>> [] OTHER -> <<"", 0>>
KeyR == CASE cur.h \in {"dm", "du", "di"} -> <<"m", cur.a>> [] cur.h \in {"rf", "ri"} -> <<"f", cur.a>> [] OTHER -> <<"s", cur.a>>
Done == cur' = None
SetYs(v) == live' = [i \in DOMAIN live |-> IF \E p \in YsOf(v) : p[1] = i THEN [live[i] EXCEPT !.y = (CHOOSE p \in YsOf(v) : p[1] = i)[2]] ELSE live[i]]

EndMk(v, bad) ==
  /\ cur.h = "mk"
  /\ objs' = Put(objs, cur.a, [ty |-> cur.b, val |-> v])
  /\ IdsOf(v) \subseteq DOMAIN live /\ Leftovers(objs', bad)
  /\ SetYs(v) /\ store' = store /\ Done
EndRm(bad) ==
  /\ cur.h = "rm"
  /\ objs' = Drop(objs, cur.a) /\ Leftovers(objs', bad)
  /\ UNCHANGED <<live, store>> /\ Done
EndWrite(v, blocks, bad) ==
  /\ cur.h \in Writing
  /\ LET o == objs[cur.a] t == TypeOf(o.ty) IN
     /\ On("C18") \/ On("C11") => VisitsWriting(o.val, t) /\ v = o.val
     /\ On("C18") => Untouched(v)
     /\ IF cur.h = "ws" THEN Leftovers(objs, bad) ELSE Clean(objs, blocks, bad)
     /\ store' = IF cur.h = "gs" THEN store
                 ELSE IF cur.h = "ws" /\ KeyW \in DOMAIN store THEN [store EXCEPT ![KeyW] = Append(@, [ty |-> o.ty, val |-> Strip(v)])]
                 ELSE Put(store, KeyW, <<[ty |-> o.ty, val |-> Strip(v)]>>)
  /\ UNCHANGED <<live, objs>> /\ Done
EndRead(v, bad, new) ==
  /\ cur.h \in (IF new THEN ReadNew ELSE ReadIn)
  /\ LET ty == IF new THEN cur.ty ELSE objs[cur.b].ty
         t == TypeOf(ty)
         src == IF KeyR \in DOMAIN store THEN store[KeyR] ELSE <<>>
     IN
     /\ IdsOf(v) \subseteq DOMAIN live
     /\ objs' = Put(objs, cur.b, [ty |-> ty, val |-> v])
     /\ (On("C18") \/ On("C11")) /\ src # <<>> /\ src[1].ty = ty => Strip(v) = src[1].val
     /\ On("C18") \/ On("C11") => VisitsReading(v, t) /\ cur.sz = <<>> /\ cur.pk = <<>>
     /\ On("C18") => Untouched(v)
     /\ On("C12") => Creations(t, v, new)
     /\ Leftovers(objs', bad)
     /\ store' = IF KeyR[1] = "s" /\ src # <<>> THEN [store EXCEPT ![KeyR] = Tail(@)] ELSE store
  /\ UNCHANGED live /\ Done
\* the SerializedReturnType is handed on to deserialize
EndRound(v, bad) ==
  /\ cur.h = "sr"
  /\ LET o == objs[cur.a] t == TypeOf(o.ty) IN
     /\ objs' = Put(objs, cur.b, [ty |-> o.ty, val |-> v])
     /\ (On("C18") \/ On("C11")) => Strip(v) = Strip(o.val) /\ SameVisits(cur.pk, Flat(o.val), t) /\ VisitsReading(v, t)
     /\ On("C18") => Untouched(v)
     /\ On("C12") => Creations(t, v, TRUE)
     /\ Leftovers(objs', bad)
  /\ UNCHANGED <<live, store>> /\ Done
\* left by an exception
EndFail(v, blocks, bad) ==
  /\ cur.h \in Writing \cup ReadNew \cup ReadIn \cup {"sr"}
  /\ objs' = IF cur.h \in ReadIn THEN Put(objs, cur.b, [objs[cur.b] EXCEPT !.val = v]) ELSE objs
  /\ IF cur.h \in ReadIn \cup {"ws"} THEN Leftovers(objs', bad) ELSE Clean(objs', blocks, bad)
  /\ store' = IF cur.h = "ws" \/ cur.h = "wf" THEN Put(store, KeyW, <<>>) ELSE IF KeyR[1] = "s" /\ cur.h \notin Writing THEN Put(store, KeyR, <<>>) ELSE store
  /\ UNCHANGED live /\ Done
EndOther ==   \* a new stream, a cut file or stream
  /\ cur.h \in {"ns", "cf", "cs"}
  /\ store' = Put(store, <<IF cur.h = "cf" THEN "f" ELSE "s", cur.a>>, <<>>)
  /\ UNCHANGED <<live, objs>> /\ Done

\* the user disposes of everything
Finish(blocks, bad) ==
  /\ cur.h = "fin"
  /\ On("C13") => DOMAIN live = {} /\ blocks = 0 /\ bad = 0
  /\ Done /\ UNCHANGED <<live, objs, store>>
===============================================================================
