-------------------------------- MODULE Registry --------------------------------
(* A program made of several translation units, linked in some order, in which types,
   classes of polymorphic hierarchies and traversals are used for the first time in some
   order. What the program sees of the type and class registries, whatever these orders:

   - a type has one identity, the same from every unit and at every time; no two types
     have the same one;
   - the same for the classes of a hierarchy;
   - a value written in one unit is restored in any other, with the dynamic classes it had;
     the image of a value of one type is refused as an image of another (in a checked build);
   - every level of every object is handled, from the root of its hierarchy to its dynamic
     class, by its own serialize function and by the serializer of the operation itself;
   - a user's traversal of a value sees the same from every unit.

   Polymorphic values: [t |-> "ptr", k |-> <<>> or <<[t |-> "po", v |-> class, k |-> levels]>>],
   a level being [t |-> "lv", k |-> <<scalar>> or <<scalar, pointer>>]. *)
EXTENDS Values
CONSTANT Chain     \* class |-> its classes from the root of the hierarchy to itself
VARIABLES tid,     \* [type |-> identity], as far as seen
          many,    \* [mass type |-> identity]
          cid,     \* [class |-> index]
          img,     \* [slot |-> what was written]
          cov,     \* [traversal |-> classes it was instantiated for]
          seen     \* [<<traversal, value>> |-> bytes]
vars == <<tid, many, cid, img, cov, seen>>

Init == tid = <<>> /\ many = <<>> /\ cid = <<>> /\ img = <<>> /\ cov = <<>> /\ seen = <<>>

-------------------------------------------------------------------------------
RECURSIVE Flat(_), FlatLevels(_, _, _)
\* the classes whose serialize functions run, in order, in one pass over a pointer
Flat(p) == IF p.k = <<>> THEN <<>> ELSE FlatLevels(Chain[p.k[1].v], p.k[1].k, 1)
FlatLevels(ch, ls, i) ==
  IF i > Len(ls) THEN <<>>
  ELSE <<ch[i]>> \o (IF Len(ls[i].k) > 1 THEN Flat(ls[i].k[2]) ELSE <<>>) \o FlatLevels(ch, ls, i + 1)
WellFormed(p) == p.k # <<>> => Len(Chain[p.k[1].v]) = Len(p.k[1].k)
RECURSIVE ClassesOf(_)
ClassesOf(p) == LET f == Flat(p) IN {f[i] : i \in 1..Len(f)}

Writers == {"Sizer", "Packer", "PackerUserBuf", "PackerIO", "StreamPacker"}
Readers == {"Unpacker", "UnpackerIO", "StreamUnpacker"}
\* whole passes over the value, each by one serializer throughout
Passes(vis, f, by) ==
  IF f = <<>> THEN vis = <<>>
  ELSE /\ vis # <<>> /\ Len(vis) % Len(f) = 0
       /\ \A i \in 1..Len(vis) :
            LET first == ((i - 1) \div Len(f)) * Len(f) + 1
            IN  /\ vis[i][1] = f[i - first + 1]
                /\ vis[i][2] = vis[first][2] /\ vis[i][2] \in by

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
\* a new or confirmed identity, not shared
One(f, x, y) == IF x \in DOMAIN f THEN f[x] = y ELSE \A z \in DOMAIN f : f[z] # y
Range(f) == {f[x] : x \in DOMAIN f}

-------------------------------------------------------------------------------

TypeId(t, id, nm) ==
  /\ One(tid, t, id) /\ id \notin Range(many) /\ nm # ""
  /\ tid' = Put(tid, t, id) /\ UNCHANGED <<many, cid, img, cov, seen>>
Many(first, ids) ==
  LET new == [x \in {first + i - 1 : i \in 1..Len(ids)} |-> ids[x - first + 1]]
      all == [x \in DOMAIN many \cup DOMAIN new |-> IF x \in DOMAIN new THEN new[x] ELSE many[x]]
  IN  /\ \A x \in DOMAIN many \cap DOMAIN new : many[x] = new[x]
      /\ Cardinality(Range(all)) = Cardinality(DOMAIN all)
      /\ Range(all) \cap Range(tid) = {}
      /\ many' = all /\ UNCHANGED <<tid, cid, img, cov, seen>>
ClassId(c, id) ==
  /\ IF c \in DOMAIN cid THEN cid[c] = id
     ELSE \A d \in DOMAIN cid : Chain[d][1] = Chain[c][1] => cid[d] # id
  /\ id # "-1"
  /\ cid' = Put(cid, c, id) /\ UNCHANGED <<tid, many, img, cov, seen>>

Write(t, s, v) == img' = Put(img, s, [t |-> t, v |-> v]) /\ UNCHANGED <<tid, many, cid, cov, seen>>
Read(t, s, v) == s \in DOMAIN img /\ img[s].t = t /\ Restores(img[s].v, v) /\ UNCHANGED vars
Refuse(t, s) == s \in DOMAIN img /\ img[s].t # t /\ UNCHANGED vars

PWrite(h, s, v, vis) ==
  /\ WellFormed(v) /\ Passes(vis, Flat(v), Writers)
  /\ img' = Put(img, s, [t |-> h, v |-> v]) /\ UNCHANGED <<tid, many, cid, cov, seen>>
PRead(h, s, v, vis) ==
  /\ s \in DOMAIN img /\ img[s].t = h
  /\ SameValue(img[s].v, v) /\ Passes(vis, Flat(v), Readers)
  /\ UNCHANGED vars

Instantiate(j, classes) ==
  /\ cov' = Put(cov, j, classes \cup (IF j \in DOMAIN cov THEN cov[j] ELSE {}))
  /\ UNCHANGED <<tid, many, cid, img, seen>>
Covered(j, v) == j \in DOMAIN cov /\ ClassesOf(v) \subseteq cov[j]
Traverse(j, h, v, vis, d) ==
  /\ Covered(j, v) /\ Passes(vis, Flat(v), {"T" \o ToString(j)})
  /\ IF <<j, h, v>> \in DOMAIN seen THEN seen[<<j, h, v>>] = d ELSE TRUE
  /\ seen' = Put(seen, <<j, h, v>>, d) /\ UNCHANGED <<tid, many, cid, img, cov>>
================================================================================
