-------------------------------- MODULE Values --------------------------------
(* Types and values of the library, as the properties see them.

   A type term is [c |-> constructor, a |-> <<argument types>>].
   A value term is [t |-> tag, n |-> number, v |-> payload, k |-> <<children>>]:
     "b"    scalar or byte-copied object      v = its bytes (hex)
     "str"  string                            v = bytes, n = length
     "vec"  vector                            n = reserved capacity, k = elements
     "seq"  any other ordered container       k = elements in iteration order
     "bag"  unordered container               k = elements in any order
     "opt" "ptr"                              k = <<>> or <<value>>
     "var"  variant                           n = active index, k = <<value>>
     "tup"  tuple, pair, class                k = members
     "dig"  a large value, represented by a digest of its canonical form, and one child: a
            "vec" without elements whose capacity is the sum of all of them
   The abstraction function from C++ objects to value terms is harness/types.h. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Leaf(l)       == [c |-> l, a |-> <<>>]
Un(c, t)      == [c |-> c, a |-> <<t>>]
Bin(c, t, u)  == [c |-> c, a |-> <<t, u>>]
Tri(c,t,u,w)  == [c |-> c, a |-> <<t, u, w>>]
Five(c,t,u,w,x,y) == [c |-> c, a |-> <<t, u, w, x, y>>]

Node(t, n, v, k) == [t |-> t, n |-> n, v |-> v, k |-> k]

-------------------------------------------------------------------------------
(* What it means to restore a value. *)
RECURSIVE SameValue(_, _), BagSame(_, _)
SameValue(o, r) ==      \* equal as seen by the user (capacity is not part of it)
  /\ o.t = r.t /\ o.v = r.v /\ Len(o.k) = Len(r.k)
  /\ o.t # "vec" => o.n = r.n
  /\ IF o.t = "bag" THEN BagSame(o.k, r.k)
                    ELSE \A i \in 1..Len(o.k) : SameValue(o.k[i], r.k[i])
BagSame(a, b) ==
  IF Len(a) = 0 THEN Len(b) = 0
  ELSE \E i \in 1..Len(b) :
         /\ SameValue(a[1], b[i])
         /\ \A j \in 1..(i-1) : ~SameValue(a[1], b[j])
         /\ BagSame(Tail(a), SubSeq(b, 1, i-1) \o SubSeq(b, i+1, Len(b)))

RECURSIVE CapacityKept(_, _)
CapacityKept(o, r) ==   \* given SameValue(o, r): reserved capacity is at least the original
  /\ o.t = "vec" => r.n >= o.n
  /\ IF o.t = "bag"
       THEN \* some pairing of equal elements keeps the capacity of each
            LET RECURSIVE M(_, _)
                M(a, b) == IF Len(a) = 0 THEN TRUE
                           ELSE \E i \in 1..Len(b) :
                                  /\ SameValue(a[1], b[i]) /\ CapacityKept(a[1], b[i])
                                  /\ M(Tail(a), SubSeq(b, 1, i-1) \o SubSeq(b, i+1, Len(b)))
            IN  M(o.k, r.k)
       ELSE \A i \in 1..Len(o.k) : CapacityKept(o.k[i], r.k[i])

Restores(o, r) == SameValue(o, r) /\ CapacityKept(o, r)

-------------------------------------------------------------------------------
(* Traits of type terms: which compositions the library supports. *)
RECURSIVE Copyable(_), Ordered(_), DefaultCons(_)

MoveOnly  == {"Poly", "ptr", "ptrD", "RPtr", "Link"}
NoDefault == {"TBox", "RBox", "RnBox"}
Copyable(t)    == t.c \notin MoveOnly /\ \A i \in 1..Len(t.a) : Copyable(t.a[i])
Ordered(t)     == /\ t.c \notin {"umap","ummap","uset","umset","SPtr","ptr","ptrD","RPtr","Poly","shp","raw","opaq","func","f32","f64","f80","durf","durd","vecb","Tree","Link","Bush"}
                  /\ \A i \in 1..Len(t.a) : Ordered(t.a[i])
DefaultCons(t) == /\ t.c \notin NoDefault
                  /\ t.c \in {"pair","arr1","arr3","arr17","tup1","tup2","tup3","tup5","Box","NiBox","Rec","Der","CArr"}
                       => \A i \in 1..Len(t.a) : DefaultCons(t.a[i])
                  /\ t.c \in {"var2","var3","var5"} => DefaultCons(t.a[1])

UnarySeq   == {"vec","vecA","list","deque","queue","arr1","arr3","arr17","arr0"}
UnaryAssoc == {"set","setG","mset","uset","umset"}
UnaryBox   == {"opt","ptr","ptrD","tup1","Box","NiBox","TBox","RBox","RnBox","CArr","RPtr","SPtr","Tree","Link","Bush"}
Unary      == UnarySeq \cup UnaryAssoc \cup UnaryBox
Variants   == {"var2","var3","var5"}
Maps       == {"map","mapG","mmap","umap","ummap"}

RECURSIVE WF(_)
WF(t) ==
  /\ \A i \in 1..Len(t.a) : WF(t.a[i])
  /\ t.c \in {"queue","Bush"}                       => Copyable(t.a[1])
  /\ t.c = "list"                                  => Copyable(t.a[1]) \/ t.a[1].c \in MoveOnly
  /\ t.c \in {"arr0","arr1","arr3","arr17","CArr","Tree","Link","Bush","Box","NiBox","TBox","RBox","RnBox","tup1"} => DefaultCons(t.a[1])
  /\ t.c \in {"set","setG","mset"}                 => Ordered(t.a[1]) /\ Copyable(t.a[1])
  /\ t.c \in {"uset","umset"}                      => Ordered(t.a[1]) /\ Copyable(t.a[1])
  /\ t.c \in Maps => Ordered(t.a[1]) /\ Copyable(t.a[1]) /\ DefaultCons(t.a[1]) /\ DefaultCons(t.a[2])
  /\ t.c \in {"pair","Rec","Der","tup2","tup3","tup5"} => \A i \in 1..Len(t.a) : DefaultCons(t.a[i])
  /\ t.c \in Variants                              => /\ \A i, j \in 1..Len(t.a) : i # j => t.a[i] # t.a[j]
                                                       /\ DefaultCons(t.a[1])

-------------------------------------------------------------------------------
(* The type universe. *)
IntLeaves   == {"bool","char","i8","u8","i16","u16","i32","u32","i64","u64","ll","ull","wchar","c16","c32"}
FloatLeaves == {"f32","f64","f80"}
EnumLeaves  == {"E8","EU16","E32","E64","EPlain","Eb","Ec","EL","byte"}
PodLeaves   == {"PodTr","PodIn","PodMac","PodNi","PodSp","PodAl","PodBig"}
DurLeaves   == {"durms","durf","durd","durh","duri"}
Leaves      == IntLeaves \cup FloatLeaves \cup EnumLeaves \cup PodLeaves \cup DurLeaves \cup {"str"}

PolyVals ==
  LET c(i, k) == Node("tup", 0, "", << Node("ptr", 0, "", << Node("var", i, "", k) >>) >>)
      b(x) == Node("b", 0, x, <<>>)
      s == Node("str", 3, "780079", <<>>)
  IN << Node("tup", 0, "", << Node("ptr", 0, "", <<>>) >>), c(0, <<b("01000000")>>), c(1, <<b("ffffffff"), s>>),
        c(2, <<b("7b000000"), s, Node("vec", 2, "", <<b("0100"), b("ff7f")>>)>>), c(2, <<b("00000000"), Node("str", 0, "", <<>>), Node("vec", 0, "", <<>>)>>) >>

L(S) == {Leaf(l) : l \in S}
i32 == Leaf("i32")   str == Leaf("str")   u8 == Leaf("u8")   pod == Leaf("PodIn")
bool == Leaf("bool") i64 == Leaf("i64")

\* arguments every unary constructor is tried with in the quick tier: one representative of
\* each kind of part (arithmetic, byte-copied, class, non-default-constructible, container,
\* empty-able, owning)
Parts1 == {i32, bool, str, Leaf("PodNi"), Leaf("f64"), Leaf("E32"), Un("TBox", i32), Un("RBox", str), Un("RnBox", i32),
           Un("NiBox", str), Un("vec", i32), Un("vec", str), Un("opt", str), Un("ptr", str), Un("SPtr", i32),
           Bin("pair", i32, str), Bin("map", i32, str), Bin("umap", str, i32), Un("set", str), Un("list", i32), Bin("var2", i32, str)}
Keys   == {i32, str, Leaf("PodMac"), Leaf("u8"), Leaf("EU16"), Bin("pair", i32, str), Un("vec", i32), Un("Box", str), Un("opt", i32)}
Vals1  == {i32, str, pod, Un("vec", str), Un("ptr", str), Un("SPtr", str), Bin("map", str, i32), Un("opt", i32), Un("NiBox", str), bool}

\* a fixed pairing so that every constructor meets every kind of part over the whole universe
Products ==
  {Bin(c, x, y) : c \in {"pair","Rec","Der","tup2"}, x \in {i32, str, Un("vec", i32), Un("ptr", i32)}, y \in {bool, str, Un("vec", str), Un("opt", str)}}
Sums ==
  {Bin("var2", i32, str), Bin("var2", Un("vec", i32), Un("vec", str)), Bin("var2", Un("Box", str), Un("TBox", i32)),
   Bin("var2", Un("ptr", str), i32), Tri("var3", Leaf("u8"), str, Un("vec", bool)), Tri("var3", Un("opt", i32), Bin("map", i32, str), Un("RBox", i32)),
   Tri("var3", str, Leaf("f64"), Leaf("PodTr")), Bin("var2", Un("list", str), Un("RnBox", i32)),
   Five("var5", i32, str, Un("vec", i32), Bin("map", i32, str), Un("ptr", str)), Five("var5", bool, Leaf("u8"), Leaf("f64"), i64, Leaf("E32")),
   Five("var5", Un("opt", str), Un("TBox", str), Un("RBox", i32), Un("NiBox", str), Un("SPtr", i32))}
Tuples ==
  {[c |-> "tup0", a |-> <<>>], Tri("tup3", i32, str, Un("vec", bool)), Tri("tup3", Un("ptr", i32), Leaf("u8"), Un("opt", str)),
   Tri("tup3", str, str, str), Tri("tup3", Un("vec", i32), Bin("map", i32, i32), Leaf("PodSp")),
   Five("tup5", i32, str, Un("vec", str), bool, Bin("map", i32, str)), Five("tup5", u8, i64, u8, Un("ptr", str), Un("opt", i32)),
   Five("tup5", i32, i32, i32, i32, i32)}

QuickTypes ==
  {t \in
     L(Leaves)
     \cup {Un(c, x) : c \in Unary, x \in {i32, str}}
     \cup {Un(c, x) : c \in {"vec","list","deque","set","opt","ptr","arr3","Box","TBox","CArr","queue"}, x \in Parts1}
     \cup {Un(c, x) : c \in {"set","mset","uset","umset","setG"}, x \in {Leaf("PodMac"), Un("vec", i32)}}
     \cup {Bin(c, x, y) : c \in Maps, x \in {i32}, y \in {str}}
     \cup {Bin("map", x, Un("vec", str)) : x \in Keys} \cup {Bin("map", i32, x) : x \in Vals1}
     \cup {Bin("umap", x, str) : x \in Keys} \cup {Bin("umap", i32, x) : x \in Vals1}
     \cup {Un("vec", Un("vec", Un("vec", i32))), Un("ptr", Un("ptr", Un("vec", str))), Un("opt", Un("opt", Un("opt", i32))),
           Un("vec", Un("opt", Un("ptr", Bin("Der", str, Un("vec", bool))))), Un("list", Bin("map", str, Un("set", i32))),
           Bin("map", str, Bin("map", i32, Bin("umap", str, Un("vec", i32)))), Un("vec", Leaf("u8")), Un("vec", Leaf("i64")),
           Un("vec", Leaf("PodIn")), Un("vec", Leaf("PodTr")), Un("vec", Leaf("EPlain")), Un("vec", Leaf("durms")), Un("arr3", Leaf("PodMac")), Un("CArr", Leaf("PodTr"))}
     \cup {Un("vec", Leaf(l)) : l \in {"ll","byte","Ec","durd","PodAl","PodBig"}} \cup {Un("arr17", x) : x \in {bool, Un("vec", bool), Un("NiBox", i32), Leaf("PodMac")}}
     \cup {Un("vec", Un("vec", bool)), Un("list", Un("ptr", str)), Un("list", Un("ptr", i32)), Un("deque", Un("ptr", str)), Un("opt", Leaf("PodAl")), Un("ptr", Leaf("PodAl")),
           Un("list", Leaf("PodAl")), Bin("map", Leaf("byte"), Leaf("PodBig")), Un("set", Leaf("ull")), Un("uset", Leaf("Ec")), Un("Tree", Un("opt", str)), Un("vec", Un("Tree", str)),
           Un("Link", Un("vec", i32)), Un("opt", Un("Link", i32)), Un("Tree", Un("SPtr", str)), Un("arr3", Un("arr3", Un("arr3", str))), Un("arr3", Un("CArr", i32)), Un("CArr", Un("CArr", str)),
           Bin("map", str, Bin("var2", i32, str)), Bin("umap", i32, Un("Tree", i32)), Un("ptr", Un("Link", str)), Un("vec", Un("Bush", str)), Un("ptr", Un("Bush", i32)), Bin("map", str, Un("Bush", i32))}
     \cup Products \cup Sums \cup Tuples
   : WF(t)}

\* a smaller universe: one type per serialization routine and kind of part
CoreTypes ==
  {t \in
     L({"bool","i32","u64","f64","f80","E32","PodIn","PodNi","durms","str"})
     \cup {Un(c, x) : c \in Unary, x \in {str}}
     \cup {Un(c, x) : c \in {"vec","arr3","CArr","opt","ptr","list"}, x \in {i32, bool, Un("vec", i32), Leaf("PodMac")}}
     \cup {Un(c, Un("TBox", i32)) : c \in {"vec","list","deque","opt","ptr"}}
     \cup {Un(c, Un("SPtr", str)) : c \in {"vec","list","deque","opt","queue"}}
     \cup {Bin(c, i32, str) : c \in Maps \cup {"pair","tup2","Rec","Der","var2"}}
     \cup {Bin("map", str, Un("vec", str)), Bin("map", i32, Un("ptr", str)), Bin("umap", str, Un("opt", i32)),
           Un("vec", Un("vec", str)), Un("vec", Un("ptr", str)), Un("ptr", Un("ptr", i32)), Un("opt", Un("opt", str)), Un("vec", Un("opt", Bin("pair", str, bool))),
           Tri("tup3", Un("vec", str), Un("ptr", i32), Un("opt", str)), Tri("var3", i32, str, Un("vec", str)), Un("arr3", Un("opt", str)),
           Bin("Rec", Un("vec", Un("list", i32)), Bin("map", i32, str)), Un("list", Un("vec", str)), Un("deque", Bin("map", i32, str)),
           Un("vec", Bin("Rec", i32, str)), Un("vec", Un("set", i32)), Un("vec", Bin("umap", i32, i32)), Un("opt", Bin("map", i32, str)), Un("RPtr", Un("vec", str)),
           Bin("map", Un("vec", i32), Un("list", str)), Un("vec", Bin("var2", i32, str)), Un("queue", Un("vec", i32))}
   : WF(t)}

PolyTypes == {Leaf("Poly"), Un("vec", Leaf("Poly")), Bin("map", i32, Leaf("Poly")), Bin("tup2", Leaf("Poly"), str), Un("opt", Leaf("Poly")), Bin("Rec", str, Leaf("Poly"))}

Inner == {Un(c, i32) : c \in Unary \ {"arr0"}} \cup {Un(c, str) : c \in Unary \ {"arr0"}} \cup L(Leaves)
DeepTypes == {t \in QuickTypes \cup {Un(c, x) : c \in Unary, x \in Inner}
                    \cup {Bin(c, x, y) : c \in Maps, x \in Keys, y \in Vals1} : WF(t)}

\* types the library can only footprint
FootOnly == {Un(c, x) : c \in {"shp","raw","stack","pq"}, x \in {i32, str, Un("vec", str)}}
            \cup {Un("raw", Un("shp", i32)), Un("vec", Un("shp", str)), Un("raw", Un("raw", str)), Un("shp", Un("shp", Un("ptr", i32))),
                  Un("vec", Leaf("opaq")), Un("arr3", Leaf("opaq")), Un("list", Leaf("opaq")), Un("opt", Leaf("opaq")), Bin("map", i32, Leaf("func")), Un("vec", Leaf("func")),
                  Un("shp", Leaf("opaq")), Un("raw", Leaf("opaq")), Un("stack", Un("shp", i32)), Un("arr3", Un("shp", str)), Bin("tup2", Leaf("func"), Un("shp", i32)), Bin("pair", str, Un("shp", str)),
                  Un("opt", Un("shp", str)), Un("shp", Bin("map", i32, str)), Un("Box", Un("shp", i32))}
            \cup L({"opaq","func","atom","thr","file","vptr"})
RECURSIVE FootSpecified(_)
FootSpecified(t) == /\ t.c \notin Variants \cup {"Bush"} /\ ~(t.c \in {"vec","vecA"} /\ t.a[1].c = "bool")
                    /\ \A i \in 1..Len(t.a) : FootSpecified(t.a[i])
FootTypes(S) == {t \in S \cup PolyTypes : FootSpecified(t)} \cup FootOnly

-------------------------------------------------------------------------------
(* Representative values of a type: every shape the serialization routines distinguish. *)
Bytes(w, b) == LET RECURSIVE R(_) R(n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN b \o R(n-1) ELSE LET h == R(n \div 2) IN h \o h IN R(w)
Width(l) == CASE l \in {"bool","char","i8","u8","E8","Eb","Ec","byte"} -> 1
              [] l \in {"i16","u16","c16","EU16"} -> 2
              [] l \in {"i32","u32","wchar","c32","E32","f32","durf","EPlain","duri"} -> 4
              [] l \in {"i64","u64","ll","ull","f64","E64","EL","durms","durd","durh"} -> 8
              [] l = "f80" -> 10
              [] l = "PodTr" -> 5 [] l = "PodIn" -> 9 [] l = "PodMac" -> 6 [] l = "PodNi" -> 10 [] l = "PodSp" -> 5
              [] l = "PodAl" -> 9 [] l = "PodBig" -> 1004
B(x) == Node("b", 0, x, <<>>)
LeafVals(l) ==
  CASE l \in {"bool","Eb"} -> << B("00"), B("01") >>
    [] l = "str"   -> << Node("str", 0, "", <<>>), Node("str", 1, "61", <<>>), Node("str", 3, "620063", <<>>),
                         Node("str", 15, Bytes(15, "64"), <<>>), Node("str", 16, Bytes(16, "ff"), <<>>) >>
    [] l = "f32"   -> << B("00000080"), B("0000c07f"), B("01000000"), B("db0f4940") >>
    [] l \in {"f64","durd"} -> << B("0000000000000080"), B("010000000000f87f"), B("0100000000000000"), B("182d4454fb210940") >>
    [] l = "durf"  -> << B("0000803f"), B("00000080") >>
    [] l = "f80"   -> << B("00000000000000000000"), B("000000000000008000c0"), B("35c26821a2da0fc90040") >>
    [] l = "EPlain" -> << B("00000000"), B("70110100") >>
    [] OTHER       -> LET w == Width(l) IN
                      << B(Bytes(w, "00")), B(Bytes(w, "ff")), B(Bytes(w-1, "00") \o "80"), B("7b" \o Bytes(w-1, "00")), B("01" \o Bytes(w-1, "23")) >>

First(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
At(s, i) == s[((i - 1) % Len(s)) + 1]
RECURSIVE Vals(_)
SeqVals(tag, iv, dup) ==   \* the empty, singleton, long and repetitive sequences
  << Node(tag, 0, "", <<>>) >>
  \o [i \in 1..Len(First(iv, 3)) |-> Node(tag, 1, "", <<iv[i]>>)]
  \o << Node(tag, Len(iv), "", iv) >>
  \o (IF dup THEN << Node(tag, 4, "", <<At(iv, 2), At(iv, 1), At(iv, 2), At(iv, 1)>>) >> ELSE <<>>)
VecVals(iv) == SeqVals("vec", iv, TRUE) \o << Node("vec", 9, "", <<>>), Node("vec", 20, "", First(iv, 2)) >>
Fix0(tag, n, iv) == << Node(tag, 0, "", [i \in 1..n |-> At(iv, i)]), Node(tag, 0, "", [i \in 1..n |-> At(iv, Len(iv) + 1 - ((i - 1) % Len(iv)))]) >>
Opt(tag, iv) == << Node(tag, 0, "", <<>>) >> \o [i \in 1..Len(First(iv, 4)) |-> Node(tag, 0, "", <<iv[i]>>)]
ZipRows(tag, ivs) ==   \* products: enough rows that each component takes each of its first values
  [r \in 1..4 |-> Node(tag, 0, "", [i \in 1..Len(ivs) |-> At(ivs[i], r + i - 1)])]
Strip0(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.n = 0]]
MapVals(tag, kv, xv) ==
  LET E(i) == Node("tup", 0, "", <<At(kv, i), At(xv, i)>>) IN
  << Node(tag, 0, "", <<>>), Node(tag, 0, "", <<E(1)>>), Node(tag, 0, "", <<E(2)>>),
     Node(tag, 0, "", [i \in 1..Len(kv) |-> E(i)]) >>
MultiMapVals(tag, kv, xv) ==
  MapVals(tag, kv, xv) \o << Node(tag, 0, "", << Node("tup", 0, "", <<At(kv, 1), At(xv, 2)>>), Node("tup", 0, "", <<At(kv, 1), At(xv, 1)>>),
                                                Node("tup", 0, "", <<At(kv, 2), At(xv, 1)>>), Node("tup", 0, "", <<At(kv, 1), At(xv, 2)>>) >>) >>
Vals(t) ==
  LET A(i) == Vals(t.a[i])
      P3 == \* classes with a third fixed member
            ZipRows("tup", <<A(1), A(2), LeafVals("u16")>>)
      VarVals == LET RECURSIVE G(_) G(i) == IF i > Len(t.a) THEN <<>> ELSE [j \in 1..Len(First(A(i), 3)) |-> Node("var", i - 1, "", <<A(i)[j]>>)] \o G(i+1) IN G(1)
  IN
  CASE t.c \in Leaves -> LeafVals(t.c)
    [] t.c = "Poly" -> PolyVals
    [] t.c = "shp" -> Opt("ptr", A(1))
    [] t.c = "raw" -> LET o == Opt("ptr", A(1)) IN [i \in 1..Len(o) |-> Node("tup", 0, "", <<o[i]>>)]
    [] t.c \in {"stack","pq"} -> Strip0(SeqVals("seq", A(1), TRUE))
    [] t.c = "opaq" -> << B("") >>
    [] t.c = "func" -> << B(""), Node("b", 1, "", <<>>) >>
    [] t.c \in {"atom","thr"} -> << Node("tup", 0, "", <<B("")>>) >>
    [] t.c \in {"file","vptr"} -> << Node("tup", 0, "", <<B("")>>), Node("tup", 0, "", <<Node("b", 1, "", <<>>)>>) >>
    [] t.c \in {"vec","vecA"} -> VecVals(A(1))
    [] t.c \in {"list","deque","queue"} -> Strip0(SeqVals("seq", A(1), TRUE))
    [] t.c = "arr0" -> << Node("seq", 0, "", <<>>) >>
    [] t.c = "arr1" -> Fix0("seq", 1, A(1))
    [] t.c = "arr3" -> Fix0("seq", 3, A(1))
    [] t.c = "arr17" -> Fix0("seq", 17, A(1))
    [] t.c \in {"set","setG"} -> Strip0(SeqVals("seq", A(1), FALSE))
    [] t.c = "mset" -> Strip0(SeqVals("seq", A(1), TRUE))
    [] t.c = "uset" -> Strip0(SeqVals("bag", A(1), FALSE))
    [] t.c = "umset" -> Strip0(SeqVals("bag", A(1), TRUE))
    [] t.c \in {"map","mapG"} -> MapVals("seq", A(1), A(2))
    [] t.c = "umap" -> MapVals("bag", A(1), A(2))
    [] t.c = "mmap" -> MultiMapVals("seq", A(1), A(2))
    [] t.c = "ummap" -> MultiMapVals("bag", A(1), A(2))
    [] t.c = "opt" -> Opt("opt", A(1))
    [] t.c \in {"ptr","ptrD"} -> Opt("ptr", A(1))
    [] t.c \in {"RPtr","SPtr"} -> LET o == Opt("ptr", A(1)) IN [i \in 1..Len(o) |-> Node("tup", 0, "", <<o[i]>>)]
    [] t.c \in {"Box","NiBox","TBox","RBox","RnBox","tup1"} -> [i \in 1..Len(A(1)) |-> Node("tup", 0, "", <<A(1)[i]>>)]
    [] t.c = "CArr" -> Fix0("tup", 3, A(1))
    [] t.c \in {"pair","tup2","Rec"} -> ZipRows("tup", <<A(1), A(2)>>)
    [] t.c = "Der" -> P3
    [] t.c = "tup3" -> ZipRows("tup", <<A(1), A(2), A(3)>>)
    [] t.c = "tup5" -> ZipRows("tup", <<A(1), A(2), A(3), A(4), A(5)>>)
    [] t.c = "tup0" -> << Node("tup", 0, "", <<>>) >>
    [] t.c \in Variants -> VarVals
    [] t.c = "Tree" -> LET m(x, ks) == Node("tup", 0, "", <<x, Node("vec", Len(ks), "", ks)>>)
                           a == At(A(1), 1)  b == At(A(1), 2)  c == At(A(1), 3)
                       IN << m(a, <<>>), m(b, <<m(c, <<>>)>>), m(c, <<m(a, <<>>), m(b, <<m(c, <<>>), m(a, <<m(b, <<>>)>>)>>), m(a, <<>>)>>) >>
    [] t.c = "Bush" -> LET N6(x, m, l, d, o, v) == Node("tup", 0, "", <<x, Node("seq", 0, "", m), Node("seq", 0, "", l), Node("seq", 0, "", d), Node("vec", Len(o), "", o), Node("vec", Len(v), "", v)>>)
                           a == At(A(1), 1)  b == At(A(1), 2)  c == At(A(1), 3)
                           K(i) == At(LeafVals("i32"), i)
                           leaf(x) == N6(x, <<>>, <<>>, <<>>, <<>>, <<>>)
                           En(i, x) == Node("tup", 0, "", <<K(i), x>>)
                           Some(x) == Node("opt", 0, "", <<x>>)
                           Alt(x) == Node("var", 1, "", <<x>>)
                           one == N6(b, <<En(1, leaf(a))>>, <<leaf(b)>>, <<leaf(c)>>, <<Some(leaf(a)), Node("opt", 0, "", <<>>)>>, <<Alt(leaf(c)), Node("var", 0, "", <<K(2)>>)>>)
                       IN << leaf(a), one, N6(c, <<En(1, one), En(2, leaf(b))>>, <<one, leaf(a)>>, <<leaf(b), one>>, <<Some(one), Some(leaf(c))>>, <<Alt(one), Alt(leaf(a))>>) >>
    [] t.c = "Link" -> LET RECURSIVE m(_) m(i) == Node("tup", 0, "", <<At(A(1), i), Node("ptr", 0, "", IF i = 1 THEN <<>> ELSE <<m(i - 1)>>)>>)
                       IN << m(1), m(2), m(3), m(7) >>
===============================================================================
