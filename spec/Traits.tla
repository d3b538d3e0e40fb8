--------------------------------- MODULE Traits ---------------------------------
(* C20: what a class is, as a function of what it declares, and what the library then does
   with it. A class declares, one thing at a time:
     bc     that its bytes may be copied: "mem" a member type (true), "memF" (false), "memD" (a
            type convertible to true), "inh" by inheritance, "ni" the non-intrusive trait,
            "sp" a specialization of the trait
     ser    a serialize function: "mem" member, "free", "mac" the byte macro
     split  "parent"/"this"/"both" of serializeParent and serializeThis
     dfl    default constructor: "yes", "no", "priv"
     tag    constructor from the library's tag: "yes", "no", "priv"
     rec    reconstruct: "mem", "memV" (returns void), "memP" (returns a pointer), "free", "spec" *)

EXTENDS Naturals, Sequences, FiniteSets, TLC
Dims == [bc    |-> <<"", "mem", "memF", "memD", "inh", "ni", "sp">>,
         ser   |-> <<"", "mem", "free", "mac">>,
         split |-> <<"", "parent", "this", "both">>,
         dfl   |-> <<"yes", "no", "priv">>,
         tag   |-> <<"no", "yes", "priv">>,
         rec   |-> <<"", "mem", "memV", "memP", "free", "spec">>]
Names == DOMAIN Dims
Vals(d) == {Dims[d][i] : i \in 1..Len(Dims[d])}
Plain == [d \in Names |-> Dims[d][1]]
Classes == [bc : Vals("bc"), ser : Vals("ser"), split : Vals("split"), dfl : Vals("dfl"), tag : Vals("tag"), rec : Vals("rec")]
Declared(c) == Cardinality({d \in Names : c[d] # Dims[d][1]})

-------------------------------------------------------------------------------
(* What the class is *)
Copyable(c)   == c.bc \in {"mem", "memD", "inh", "ni", "sp"}
HasSer(c)     == c.ser # ""
Traversable(c) == HasSer(c) \/ Copyable(c)
Rebuilt(c)    == c.rec \in {"mem", "free", "spec"}
Creatable(c)  == c.dfl = "yes" \/ c.tag = "yes" \/ Rebuilt(c)
Serializable(c) == HasSer(c) /\ Creatable(c)
Is(c) == [copyable |-> Copyable(c), function |-> HasSer(c), traversable |-> Traversable(c), creatable |-> Creatable(c), serializable |-> Serializable(c)]
\* the library can write it and read it back
Works(c) == Traversable(c) /\ Creatable(c)

(* What the library does with it *)
Means(c) == IF c.tag = "yes" THEN "tag" ELSE IF Rebuilt(c) THEN "rec" ELSE "def"
Calls(c) == IF Copyable(c) \/ c.ser = "mac" THEN <<>>
            ELSE IF c.ser = "free" THEN <<"free">>
            ELSE <<"ser">> \o IF c.split = "both" THEN <<"par", "this">> ELSE <<>>
\* members carried: x by serialize, p and q by serializeParent and -This, y only by bytes
Carried(c) == IF Copyable(c) \/ c.ser = "mac" THEN {"x", "y", "p", "q"}
              ELSE {"x"} \cup IF c.ser = "mem" /\ c.split = "both" THEN {"p", "q"} ELSE {}

================================================================================
