----------------------------- MODULE RegistryModel -----------------------------
(* The design of the registries: every unit instantiates some types and (class, serializer)
   pairs; static initialization runs unit after unit in link order and gives each the next
   number, once per program. The entry of a class for a serializer is found through the
   number of the hierarchy's root for the same serializer, which is stored in it when the
   class is first used with the serializers of the library, or when a user's traversal is
   instantiated for it. Checked for every link order, every order within a unit (forwards,
   backwards) and every order of first uses; Flaw selects a broken variant, which must fail. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Flaw
Units == {1, 2, 3}
Library == {"P", "U"}
ChainOf == [R |-> <<"R">>, D |-> <<"R", "D">>, E |-> <<"R", "D", "E">>, G |-> <<"R", "G">>]
Classes == DOMAIN ChainOf
Pairs == <<  << <<"R","P">>, <<"R","U">>, <<"D","P">>, <<"D","U">>, <<"D","T">>, <<"R","T">> >>,
             << <<"E","U">>, <<"E","P">>, <<"D","U">>, <<"D","P">>, <<"R","P">>, <<"R","U">>, <<"E","T">>, <<"D","T">>, <<"R","T">> >>,
             << <<"R","T">>, <<"G","T">>, <<"G","P">>, <<"G","U">>, <<"R","U">>, <<"R","P">> >> >>
\* <<name, entity>>: units 1 and 3 have local types of the same name
Types == << << <<"int", 0>>, <<"Local", 1>> >>, << <<"str", 0>>, <<"int", 0>> >>, << <<"Local", 3>>, <<"str", 0>>, <<"vec", 0>> >> >>

VARIABLES order, rev, reg, ids, link, used, ser
vars == <<order, rev, reg, ids, link, used, ser>>

Perms == {p \in [1..3 -> Units] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
Turn(s, r) == IF r THEN [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] ELSE s
RECURSIVE RegAll(_, _), IdsAll(_, _, _, _)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
\* registering a sequence of pairs
RegAll(r, ps) == IF ps = <<>> THEN r
                 ELSE LET c == Head(ps)[1] s == Head(ps)[2]
                      IN  RegAll(IF Has(r[c], s) THEN r ELSE [r EXCEPT ![c] = Append(@, s)], Tail(ps))
\* identities: [<<unit, type>> |-> number], next: the numbers handed out
IdsAll(f, u, ts, next) ==
  IF ts = <<>> THEN <<f, next>>
  ELSE LET t == Head(ts)
           old == {k \in DOMAIN f : k[2] = t}
           num == CASE Flaw = "name" -> Len(t[1])
                    [] Flaw = "unitcounter" -> Cardinality({k \in DOMAIN f : k[1] = u})
                    [] OTHER -> next
           v == IF old # {} /\ Flaw # "perunit" THEN f[CHOOSE k \in old : TRUE] ELSE num
       IN  IdsAll([k \in DOMAIN f \cup {<<u, t>>} |-> IF k = <<u, t>> THEN v ELSE f[k]], u, Tail(ts), next + 1)
Start(ord, rv) ==
  LET u1 == Turn(Pairs[ord[1]], rv[ord[1]]) u2 == Turn(Pairs[ord[2]], rv[ord[2]]) u3 == Turn(Pairs[ord[3]], rv[ord[3]])
      a == IdsAll(<<>>, ord[1], Turn(Types[ord[1]], rv[ord[1]]), 0)
      b == IdsAll(a[1], ord[2], Turn(Types[ord[2]], rv[ord[2]]), a[2])
      c == IdsAll(b[1], ord[3], Turn(Types[ord[3]], rv[ord[3]]), b[2])
  IN  /\ reg = RegAll([x \in Classes |-> <<>>], u1 \o u2 \o u3)
      /\ ids = c[1]
Init == /\ order \in Perms /\ rev \in [Units -> BOOLEAN] /\ Start(order, rev)
        /\ link = [c \in Classes |-> <<>>] /\ used = <<>> /\ ser = ""

Idx(c, s) == CHOOSE i \in 1..Len(reg[c]) : reg[c][i] = s
\* the root's number is stored in the entries of class c for the serializers ss
Linked(f, c, ss) ==
  LET n(s) == CASE Flaw = "nolink" -> Idx(c, s)
                [] Flaw = "nextlink" -> Cardinality(DOMAIN f[c]) + 1
                [] OTHER -> Idx("R", s)
  IN  [f EXCEPT ![c] = [i \in DOMAIN f[c] \cup {Idx(c, s) : s \in ss} |->
                          IF i \in {Idx(c, s) : s \in ss} THEN n(reg[c][i]) ELSE f[c][i]]]
Instantiate(c) == /\ Has(reg[c], "T") /\ link' = Linked(link, c, {"T"})
                  /\ used' = <<>> /\ ser' = "" /\ UNCHANGED <<order, rev, reg, ids>>
RECURSIVE LinkChain(_, _)
LinkChain(f, ch) == IF ch = <<>> THEN f ELSE LinkChain(IF Flaw = "linkonce" /\ DOMAIN f[Head(ch)] # {} THEN f ELSE Linked(f, Head(ch), Library), Tail(ch))
Ready(c, s) == s \in Library \/ \A d \in {ChainOf[c][i] : i \in 1..Len(ChainOf[c])} : Has(reg[d], s) /\ Idx(d, s) \in DOMAIN link[d]
Apply(c, s) ==
  /\ Ready(c, s)
  /\ link' = LinkChain(link, ChainOf[c])
  /\ LET ri == Idx("R", s)
         at(d) == IF d = "R" THEN reg["R"][ri]
                  ELSE IF Flaw = "samepos" THEN (IF ri <= Len(reg[d]) THEN reg[d][ri] ELSE "none")
                  ELSE LET c2 == {i \in DOMAIN link'[d] : link'[d][i] = ri}
                       IN  IF c2 = {} THEN "none" ELSE reg[d][CHOOSE i \in c2 : \A j \in c2 : i <= j]
     IN  used' = [i \in 1..Len(ChainOf[c]) |-> at(ChainOf[c][i])]
  /\ ser' = s /\ UNCHANGED <<order, rev, reg, ids>>
Next == \E c \in Classes : Instantiate(c) \/ \E s \in Library \cup {"T"} : Apply(c, s)

RightSerializer == \A i \in 1..Len(used) : used[i] = ser
SameIdentity == \A j, k \in DOMAIN ids : j[2] = k[2] => ids[j] = ids[k]
Distinct == \A j, k \in DOMAIN ids : j[2] # k[2] => ids[j] # ids[k]
================================================================================
