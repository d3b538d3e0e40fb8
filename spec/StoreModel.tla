------------------------------- MODULE StoreModel -------------------------------
(* The design model of Store: small slots and values, a reference encoder, all interleavings
   of API calls, and the properties C01-C06 as invariants over ghost state. The same module
   enumerates histories that are replayed on the real library (hist, GenAlphabet). *)
EXTENDS Store, Json, IOUtils

CONSTANTS Objs, Imgs, Files, Strms, Values0, MaxRecs, Alphabet, MaxHist, Gen, Start, Later
VARIABLES src,     \* slot -> the value its object was made with, possibly restored since
          isrc, fsrc,  \* the same for images and files
          wlog, rlog,  \* per stream: values written / read since it was created
          hist
mvars == <<vars, src, isrc, fsrc, wlog, rlog, hist>>

V == {Node("b", 0, x, <<>>) : x \in Values0}
Size(v) == 4 + Len(v.v)
Dig(v)  == "d" \o v.v
In(op) == op \in Alphabet \cup Later
Note(op, a, b) == /\ Gen => /\ Len(hist) < MaxHist     \* histories begin with Start and go on with operations in Later
                            /\ IF Len(hist) < Len(Start) THEN Start[Len(hist) + 1] = <<op, a, b>> ELSE op \in Later
                  /\ hist' = IF Gen THEN Append(hist, <<op, a, b>>) ELSE hist
Same == UNCHANGED <<isrc, fsrc, wlog, rlog>>

MInit == Init /\ src = Empty /\ isrc = Empty /\ fsrc = Empty /\ wlog = Empty /\ rlog = Empty /\ hist = <<>>

MMake == \E s \in Objs, v \in V : In("mk") /\ Make(s, 1, v) /\ src' = Put(src, s, v) /\ Note("mk", s, 0) /\ Same
MSize == \E s \in DOMAIN obj : LET v == obj[s].val IN
           In("gs") /\ GetSize(s, Size(v), v) /\ Note("gs", s, 0) /\ UNCHANGED src /\ Same
MFp   == \E s \in DOMAIN obj : In("fp") /\ Footprint(s, 0, Size(obj[s].val), obj[s].val) /\ Note("fp", s, 0) /\ UNCHANGED src /\ Same
MSer  == \E s \in DOMAIN obj, m \in Imgs, op \in {"se", "su", "sn"} : LET v == obj[s].val IN
           /\ In(op) /\ Serialize(op, s, m, Size(v), Dig(v), 1, Size(v), "same", v)
           /\ isrc' = Put(isrc, m, src[s]) /\ Note(op, s, m) /\ UNCHANGED <<src, fsrc, wlog, rlog>>
MWf   == \E s \in DOMAIN obj, f \in Files : LET v == obj[s].val IN
           /\ In("wf") /\ WriteFile(s, f, Size(v), Dig(v), v)
           /\ fsrc' = Put(fsrc, f, src[s]) /\ Note("wf", s, f) /\ UNCHANGED <<src, isrc, wlog, rlog>>
MNs   == \E t \in Strms : /\ In("ns") /\ t \notin DOMAIN strm /\ NewStream(t) /\ wlog' = Put(wlog, t, <<>>) /\ rlog' = Put(rlog, t, <<>>)
                          /\ Note("ns", t, 0) /\ UNCHANGED <<src, isrc, fsrc>>
MWs   == \E s \in DOMAIN obj, t \in DOMAIN strm : LET v == obj[s].val IN
           /\ In("ws") /\ Len(strm[t].recs) < MaxRecs /\ WriteStream(s, t, Size(v), TRUE, Dig(v), v)
           /\ wlog' = [wlog EXCEPT ![t] = Append(@, src[s])] /\ Note("ws", s, t) /\ UNCHANGED <<src, isrc, fsrc, rlog>>
MJunk == \E t \in DOMAIN strm : In("as") /\ Len(strm[t].recs) < MaxRecs /\ AppendJunk(t, 3) /\ Note("as", t, 3) /\ UNCHANGED src /\ Same
MSkip == \E t \in DOMAIN strm : /\ In("ks") /\ (\E i \in 1..Len(strm[t].recs) : strm[t].recs[i].at = strm[t].rd /\ strm[t].recs[i].c = Junk)
                                /\ Skip(t, 3) /\ Note("ks", t, 3) /\ UNCHANGED src /\ Same
MRi   == \E m \in DOMAIN img, s \in Objs, op \in {"dm", "du", "di"} :
           /\ In(op) /\ (op = "di" => s \in DOMAIN obj)
           /\ ReadImg(m, s, 1, op = "di", TRUE, img[m].val)
           /\ src' = Put(src, s, isrc[m]) /\ Note(op, m, s) /\ Same
MRf   == \E f \in DOMAIN file, s \in Objs, op \in {"rf", "ri"} :
           /\ In(op) /\ (op = "ri" => s \in DOMAIN obj)
           /\ ReadFile(f, s, 1, op = "ri", TRUE, file[f].val)
           /\ src' = Put(src, s, fsrc[f]) /\ Note(op, f, s) /\ Same
MRs   == \E t \in DOMAIN strm, s \in Objs, op \in {"rs", "rt"} : \E i \in NextRecord(t, 1) :
           LET c == strm[t].recs[i].c IN
           /\ In(op) /\ (op = "rt" => s \in DOMAIN obj)
           /\ ReadStream(t, s, 1, op = "rt", strm[t].recs[i].n, TRUE, c.val)
           /\ src' = Put(src, s, c.val) /\ rlog' = [rlog EXCEPT ![t] = Append(@, c.val)]
           /\ Note(op, t, s) /\ UNCHANGED <<isrc, fsrc, wlog>>
MCopy == \E k1, k2 \in {"m", "f", "s"} :
           LET D(k) == CASE k = "m" -> DOMAIN img [] k = "f" -> DOMAIN file [] k = "s" -> {t \in DOMAIN strm : Len(strm[t].recs) = 1}
               T(k) == CASE k = "m" -> Imgs [] k = "f" -> Files [] k = "s" -> {t \in DOMAIN strm : Len(strm[t].recs) = 0}
               G(k, x) == CASE k = "m" -> isrc[x] [] k = "f" -> fsrc[x] [] k = "s" -> Content("s", x).val
           IN \E a \in D(k1), b \in T(k2) :
              /\ In("cp" \o k1 \o k2) /\ <<k1, a>> # <<k2, b>> /\ Content(k1, a) # Junk /\ Copy(k1, a, k2, b, Content(k1, a).n)
              /\ isrc' = IF k2 = "m" THEN Put(isrc, b, G(k1, a)) ELSE isrc
              /\ fsrc' = IF k2 = "f" THEN Put(fsrc, b, G(k1, a)) ELSE fsrc
              /\ wlog' = IF k2 = "s" THEN [wlog EXCEPT ![b] = Append(@, G(k1, a))] ELSE wlog
              /\ Note("cp" \o k1 \o k2, a, b) /\ UNCHANGED <<src, rlog>>

MNext == MMake \/ MSize \/ MFp \/ MSer \/ MWf \/ MNs \/ MWs \/ MJunk \/ MSkip \/ MRi \/ MRf \/ MRs \/ MCopy
MSpec == MInit /\ [][MNext]_mvars

-------------------------------------------------------------------------------
Faithful ==   \* C01, C05: whatever path a value took, it is the value that was made
  /\ \A s \in DOMAIN obj  : SameValue(src[s], obj[s].val)
  /\ \A m \in DOMAIN img  : SameValue(isrc[m], img[m].val)
  /\ \A f \in DOMAIN file : SameValue(fsrc[f], file[f].val)
Exact ==      \* C02, C04: equal values have equal sizes and images, whatever the transport
  \A s \in DOMAIN obj : /\ \A k \in DOMAIN obj[s].n : obj[s].n[k] = Size(obj[s].val)
                        /\ \A k \in DOMAIN obj[s].d : obj[s].d[k] = Dig(obj[s].val)
Records ==    \* C06: what was read is, in order, a prefix of what was written
  \A t \in DOMAIN strm : /\ Len(rlog[t]) <= Len(wlog[t])
                         /\ \A i \in 1..Len(rlog[t]) : rlog[t][i] = wlog[t][i]
                         /\ strm[t].rd <= strm[t].total
Untouched ==  \* C03: observing is not changing
  [][\A s \in DOMAIN obj : (s \in DOMAIN obj' /\ obj'[s].n # Empty) => obj'[s].val = obj[s].val \/ obj'[s].n = Empty]_vars

DesignView == <<vars, src, isrc, fsrc, wlog, rlog>>
\* ---- enumeration of histories: print the complete ones
Emit == (Gen /\ Len(hist) = MaxHist) => PrintT("HIST " \o ToJson(hist))
================================================================================
