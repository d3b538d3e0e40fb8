--------------------------------- MODULE Store ---------------------------------
(* The public API as a state machine over objects, images, files and streams.

   Each action is one completed API call; its parameters after the slots are what the call
   returned or did (sizes, digests of the bytes, values seen afterwards). In the design
   model (StoreModel) they are given by a reference encoder; in the trace specification
   (StoreTrace) they are what the real library did. Every conjunct that expresses one of
   the properties C01..C06 is guarded by On(property), so that a check asserts exactly its
   own property. *)
EXTENDS Values

CONSTANT Props
VARIABLES obj,    \* slot -> [ty, val, n: operation -> size, d: operation -> digest, fp]
          img,    \* slot -> image in memory
          file,   \* slot -> image in a file
          strm    \* slot -> [recs: sequence of [at, n, c], total, rd]
vars == <<obj, img, file, strm>>

On(p) == p \in Props
Empty == [x \in {} |-> 0]
Put(f, x, y) == (x :> y) @@ f
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Image(ty, val, n, d) == [ty |-> ty, val |-> val, n |-> n, d |-> d]
Junk == Image(0, Node("junk", 0, "", <<>>), 0, "")
Fresh(ty, v) == [ty |-> ty, val |-> v, n |-> Empty, d |-> Empty, fp |-> Empty]
Learn(o, op, n, d) == [o EXCEPT !.n = Put(@, op, n), !.d = IF d = "" THEN @ ELSE Put(@, op, d)]

Init == obj = Empty /\ img = Empty /\ file = Empty /\ strm = Empty

-------------------------------------------------------------------------------
Make(s, ty, v) == obj' = Put(obj, s, Fresh(ty, v)) /\ UNCHANGED <<img, file, strm>>
Remove(s) == s \in DOMAIN obj /\ obj' = Del(obj, s) /\ UNCHANGED <<img, file, strm>>

\* what every operation that reads an object owes to C02, C03 and C04
Observed(o, op, n, d, after) ==
  /\ On("C02") => \A k \in DOMAIN o.n : o.n[k] = n
  /\ On("C03") => /\ after = o.val
                  /\ op \in DOMAIN o.n => o.n[op] = n
                  /\ op \in DOMAIN o.d => o.d[op] = d
  /\ On("C04") => d = "" \/ \A k \in DOMAIN o.d : o.d[k] = d

GetSize(s, n, after) ==
  /\ s \in DOMAIN obj
  /\ Observed(obj[s], "gs", n, "", after)
  /\ obj' = Put(obj, s, Learn(obj[s], "gs", n, ""))
  /\ UNCHANGED <<img, file, strm>>

Footprint(s, off, n, after) ==
  /\ s \in DOMAIN obj
  /\ On("C03") => after = obj[s].val /\ (off \in DOMAIN obj[s].fp => obj[s].fp[off] = n)
  /\ obj' = Put(obj, s, [obj[s] EXCEPT !.fp = Put(@, off, n)])
  /\ UNCHANGED <<img, file, strm>>

\* op: "se" library buffer, "su" caller's buffer, "sn" callback answering null
Serialize(op, s, m, n, d, calls, asked, buf, after) ==
  /\ s \in DOMAIN obj
  /\ Observed(obj[s], op, n, d, after)
  /\ On("C02") /\ op \in {"su", "sn"} => calls = 1 /\ asked = n /\ buf = "same"
  /\ obj' = Put(obj, s, Learn(obj[s], op, n, d))
  /\ img' = Put(img, m, Image(obj[s].ty, obj[s].val, n, d))
  /\ UNCHANGED <<file, strm>>

WriteFile(s, f, n, d, after) ==
  /\ s \in DOMAIN obj
  /\ Observed(obj[s], "wf", n, d, after)
  /\ obj' = Put(obj, s, Learn(obj[s], "wf", n, d))
  /\ file' = Put(file, f, Image(obj[s].ty, obj[s].val, n, d))
  /\ UNCHANGED <<img, strm>>

NewStream(t) == strm' = Put(strm, t, [recs |-> <<>>, total |-> 0, rd |-> 0]) /\ UNCHANGED <<obj, img, file>>

\* n: bytes the stream grew by; kept: everything before is untouched
WriteStream(s, t, n, kept, d, after) ==
  /\ s \in DOMAIN obj /\ t \in DOMAIN strm
  /\ Observed(obj[s], "ws", n, d, after)
  /\ On("C06") => kept
  /\ obj' = Put(obj, s, Learn(obj[s], "ws", n, d))
  /\ strm' = Put(strm, t, [strm[t] EXCEPT !.recs = Append(@, [at |-> strm[t].total, n |-> n, c |-> Image(obj[s].ty, obj[s].val, n, d)]),
                                          !.total = @ + n])
  /\ UNCHANGED <<img, file>>

AppendJunk(t, n) ==
  /\ t \in DOMAIN strm
  /\ strm' = Put(strm, t, [strm[t] EXCEPT !.recs = Append(@, [at |-> strm[t].total, n |-> n, c |-> Junk]), !.total = @ + n])
  /\ UNCHANGED <<obj, img, file>>
Skip(t, n) ==
  /\ t \in DOMAIN strm
  /\ strm' = Put(strm, t, [strm[t] EXCEPT !.rd = @ + n])
  /\ UNCHANGED <<obj, img, file>>

\* what every operation that restores an object owes to the properties
Restored(c, r, inplace) ==
  /\ On("C01") => Restores(c.val, r)
  /\ On("C03") \/ On("C04") \/ On("C06") => SameValue(c.val, r)
  /\ On("C05") /\ inplace => SameValue(c.val, r)

ReadImg(m, s, ty, inplace, unchanged, r) ==
  /\ m \in DOMAIN img /\ img[m].ty = ty
  /\ inplace => s \in DOMAIN obj /\ obj[s].ty = ty
  /\ On("C03") => unchanged
  /\ Restored(img[m], r, inplace)
  /\ obj' = Put(obj, s, Fresh(ty, r))
  /\ UNCHANGED <<img, file, strm>>

ReadFile(f, s, ty, inplace, unchanged, r) ==
  /\ f \in DOMAIN file /\ file[f].ty = ty
  /\ inplace => s \in DOMAIN obj /\ obj[s].ty = ty
  /\ On("C03") => unchanged
  /\ Restored(file[f], r, inplace)
  /\ obj' = Put(obj, s, Fresh(ty, r))
  /\ UNCHANGED <<img, file, strm>>

\* serialize into a returned buffer object and deserialize from that object
Roundtrip(s, s2, n, r) ==
  /\ s \in DOMAIN obj
  /\ Restored(Image(obj[s].ty, obj[s].val, n, ""), r, FALSE)
  /\ obj' = Put(obj, s2, Fresh(obj[s].ty, r))
  /\ UNCHANGED <<img, file, strm>>

NextRecord(t, ty) == {i \in 1..Len(strm[t].recs) :
                        /\ strm[t].recs[i].at = strm[t].rd /\ strm[t].recs[i].c.ty = ty
                        /\ strm[t].recs[i].at + strm[t].recs[i].n <= strm[t].total}
ReadStream(t, s, ty, inplace, consumed, unchanged, r) ==
  /\ t \in DOMAIN strm
  /\ inplace => s \in DOMAIN obj /\ obj[s].ty = ty
  /\ \E i \in NextRecord(t, ty) :
       /\ On("C06") \/ On("C02") => consumed = strm[t].recs[i].n
       /\ On("C06") \/ On("C03") => unchanged
       /\ Restored(strm[t].recs[i].c, r, inplace)
  /\ obj' = Put(obj, s, Fresh(ty, r))
  /\ strm' = Put(strm, t, [strm[t] EXCEPT !.rd = @ + consumed])
  /\ UNCHANGED <<img, file>>

\* the record is cut short: the read throws, and no new object appears
ReadStreamShort(t, s, ty, inplace) ==
  /\ t \in DOMAIN strm
  /\ NextRecord(t, ty) = {}
  /\ obj' = Del(obj, s)
  /\ strm' = Put(strm, t, [strm[t] EXCEPT !.rd = strm[t].total + 1])    \* a stream that failed stays failed
  /\ UNCHANGED <<img, file>>

\* the caller moves bytes between places, or cuts them off
Content(kind, x) ==
  CASE kind = "m" -> img[x] [] kind = "f" -> file[x]
    [] kind = "s" -> IF Len(strm[x].recs) = 1 THEN strm[x].recs[1].c ELSE Junk
Copy(k1, a, k2, b, n) ==
  LET c == Content(k1, a) IN
  CASE k2 = "m" -> img' = Put(img, b, c) /\ UNCHANGED <<obj, file, strm>>
    [] k2 = "f" -> file' = Put(file, b, c) /\ UNCHANGED <<obj, img, strm>>
    [] k2 = "s" -> /\ strm' = Put(strm, b, [strm[b] EXCEPT !.recs = Append(@, [at |-> strm[b].total, n |-> n, c |-> c]), !.total = @ + n])
                   /\ UNCHANGED <<obj, img, file>>
TruncateStream(t, n) ==
  /\ strm' = Put(strm, t, [strm[t] EXCEPT !.total = n])
  /\ UNCHANGED <<obj, img, file>>

-------------------------------------------------------------------------------
(* Reading what is not a complete image of the requested type (C08, C09).
   An outcome is [t |-> outcome, n, v, k |-> <<value>>]; "serr" is the serialization error. *)
\* the image c read as each of the types lo..hi; acc lists what was not a serialization error
ReadAsEach(c, lo, hi, tried, rejected, acc, more) ==
  /\ On("C09") =>
       /\ more = 0
       /\ IF c.ty \in lo..hi
            THEN /\ rejected = tried - 1 /\ Len(acc) = 1
                 /\ acc[1].t = "ok" /\ acc[1].n = c.ty /\ SameValue(c.val, acc[1].k[1])
            ELSE rejected = tried /\ acc = <<>>
  /\ UNCHANGED vars

\* bytes of an image are overwritten: it does not begin like an image of any type any more
Spoil(m, same) == img' = (IF same THEN img ELSE Put(img, m, Junk)) /\ UNCHANGED <<obj, file, strm>>

\* every proper prefix of an image (possibly filled up with zeros) read as type ty
ReadEachCut(c, ty, tried, threw, acc, more) ==
  /\ On("C08") => /\ more = 0 /\ tried = threw + Len(acc)
                  /\ \A i \in 1..Len(acc) : acc[i].v = "same" /\ acc[i].t = "ok" /\ c.ty = ty /\ SameValue(c.val, acc[i].k[1])
  /\ On("C09") => (c.ty # ty => threw = tried)
  /\ UNCHANGED vars

\* the process dies (or not) while it writes the object to a file; d, n: what is in the file
WriteKilled(s, f, status, n, d) ==
  /\ s \in DOMAIN obj
  /\ On("C08") => status \in {0, 77} /\ (status = 0 => d = obj[s].d["se"])
  /\ file' = Put(file, f, IF d = obj[s].d["se"] THEN Image(obj[s].ty, obj[s].val, n, d)
                          ELSE IF f \in DOMAIN file /\ file[f].d = d THEN file[f] ELSE Image(0, Junk.val, n, d))
  /\ UNCHANGED <<obj, img, strm>>
ReadLeft(f, ty, out, r) ==
  /\ On("C08") => IF f \in DOMAIN file /\ file[f].ty = ty THEN out = "ok" /\ SameValue(file[f].val, r)
                  ELSE out \in {"serr", "rt", "std", "unk"}
  /\ UNCHANGED vars

-------------------------------------------------------------------------------
\* an object larger than 4 GiB: every size that is visible anywhere, and intact markers
HugeObject(sizes, intact) ==
  /\ On("C02") => intact /\ \A i \in 1..Len(sizes) : sizes[i].v = sizes[1].v
  /\ UNCHANGED vars
================================================================================
