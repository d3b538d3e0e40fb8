----------------------------- MODULE TraverseTrace -----------------------------
(* Accepts recordings of traversals in the real library that Traverse allows.
   TRACEFILE: one line per case, [ty, cfg, datalen, ev]; datalen: the size of the object's
   data, taken from its image in a build without per-element checks. *)
EXTENDS Traverse, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l, img, data, full, val
tvars == <<case, l, img, data, full, val>>
C == Cases[case]
E == C.ev[l + 1]
Keep == UNCHANGED <<img, data, full, val>>
Shown(bytes) == /\ Len(bytes) = C.datalen
                /\ IF C.cfg = "rel" THEN Body(img.bytes, img.framing, bytes) ELSE Within(bytes, img.bytes)
Step ==
  /\ E.same
  /\ \/ /\ E.how = "image" /\ l = 0 /\ img' = E /\ val' = E.val /\ UNCHANGED <<data, full>>
     \/ /\ E.how = "image" /\ l > 0 /\ E.val = val /\ Keep       \* traversing changes nothing
     \/ /\ E.how \in {"plain-ref", "plain-args", "plain-pipe", "typed-ref", "typed-args", "typed-pipe"}
        /\ IF data = <<>> THEN Shown(E.bytes) ELSE E.bytes = data[1]
        /\ data' = <<E.bytes>> /\ UNCHANGED <<img, full, val>>
     \/ /\ E.how \in {"obs-ref", "obs-args", "obs-pipe"} /\ E.bytes = data[1]
        /\ Visits(E.opens, C.ty, val, "")
        /\ full' = E.opens /\ UNCHANGED <<img, data, val>>
     \/ /\ E.how = "stop" /\ Visits(E.opens, C.ty, val, E.stop)
        /\ E.bytes = Cut(data[1], full, E.stop, 0) /\ Keep
     \/ /\ E.how = "array" /\ Len(E.bytes) = 2 * C.datalen
        /\ LET o == Known(E.opens) IN (Len(o) + 1) \in All(o, {1}, <<C.ty, C.ty>>, <<val, val>>, "") /\ Keep
TraceInit == case \in 1..Len(Cases) /\ l = 0 /\ img = <<>> /\ data = <<>> /\ full = <<>> /\ val = <<>>
TraceNext ==
  \/ l < Len(C.ev) /\ l < C.expect /\ Step /\ l' = l + 1 /\ case' = case
  \/ l = Len(C.ev) /\ l = C.expect /\ UNCHANGED tvars
View == <<case, l>>
================================================================================
