------------------------------- MODULE IOFileTrace -------------------------------
(* Accepts recordings of file operations of the real library that IOFile allows. Every
   file-system call the library makes is an event, in order. *)
EXTENDS IOFile, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES case, l, image,   \* object slot -> [d: digest of its complete image, val]
          files             \* file slot -> [d: digest, val] of a complete image
tvars == <<kernel, case, l, image, files>>
E == Cases[case].ev[l + 1]
ok == E.out = "ok"
Err == E.val.n
Same == UNCHANGED <<image, files>>
Call ==
  /\ E.op = "call" /\ Same
  /\ LET n == E.what IN
     IF n = "munmap" THEN Unmap(E.b, E.n2, IF ok THEN 0 ELSE Err)
     ELSE IF n = "close" THEN Close(E.a, IF ok THEN 0 ELSE Err)
     ELSE IF ~ok THEN Fail(n, Err)
     ELSE CASE n = "open"  -> Open(E.a)
            [] n = "mmap"  -> Map(E.a, E.b, E.n2)
            [] n = "msync" -> Flush(E.n3 = 1 /\ E.b \in DOMAIN maps /\ maps[E.b] = E.n2, E.d)
            [] n = "fsync" -> Flush(TRUE, E.d)
            [] OTHER       -> Other
Outcome == CASE E.out = "ok" -> "ok" [] E.out \in {"rt", "serr"} -> "rt" [] E.out = "std" -> "user" [] OTHER -> "other"
Fresh == fails' = {} /\ synced' = "" /\ fds' = fds /\ maps' = maps
\* n1: user code throws in this operation; n2: mappings and descriptors really left over
Write == /\ E.op = "iw" /\ E.n2 = 0
         /\ MayReturnWrite(Outcome, E.n1 = 1, E.d, image[E.a].d)
         /\ files' = (IF E.out = "ok" THEN Put(files, E.b, image[E.a]) ELSE Del(files, E.b)) /\ Fresh /\ UNCHANGED image
Read  == /\ E.op = "ir" /\ E.n2 = 0
         /\ MayReturnRead(Outcome, E.n1 = 1, E.a \in DOMAIN files)
         /\ E.out = "ok" => SameValue(files[E.a].val, E.val)
         /\ Fresh /\ Same
Step == \/ Call \/ Write \/ Read
        \/ E.op = "mk" /\ Other /\ image' = Put(image, E.a, [d |-> "", val |-> E.val]) /\ UNCHANGED files
        \/ E.op = "se" /\ ok /\ Other /\ image' = [image EXCEPT ![E.a].d = E.d] /\ UNCHANGED files
        \/ E.op = "cp" /\ Other /\ files' = Del(files, E.b) /\ UNCHANGED image
        \/ E.op = "pg" /\ Other /\ Same
        \/ E.op = "end" /\ Other /\ Same
TraceInit == fds = {} /\ maps = Empty /\ synced = "" /\ fails = {} /\ image = Empty /\ files = Empty /\ case \in 1..Len(Cases) /\ l = 0
TraceNext ==
  \/ l < Len(Cases[case].ev) /\ Step /\ l' = l + 1 /\ case' = case
  \/ l = Len(Cases[case].ev) /\ Cases[case].ev[l].op = "end" /\ UNCHANGED tvars
View == <<case, l>>
================================================================================
