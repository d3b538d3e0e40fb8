------------------------------- MODULE IOFileModel -------------------------------
(* The library's steps of writing and reading a checkpoint file, with any call failing in
   any way, user code throwing anywhere, and operations following each other. *)
EXTENDS IOFile
CONSTANTS HasFallocate, MaxOps, MaxFails
VARIABLES pc, mode, content, cur, err, threw, ops, out
vars == <<kernel, pc, mode, content, cur, err, threw, ops, out>>
Errs == {5, ENOSPC}
Len0 == 7
NextFd == 10 + ops

Init == /\ fds = {} /\ maps = Empty /\ synced = "none" /\ fails = {} /\ pc = "idle" /\ mode = "w"
        /\ content \in {"absent", "old"} /\ cur = [fd |-> 0, m |-> 0] /\ err = FALSE /\ threw = FALSE /\ ops = 0 /\ out = "none"
CanFail == Cardinality(fails) < MaxFails
Go(p) == pc' = p
Keep == UNCHANGED <<mode, content, cur, err, threw, ops, out>>
Begin == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ mode' \in {"w", "r"} /\ Go("open")
         /\ fails' = {} /\ synced' = "none" /\ err' = FALSE /\ threw' = FALSE /\ out' = "none" /\ cur' = [fd |-> 0, m |-> 0]
         /\ UNCHANGED <<fds, maps, content>>
\* a call that fails: the rest is skipped, what was acquired is released
Broken(p, name) == /\ pc = p /\ CanFail /\ \E e \in Errs : Fail(name, e) /\ err' = (err \/ (name = "fallocate" => e = ENOSPC))
                   /\ UNCHANGED <<mode, content, cur, threw, ops, out>>
OpenOk == /\ pc = "open" /\ (mode = "r" => content # "absent") /\ Open(NextFd) /\ cur' = [cur EXCEPT !.fd = NextFd]
          /\ content' = (IF mode = "w" THEN "empty" ELSE content) /\ Go(IF mode = "w" THEN (IF HasFallocate THEN "falloc" ELSE "trunc") ELSE "stat")
          /\ UNCHANGED <<mode, err, threw, ops, out>>
OpenBad == Broken("open", "open") /\ Go("return")
OpenMissing == /\ pc = "open" /\ mode = "r" /\ content = "absent" /\ Fail("open", 2) /\ err' = TRUE /\ Go("return") /\ UNCHANGED <<mode, content, cur, threw, ops, out>>
FallocOk  == pc = "falloc" /\ Other /\ Go("trunc") /\ Keep
FallocBad == Broken("falloc", "fallocate") /\ Go(IF err' THEN "cleanup" ELSE "trunc")
TruncOk   == pc = "trunc" /\ Other /\ content' = "zeros" /\ Go("sync") /\ UNCHANGED <<mode, cur, err, threw, ops, out>>
TruncBad  == Broken("trunc", "ftruncate") /\ Go("cleanup")
SyncOk    == pc = "sync" /\ Flush(TRUE, content) /\ Go("map") /\ Keep
SyncBad   == Broken("sync", "fsync") /\ Go("cleanup")
StatOk    == pc = "stat" /\ Other /\ Go("map") /\ Keep
StatBad   == Broken("stat", "fstat") /\ Go("cleanup")
MapOk     == /\ pc = "map" /\ (mode = "r" => content # "empty") /\ Map(cur.fd, ops, Len0) /\ cur' = [cur EXCEPT !.m = ops]
             /\ Go("pack") /\ UNCHANGED <<mode, content, err, threw, ops, out>>
MapBad    == Broken("map", "mmap") /\ Go("cleanup")
MapEmpty  == pc = "map" /\ mode = "r" /\ content = "empty" /\ Fail("mmap", 22) /\ err' = TRUE /\ Go("cleanup") /\ UNCHANGED <<mode, content, cur, threw, ops, out>>
Cleanup   == pc = "cleanup" /\ Close(cur.fd, 0) /\ Go("return") /\ Keep
PackOk    == pc = "pack" /\ Other /\ content' = (IF mode = "w" THEN "image" ELSE content)
             /\ err' = (mode = "r" /\ content # "image") /\ Go(IF mode = "w" THEN "flush" ELSE "unmap") /\ UNCHANGED <<mode, cur, threw, ops, out>>
PackThrow == pc = "pack" /\ Other /\ content' = (IF mode = "w" THEN "partial" ELSE content) /\ threw' = TRUE /\ Go(IF mode = "w" THEN "flush" ELSE "unmap")
             /\ UNCHANGED <<mode, cur, err, ops, out>>
FlushOk   == pc = "flush" /\ Flush(TRUE, content) /\ Go("unmap") /\ Keep
FlushBad  == Broken("flush", "msync") /\ Go("unmap")
UnmapOk   == pc = "unmap" /\ Unmap(cur.m, Len0, 0) /\ Go("close") /\ Keep
UnmapBad  == pc = "unmap" /\ CanFail /\ Unmap(cur.m, Len0, 5) /\ err' = (err \/ mode = "w") /\ Go("close") /\ UNCHANGED <<mode, content, cur, threw, ops, out>>
CloseOk   == pc = "close" /\ Close(cur.fd, 0) /\ Go("return") /\ Keep
CloseBad  == pc = "close" /\ CanFail /\ Close(cur.fd, 5) /\ err' = (err \/ mode = "w") /\ Go("return") /\ UNCHANGED <<mode, content, cur, threw, ops, out>>
Return    == pc = "return" /\ out' = (IF threw THEN "user" ELSE IF err THEN "rt" ELSE "ok") /\ Go("check") /\ Other /\ UNCHANGED <<mode, content, cur, err, threw, ops>>
Again     == pc = "check" /\ Go("idle") /\ Other /\ Keep
Next == Begin \/ OpenOk \/ OpenBad \/ OpenMissing \/ FallocOk \/ FallocBad \/ TruncOk \/ TruncBad \/ SyncOk \/ SyncBad \/ StatOk \/ StatBad
        \/ MapOk \/ MapBad \/ MapEmpty \/ Cleanup \/ PackOk \/ PackThrow \/ FlushOk \/ FlushBad \/ UnmapOk \/ UnmapBad \/ CloseOk \/ CloseBad \/ Return \/ Again
Spec == Init /\ [][Next]_vars

Honest == pc = "check" => IF mode = "w" THEN MayReturnWrite(out, threw, content, "image") ELSE MayReturnRead(out, threw, content = "image")
NoLeak == pc \in {"idle", "check"} => Released
================================================================================
