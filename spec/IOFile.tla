--------------------------------- MODULE IOFile ---------------------------------
(* Files as the library uses them (C07): descriptors, mappings, contents and what is durable,
   and what a file operation owes its caller when it returns. The library's own steps are in
   IOFileModel; recordings of the real library drive the same actions in IOFileTrace. *)
EXTENDS Values
VARIABLES fds,      \* open descriptors
          maps,     \* mapping -> length
          synced,   \* content at the last complete, successful flush
          fails     \* calls that failed in this operation: {<<name, errno>>}
kernel == <<fds, maps, synced, fails>>
Put(f, x, y) == (x :> y) @@ f
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Empty == [x \in {} |-> 0]
ENOSPC == 28

Open(fd)        == fd \notin fds /\ fds' = fds \cup {fd} /\ UNCHANGED <<maps, synced, fails>>
Map(fd, m, len) == fd \in fds /\ m \notin DOMAIN maps /\ maps' = Put(maps, m, len) /\ UNCHANGED <<fds, synced, fails>>
\* full: flushed synchronously and completely; c: content at that time
Flush(full, c)  == synced' = (IF full THEN c ELSE synced) /\ UNCHANGED <<fds, maps, fails>>
Fail(name, err) == fails' = fails \cup {<<name, err>>} /\ UNCHANGED <<fds, maps, synced>>
\* releasing: exactly once, whole; a release that reports failure has still released
Unmap(m, len, err) == /\ m \in DOMAIN maps /\ maps[m] = len /\ maps' = Del(maps, m)
                      /\ fails' = (IF err = 0 THEN fails ELSE fails \cup {<<"munmap", err>>}) /\ UNCHANGED <<fds, synced>>
Close(fd, err)  == /\ fd \in fds /\ fds' = fds \ {fd}
                   /\ fails' = (IF err = 0 THEN fails ELSE fails \cup {<<"close", err>>}) /\ UNCHANGED <<maps, synced>>
Other           == UNCHANGED kernel

Failed(names) == \E f \in fails : f[1] \in names
Released == fds = {} /\ maps = Empty
\* failures that a write must report
WriteFatal == Failed({"open", "ftruncate", "fsync", "mmap", "msync", "munmap", "close", "write", "rename"}) \/ <<"fallocate", ENOSPC>> \in fails
WriteExcused == WriteFatal \/ fails # {}
ReadFatal  == Failed({"open", "fstat", "mmap", "read"})

\* a write returns: out "ok", "rt" (runtime error), or "user" if user code threw (threw)
\* content: what the file holds; image: the complete image
MayReturnWrite(out, threw, content, image) ==
  /\ Released
  /\ out = "ok" => ~WriteFatal /\ ~threw /\ content = image /\ synced = image
  /\ out = "rt" => WriteExcused \/ threw
  /\ out = "user" => threw
  /\ out \in {"ok", "rt", "user"}
\* readable: the file is a complete image
MayReturnRead(out, threw, readable) ==
  /\ Released
  /\ out = "ok" => ~ReadFatal /\ ~threw /\ readable
  /\ out = "rt" => fails # {} \/ ~readable \/ threw
  /\ out = "user" => threw
  /\ out \in {"ok", "rt", "user"}
================================================================================
