------------------------------ MODULE FileAlgo ------------------------------
(* The algorithm of FileStore, one file system call (and one taking of the lock)
   per step: a directory of files, what open files refer to, writes that go
   through an empty and a partial file, removals without the lock, a background
   collection, the passing of time, failing writes, and a crash.

   Tasks 1..T call operations, N each; task 0 is the collection.  The results
   are judged by a map of entries with expiry: the operations have to be
   linearizable per key (C17); a write that failed or was cut short by the crash
   leaves the old value, the new one, no value, or damage that one read may
   report (C18).                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, T, N,
          Ops,      \* "get", "set" (lives long), "brief" (lives one tick), "del", "purge"
          Ticks,    \* how often time passes
          Collects, \* how many collections there may be
          Fails,    \* how many writes may fail
          Crashes,  \* how many crashes there may be; every task then has N calls again
          Locked    \* TRUE: reads and writes take the lock, as in the code

Keys == 0..K-1
Tasks == 0..T
Forever == 99
NoFile == [v |-> 0, exp |-> 0, full |-> FALSE]

VARIABLES dir,      \* the directory: file of each key, 0 for none
          file,     \* the files: v, exp, full (or else empty or partial)
          mu, now,
          pc, op, at, got, todo, \* of the tasks: open file, what it has read, keys left (collection, purge)
          n, left,  \* calls left; left: what may still happen of Ticks, Collects, Fails, Crashes
          mon
vars == <<dir, file, mu, now, pc, op, at, got, todo, n, left, mon>>

Idle == [op |-> "idle", key |-> 0, val |-> 0, exp |-> 0]
None == [v |-> 0, exp |-> 0, bad |-> FALSE]
Init ==
  /\ dir = [k \in Keys |-> 0] /\ file = <<>> /\ mu = -1 /\ now = 0
  /\ pc = [t \in Tasks |-> "idle"] /\ op = [t \in Tasks |-> Idle] /\ at = [t \in Tasks |-> 0]
  /\ got = [t \in Tasks |-> NoFile] /\ todo = [t \in Tasks |-> {}]
  /\ n = [t \in Tasks |-> IF t = 0 THEN 0 ELSE N]
  /\ left = [tick |-> Ticks, gc |-> Collects, fail |-> Fails, crash |-> Crashes]
  /\ mon = {[o |-> [k \in Keys |-> None], pend |-> <<>>, fin |-> <<>>]}

------------------------------------------------------------------------------
\* the specification: o[k] is an entry, or none (v = 0), or possibly damaged (bad)
Err == -1
Drop(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Entry(c) == [v |-> c.val, exp |-> c.exp, bad |-> FALSE]
Bad == [v |-> 0, exp |-> 0, bad |-> TRUE]
\* what call c may do to o: <<new o, result>>
Outcomes(o, c) ==
  LET to(x) == [o EXCEPT ![c.key] = x]
      x == o[c.key] IN
  CASE c.op = "get" -> (IF x.v # 0 /\ x.exp > now THEN {<<o, x.v>>} ELSE {<<to(None), 0>>})
                        \cup (IF x.bad THEN {<<to(None), Err>>} ELSE {})
    [] c.op \in {"set", "brief"} -> {<<to(Entry(c)), 0>>} \cup (IF Fails > left.fail THEN {<<o, Err>>, <<to(Bad), Err>>, <<to(Entry(c)), Err>>} ELSE {})
    [] c.op = "del" -> {<<to(None), 0>>}
\* purge is one removal for each key that is left
Effects(c, t) ==
  IF c.pend[t].op = "purge"
  THEN {[c EXCEPT !.o[k] = None, !.pend[t].rest = @ \ {k}] : k \in c.pend[t].rest}
       \cup (IF c.pend[t].rest = {} THEN {[c EXCEPT !.pend = Drop(@, t), !.fin = (t :> 0) @@ @]} ELSE {})
  ELSE {[o |-> y[1], pend |-> Drop(c.pend, t), fin |-> (t :> y[2]) @@ c.fin] : y \in Outcomes(c.o, c.pend[t])}
RECURSIVE Closure(_)
Closure(cs) == LET new == UNION {UNION {Effects(c, t) : t \in DOMAIN c.pend} : c \in cs}
               IN IF new \subseteq cs THEN cs ELSE Closure(cs \cup new)
Called(cs, t, o) == {[c EXCEPT !.pend = (t :> (o @@ [rest |-> IF o.op = "purge" THEN Keys ELSE {}])) @@ @] : c \in cs}
Returned(cs, t, r) == {[c EXCEPT !.fin = Drop(@, t)] : c \in {d \in Closure(cs) : t \in DOMAIN d.fin /\ d.fin[t] = r}}
\* the calls in progress end: a write may have been cut short
RECURSIVE Damaged(_, _)
Damaged(o, calls) == IF calls = {} THEN {o}
                     ELSE LET c == CHOOSE x \in calls : TRUE
                          IN Damaged(o, calls \ {c}) \cup (IF c.op \in {"set", "brief"} THEN Damaged([o EXCEPT ![c.key] = Bad], calls \ {c}) ELSE {})
Crashed(cs) == {[o |-> o, pend |-> <<>>, fin |-> <<>>] :
                  o \in UNION {Damaged(c.o, {c.pend[t] : t \in DOMAIN c.pend}) : c \in Closure(cs)}}

------------------------------------------------------------------------------
Disk == <<dir, file>>
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Done(t) == /\ pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = Idle] /\ at' = [at EXCEPT ![t] = 0]
           /\ got' = [got EXCEPT ![t] = NoFile] /\ todo' = [todo EXCEPT ![t] = {}]
Free(t) == mu' = IF mu = t THEN -1 ELSE mu
\* the end of a call, or of reading one file in a collection
Ret(t, r) == /\ Free(t)
             /\ IF t = 0 THEN Go(t, "next") /\ at' = [at EXCEPT ![t] = 0] /\ got' = [got EXCEPT ![t] = NoFile] /\ UNCHANGED <<op, todo, mon>>
                ELSE mon' = Returned(mon, t, r) /\ Done(t)

Start(t, o) ==
  /\ n' = [n EXCEPT ![t] = @ - 1] /\ op' = [op EXCEPT ![t] = o] /\ mon' = Called(mon, t, o)
  /\ Go(t, CASE o.op \in {"set", "brief"} -> "wlock" [] o.op = "get" -> "rlock" [] o.op = "del" -> "remove" [] o.op = "purge" -> "purge")
  /\ todo' = [todo EXCEPT ![t] = IF o.op = "purge" THEN Keys ELSE {}]
  /\ UNCHANGED <<Disk, mu, now, at, got, left>>

Lock(t) ==
  /\ pc[t] \in {"wlock", "rlock"} /\ (Locked => mu = -1)
  /\ mu' = (IF Locked THEN t ELSE mu)
  /\ Go(t, IF pc[t] = "wlock" THEN "create" ELSE "open") /\ UNCHANGED <<Disk, now, op, at, got, todo, n, left, mon>>

Write(t) ==
  LET k == op[t].key IN
  \* os.WriteFile: open with truncation, write (in two parts), close
  \/ /\ pc[t] = "create" /\ Go(t, "write")
     /\ IF dir[k] = 0 THEN file' = Append(file, NoFile) /\ dir' = [dir EXCEPT ![k] = Len(file) + 1] /\ at' = [at EXCEPT ![t] = Len(file) + 1]
        ELSE file' = [file EXCEPT ![dir[k]] = NoFile] /\ at' = [at EXCEPT ![t] = dir[k]] /\ UNCHANGED dir
     /\ UNCHANGED <<mu, now, op, got, todo, n, left, mon>>
  \/ /\ pc[t] = "write" /\ file' = [file EXCEPT ![at[t]] = [v |-> op[t].val, exp |-> op[t].exp, full |-> TRUE]]
     /\ Ret(t, 0) /\ UNCHANGED <<dir, now, n, left>>
  \* the file or the rest of it cannot be written
  \/ /\ pc[t] \in {"create", "write"} /\ left.fail > 0
     /\ left' = [left EXCEPT !.fail = @ - 1]
     /\ Free(t) /\ Go(t, "failed") /\ UNCHANGED <<Disk, now, op, at, got, todo, n, mon>>
  \/ /\ pc[t] = "failed" /\ Ret(t, Err) /\ UNCHANGED <<Disk, now, n, left>>

Read(t) ==
  LET k == op[t].key IN
  \/ /\ pc[t] = "open" /\ UNCHANGED <<Disk, now, n, left>>
     /\ IF dir[k] = 0 THEN Ret(t, 0)
        ELSE at' = [at EXCEPT ![t] = dir[k]] /\ Go(t, "read") /\ UNCHANGED <<mu, op, got, todo, mon>>
  \/ /\ pc[t] = "read" /\ got' = [got EXCEPT ![t] = file[at[t]]]
     /\ Go(t, "judge") /\ UNCHANGED <<Disk, mu, now, op, at, todo, n, left, mon>>
  \* the time is looked at
  \/ /\ pc[t] = "judge" /\ UNCHANGED <<Disk, now, n, left>>
     /\ IF got[t].full /\ got[t].exp > now THEN Ret(t, got[t].v)
        ELSE Go(t, "drop") /\ UNCHANGED <<mu, op, at, got, todo, mon>>
  \* what is damaged or has expired is removed
  \/ /\ pc[t] = "drop" /\ dir' = [dir EXCEPT ![k] = 0]
     /\ Ret(t, IF got[t].full THEN 0 ELSE Err) /\ UNCHANGED <<file, now, n, left>>

Remove(t) ==
  \/ /\ pc[t] = "remove" /\ dir' = [dir EXCEPT ![op[t].key] = 0]
     /\ Ret(t, 0) /\ UNCHANGED <<file, now, n, left>>
  \/ /\ pc[t] = "purge" /\ todo[t] # {} /\ LET k == CHOOSE x \in todo[t] : \A y \in todo[t] : x <= y IN
          dir' = [dir EXCEPT ![k] = 0] /\ todo' = [todo EXCEPT ![t] = @ \ {k}]
     /\ UNCHANGED <<file, mu, now, pc, op, at, got, n, left, mon>>
  \/ /\ pc[t] = "purge" /\ todo[t] = {} /\ Ret(t, 0) /\ UNCHANGED <<Disk, now, n, left>>

Collect ==
  \/ /\ pc[0] = "idle" /\ left.gc > 0 /\ left' = [left EXCEPT !.gc = @ - 1]
     /\ Go(0, "next") /\ todo' = [todo EXCEPT ![0] = Keys] /\ UNCHANGED <<Disk, mu, now, op, at, got, n, mon>>
  \/ /\ pc[0] = "next" /\ todo[0] # {}
     /\ LET k == CHOOSE x \in todo[0] : \A y \in todo[0] : x <= y IN
          /\ todo' = [todo EXCEPT ![0] = @ \ {k}]
          /\ IF dir[k] = 0 THEN UNCHANGED <<pc, op>> ELSE Go(0, "rlock") /\ op' = [op EXCEPT ![0] = [Idle EXCEPT !.op = "get", !.key = k]]
     /\ UNCHANGED <<Disk, mu, now, at, got, n, left, mon>>
  \/ /\ pc[0] = "next" /\ todo[0] = {} /\ Done(0) /\ UNCHANGED <<Disk, mu, now, n, left, mon>>

Tick == /\ left.tick > 0 /\ left' = [left EXCEPT !.tick = @ - 1] /\ now' = now + 1 /\ mon' = Closure(mon)
        /\ UNCHANGED <<Disk, mu, pc, op, at, got, todo, n>>
Crash == /\ left.crash > 0 /\ (\E t \in Tasks : pc[t] # "idle")
         /\ left' = [left EXCEPT !.crash = @ - 1]
         /\ mon' = Crashed(mon) /\ mu' = -1
         /\ pc' = [t \in Tasks |-> "idle"] /\ op' = [t \in Tasks |-> Idle] /\ at' = [t \in Tasks |-> 0]
         /\ got' = [t \in Tasks |-> NoFile] /\ todo' = [t \in Tasks |-> {}]
         /\ n' = [t \in Tasks |-> IF t = 0 THEN 0 ELSE N] /\ UNCHANGED <<Disk, now>>

\* the value tells which call wrote it
Calls(t) == {[op |-> a, key |-> k, val |-> IF a \in {"set", "brief"} THEN (((10 * t) + n[t]) * 2) + left.crash ELSE 0,
              exp |-> CASE a = "set" -> Forever [] a = "brief" -> now + 1 [] OTHER -> 0] : a \in Ops, k \in Keys}
Step(t) == Lock(t) \/ Write(t) \/ Read(t) \/ Remove(t)
Next == \/ \E t \in 1..T : pc[t] = "idle" /\ n[t] > 0 /\ \E o \in Calls(t) : (o.op # "purge" \/ o.key = 0) /\ Start(t, o)
        \/ \E t \in Tasks : Step(t)
        \/ Collect \/ Tick \/ Crash
        \/ (\A t \in Tasks : pc[t] = "idle" /\ n[t] = 0) /\ UNCHANGED vars
------------------------------------------------------------------------------
Judged == mon # {}
\* at rest every key reads as one of what the specification has for it
Holds(k) == LET f == IF dir[k] = 0 THEN NoFile ELSE file[dir[k]]
            IN IF f.full /\ f.exp > now THEN f.v ELSE 0
Contents == (\A t \in Tasks : pc[t] = "idle") => \E c \in mon : \A k \in Keys : Holds(k) = (IF c.o[k].exp > now THEN c.o[k].v ELSE 0)
=============================================================================
