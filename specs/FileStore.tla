----------------------------- MODULE FileStore -----------------------------
(* The file cache seen from outside: a map from keys to values.

   FsPost    used alone, with the passing of time: ent[k] = <<value, expiry>>
   CrPost    with crashes, failing writes and damaged files: for each key what
             it may read as (opts, Absent is no value) and whether one read may
             report an error (err)
   LinPost   concurrent histories, in which time may pass
   ClPost    which files there are, and which of them an operation may remove *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == -1
SetOf(s) == {s[i] : i \in 1..Len(s)}
Only(f, ks) == [x \in ks |-> f[x]]

------------------------------------------------------------------------------
\* alone, with time
FsInit(cfg) == {[ent |-> <<>>]}
MayHit(st, k, now) == k \in DOMAIN st.ent /\ st.ent[k][2] >= now
MayMiss(st, k, now) == k \notin DOMAIN st.ent \/ st.ent[k][2] <= now
ReadOK(st, k, r, now) == \/ r[2] = 1 /\ MayHit(st, k, now) /\ r[1] = st.ent[k][1]
                         \/ r[2] = 0 /\ MayMiss(st, k, now)
\* having been seen dead, it stays so
Seen(st, ks, rs) == [st EXCEPT !.ent = Only(@, DOMAIN @ \ {ks[i] : i \in {j \in 1..Len(ks) : rs[j][2] = 0}})]
RECURSIVE PutAll(_, _, _)
PutAll(ent, kvs, exp) == IF kvs = <<>> THEN ent ELSE PutAll((kvs[1][1] :> <<kvs[1][2], exp>>) @@ ent, Tail(kvs), exp)

FsPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "get" -> IF e.res[3] = 0 /\ ReadOK(st, e.key, e.res, e.now) THEN {Seen(st, <<e.key>>, <<e.res>>)} ELSE {}
         [] e.op = "mget" -> IF /\ e.res.err = 0 /\ Len(e.res.r) = Len(e.keys)
                                /\ \A i \in 1..Len(e.keys) : ReadOK(st, e.keys[i], e.res.r[i], e.now)
                             THEN {Seen(st, e.keys, e.res.r)} ELSE {}
         [] e.op = "set" -> IF e.res = 0 THEN {[st EXCEPT !.ent = (e.key :> <<e.val, e.now + e.ttl>>) @@ @]} ELSE {}
         [] e.op = "mset" -> IF e.res = 0 THEN {[st EXCEPT !.ent = PutAll(@, e.kvs, e.now + e.ttl)]} ELSE {}
         [] e.op = "del" -> IF e.res = 0 THEN {[st EXCEPT !.ent = Only(@, DOMAIN @ \ SetOf(e.keys))]} ELSE {}
         [] e.op = "purge" -> IF e.res = 0 THEN {[st EXCEPT !.ent = <<>>]} ELSE {}
         \* the same directory with a new store
         [] e.op = "open" -> {st}
         \* a value that has no representation: refused, and nothing changes
         [] e.op = "setbad" -> IF e.res = 1 THEN {st} ELSE {}

------------------------------------------------------------------------------
\* with crashes and damage: e.crash = 1 when the process died in the operation
CrInit(cfg) == {[k \in 0..cfg.keys-1 |-> [opts |-> {Absent}, err |-> 0]]}
Sure(v) == [opts |-> {v}, err |-> 0]
\* a write of v, or a deletion (v = Absent), that was cut short
Cut(x, v) == [opts |-> x.opts \cup {v, Absent}, err |-> 1]
Gone(x) == [opts |-> x.opts \cup {Absent}, err |-> x.err]
Val(r) == IF r[2] = 1 THEN r[1] ELSE Absent
RECURSIVE Last(_, _)
Last(kvs, k) == IF kvs[Len(kvs)][1] = k THEN kvs[Len(kvs)][2] ELSE Last(SubSeq(kvs, 1, Len(kvs) - 1), k)

CrPost(st, e) ==
  LET keys == CASE e.op \in {"get", "set"} -> {e.key}
                [] e.op \in {"mget", "del", "corrupt"} -> SetOf(e.keys)
                [] e.op = "mset" -> {e.kvs[i][1] : i \in 1..Len(e.kvs)}
                [] OTHER -> DOMAIN st
      new(k) == CASE e.op = "set" -> e.val [] e.op = "mset" -> Last(e.kvs, k) [] OTHER -> Absent
      upd(F(_)) == {[k \in DOMAIN st |-> IF k \in keys THEN F(k) ELSE st[k]]}
  IN
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "corrupt" -> upd(LAMBDA k : [opts |-> st[k].opts \cup {Absent}, err |-> 1])
         [] e.op \in {"open", "collect"} -> {st}
         [] e.op \in {"get", "mget"} /\ e.crash = 1 -> {st}
         [] e.op = "get" -> IF e.res[3] = 1
                            THEN IF st[e.key].err = 1 THEN upd(LAMBDA k : [st[k] EXCEPT !.err = 0]) ELSE {}
                            ELSE IF Val(e.res) \in st[e.key].opts THEN upd(LAMBDA k : Sure(Val(e.res))) ELSE {}
         [] e.op = "mget" ->
              IF e.res.err = 1
              THEN {[st EXCEPT ![k].err = 0] : k \in {x \in keys : st[x].err = 1}}
              ELSE IF /\ Len(e.res.r) = Len(e.keys)
                      /\ \A i \in 1..Len(e.keys) : Val(e.res.r[i]) \in st[e.keys[i]].opts
                      /\ \A i, j \in 1..Len(e.keys) : e.keys[i] = e.keys[j] => Val(e.res.r[i]) = Val(e.res.r[j])
                   THEN upd(LAMBDA k : Sure(Val(e.res.r[CHOOSE i \in 1..Len(e.keys) : e.keys[i] = k])))
                   ELSE {}
         [] e.op \in {"set", "mset"} -> IF e.crash = 1 \/ e.res = 1 THEN upd(LAMBDA k : Cut(st[k], new(k)))
                                        ELSE upd(LAMBDA k : Sure(new(k)))
         [] e.op \in {"del", "purge"} -> IF e.crash = 1 \/ e.res = 1 THEN upd(LAMBDA k : Gone(st[k]))
                                         ELSE upd(LAMBDA k : Sure(Absent))

------------------------------------------------------------------------------
\* concurrent: one key at a time (a batch is one operation for each of its keys)
\* time may pass meanwhile: a call takes place between the times now and till, so what it
\* writes expires between two times (lo and hi)
None == [v |-> Absent, lo |-> 0, hi |-> 0]
LinInit(cfg) == {[k \in 0..cfg.keys-1 |-> None]}
LinPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "get" -> LET x == st[e.key] IN
              IF e.res[3] # 0 THEN {}
              ELSE IF e.res[2] = 1 THEN (IF x.v = e.res[1] /\ x.v # Absent /\ x.hi >= e.now THEN {st} ELSE {})
              ELSE IF x.v = Absent \/ x.lo <= e.till THEN {[st EXCEPT ![e.key] = None]} ELSE {}
         [] e.op = "set" -> IF e.res = 0 THEN {[st EXCEPT ![e.key] = [v |-> e.val, lo |-> e.now + e.ttl, hi |-> e.till + e.ttl]]} ELSE {}
         [] e.op = "del" -> IF e.res = 0 THEN {[st EXCEPT ![e.key] = None]} ELSE {}
         [] e.op = "purge" -> IF e.res = 0 THEN {st} ELSE {}

------------------------------------------------------------------------------
\* files: id |-> kind, the kinds being
\*   "live" an entry    "dead" an expired one    "bad" a cache file that is none
\*   "other" anything that is not a cache file: files, directories, what is outside
ClInit(cfg) == {[f \in 1..Len(cfg.files) |-> cfg.files[f]]}
ClPost(st, e) ==
  LET left == SetOf(e.left)  \* what is there afterwards
      gone == DOMAIN st \ left
      kinds == {st[f] : f \in gone}
      after == Only(st, left)
  IN IF e.p # 0 \/ ~(left \subseteq DOMAIN st) \/ e.escapes # 0 \/ e.changed # 0 \/ e.extra # 0 THEN {}
     ELSE CASE \* an operation that is no removal, and a collection that may or may not run
               e.op = "touch" -> IF kinds \subseteq {"dead", "bad"} THEN {after} ELSE {}
            \* a collection that is due
            [] e.op = "collect" -> IF kinds \subseteq {"dead", "bad"} /\ \A f \in left : st[f] # "dead" THEN {after} ELSE {}
            [] e.op = "purge" -> IF e.res = 0 /\ kinds \subseteq {"live", "dead", "bad"} /\ \A f \in left : st[f] = "other"
                                 THEN {after} ELSE {}
            \* without a directory
            [] e.op = "nodir" -> IF e.res = 1 /\ gone = {} THEN {st} ELSE {}
            \* the passing of time
            [] e.op = "expire" -> {[f \in DOMAIN st |-> IF f \in SetOf(e.ids) THEN "dead" ELSE st[f]]}
=============================================================================
