-------------------------------- MODULE Lru --------------------------------
(* An LRU cache: what it holds (ent: value, reads that hit, time of expiry) and
   in which order it was used (rec, the latest first).  An entry that is dead
   (expired, or used as often as allowed) cannot be read; it takes up room until
   somebody tries to, or until it is evicted, which goes by the order of use alone.  Times are in any unit;
   at the very instant of expiry both outcomes are allowed.  A call takes place
   between the times now and till; the time of expiry of what it writes is
   therefore only known to be between two times (lo and hi).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LruInit(cfg) == {[cap |-> cfg.cap, lim |-> cfg.lim, rec |-> <<>>, ent |-> <<>>]}

Drop(s, k) == SelectSeq(s, LAMBDA x : x # k)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
UsedUp(c, k) == c.lim > 0 /\ c.ent[k].used >= c.lim
Till(e) == IF "till" \in DOMAIN e THEN e.till ELSE e.now
MayHit(c, k, e) == ~UsedUp(c, k) /\ c.ent[k].hi >= e.now
MayMiss(c, k, e) == UsedUp(c, k) \/ c.ent[k].lo <= Till(e)
Remove(c, k) == [c EXCEPT !.rec = Drop(@, k), !.ent = Without(@, k)]

\* the possible results of reading a key
Read(c, k, e) ==
  IF k \notin DOMAIN c.ent THEN {[r |-> <<0, 0>>, c |-> c]}
  ELSE (IF MayHit(c, k, e)
        THEN {[r |-> <<c.ent[k].v, 1>>, c |-> [c EXCEPT !.rec = <<k>> \o Drop(@, k), !.ent[k].used = @ + 1]]}
        ELSE {})
       \cup (IF MayMiss(c, k, e) THEN {[r |-> <<0, 0>>, c |-> Remove(c, k)]} ELSE {})

Write(c, k, v, e) ==
  LET d == [c EXCEPT !.rec = <<k>> \o Drop(@, k), !.ent = (k :> [v |-> v, used |-> 0, lo |-> e.now + e.ttl, hi |-> Till(e) + e.ttl]) @@ @]
  IN IF Len(d.rec) <= d.cap THEN {d}
     ELSE {Remove(d, d.rec[Len(d.rec)])} \* dead or not

\* the keys of a batch are read in order; written in any order
RECURSIVE ReadAll(_, _, _, _)
ReadAll(c, ks, res, e) ==
  IF ks = <<>> THEN {c}
  ELSE UNION {IF y.r = Head(res) THEN ReadAll(y.c, Tail(ks), Tail(res), e) ELSE {} : y \in Read(c, Head(ks), e)}
RECURSIVE WriteAll(_, _, _)
WriteAll(cs, kvs, e) ==
  IF kvs = {} THEN cs
  ELSE UNION {WriteAll(UNION {Write(c, kv[1], kv[2], e) : c \in cs}, kvs \ {kv}, e) : kv \in kvs}
RECURSIVE WriteSeq(_, _, _)
WriteSeq(c, kvs, e) == IF kvs = <<>> THEN c ELSE WriteSeq(CHOOSE d \in Write(c, Head(kvs)[1], Head(kvs)[2], e) : TRUE, Tail(kvs), e)
RECURSIVE DeleteAll(_, _)
DeleteAll(c, ks) == IF ks = <<>> THEN c ELSE DeleteAll(Remove(c, Head(ks)), Tail(ks))

LruPost(c, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "get" -> {y.c : y \in {z \in Read(c, e.key, e) : e.res = <<z.r[1], z.r[2], 0>>}}
         [] e.op = "mget" -> IF e.res.err # 0 \/ Len(e.res.r) # Len(e.keys) THEN {} ELSE ReadAll(c, e.keys, e.res.r, e)
         [] e.op = "set" -> IF e.res = 0 THEN Write(c, e.key, e.val, e) ELSE {}
         [] e.op = "mset" -> IF e.res = 0 THEN WriteAll({c}, {e.kvs[i] : i \in 1..Len(e.kvs)}, e) ELSE {}
         \* written and then read one after the other, with room for all of them: the
         \* order of writing has no effect in the end
         [] e.op = "bulk" -> IF e.res.err # 0 \/ Len(e.res.r) # Len(e.kvs) THEN {}
                             ELSE ReadAll(WriteSeq(c, e.kvs, e), [i \in 1..Len(e.kvs) |-> e.kvs[i][1]], e.res.r, e)
         [] e.op = "del" -> IF e.res = 0 THEN {DeleteAll(c, e.keys)} ELSE {}
=============================================================================
