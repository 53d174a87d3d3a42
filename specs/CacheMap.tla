------------------------------ MODULE CacheMap ------------------------------
(* What a user of the Cache interface sees, whatever cache it is: one map from
   keys to values, as long as nothing expires and no capacity is reached.
   cfg.stores = 0 for a cache that holds nothing.
     get            <<value, has, error>>
     set, mset, del error
     mget           <<value, has>> for every key given, in that order; error
     view           of the result of the package function MGet: the pairs hit,
                    as a map and in order, and the keys missed               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CmInit(cfg) == {[stores |-> cfg.stores, m |-> <<>>]}

CmSet(s) == {s[i] : i \in 1..Len(s)}
Has(st, k) == k \in DOMAIN st.m
\* writes <<key, value>> (no key twice)
Write(st, kvs) ==
  IF st.stores = 0 THEN st
  ELSE LET ks == {kv[1] : kv \in kvs}
           new == [k \in ks |-> (CHOOSE kv \in kvs : kv[1] = k)[2]]
       IN [st EXCEPT !.m = new @@ @]
Erase(st, ks) == [st EXCEPT !.m = [k \in DOMAIN @ \ ks |-> @[k]]]

Answer(st, k, v, has) == IF Has(st, k) THEN v = st.m[k] /\ has = 1 ELSE has = 0

Views(st, e) ==
  LET n == Len(e.keys)
      hs == SelectSeq(e.keys, LAMBDA k : Has(st, k))
      ms == SelectSeq(e.keys, LAMBDA k : ~Has(st, k))
      r == e.res
  IN /\ r.err = 0
     /\ r.hits = [i \in 1..Len(hs) |-> <<hs[i], st.m[hs[i]]>>]
     /\ r.miss = ms
     /\ Len(r.map) = Cardinality(CmSet(hs))
     /\ CmSet(r.map) = {<<k, st.m[k]>> : k \in CmSet(hs)}

CmPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "get" -> IF e.res[3] = 0 /\ Answer(st, e.key, e.res[1], e.res[2]) THEN {st} ELSE {}
         [] e.op = "mget" ->
              IF /\ e.res.err = 0
                 /\ e.res.nv = Len(e.keys) /\ e.res.nh = Len(e.keys)
                 /\ \A i \in 1..Len(e.keys) : Answer(st, e.keys[i], e.res.r[i][1], e.res.r[i][2])
              THEN {st} ELSE {}
         [] e.op = "view" -> IF Views(st, e) THEN {st} ELSE {}
         [] e.op = "set" -> IF e.res = 0 THEN {Write(st, {<<e.key, e.val>>})} ELSE {}
         [] e.op = "mset" -> IF e.res = 0 THEN {Write(st, CmSet(e.kvs))} ELSE {}
         [] e.op = "del" -> IF e.res = 0 THEN {Erase(st, CmSet(e.keys))} ELSE {}
=============================================================================
