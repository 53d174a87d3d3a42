------------------------------ MODULE ChainMap ------------------------------
(* Why a chain is one map (CacheMap.tla) although its levels forget: the chain
   of Chain.tla, without failures, where levels outside Keep may lose anything
   at any time.  The calls change the levels as Chain.tla says; One says that
   what a search finds is what CacheMap.tla says, as long as some level keeps
   everything, or all levels are empty ones.                                 *)
EXTENDS Chain
M == INSTANCE CacheMap
CONSTANTS N, K, V

VARIABLES st, m

Keep == {i \in 1..st.cfg.n : st.cfg.kind[i] = 2}
Good(kind) == \/ \E i \in DOMAIN kind : kind[i] = 2
              \/ \A i \in DOMAIN kind : kind[i] = 1
None == [i \in 1..st.cfg.n |-> 0]

\* kinds: 0 may forget, 1 empty, 2 keeps everything
Init == \E n \in 0..N : \E kind \in [1..n -> 0..2] :
  /\ Good(kind)
  /\ st \in ChainInit([n |-> n, kind |-> kind, ttl |-> [i \in 1..n |-> 1], cont |-> 0])
  /\ m \in M!CmInit([stores |-> IF \E i \in 1..n : kind[i] = 2 THEN 1 ELSE 0])

Keys == 1..K
Read == \E ks \in (SUBSET Keys \ {{}}) :
  /\ st' = Fill(st, Search(st, 1, ks, None, TRUE).fills, None)
  /\ UNCHANGED m
Write == \E ks \in (SUBSET Keys \ {{}}) : \E f \in [ks -> 1..V] :
  LET kvs == {<<k, f[k]>> : k \in ks}
      RECURSIVE On(_, _)
      On(s, i) == IF i > s.cfg.n THEN s ELSE On(PutAll(s, i, kvs), i + 1)
  IN st' = On(st, 1) /\ m' = M!Write(m, kvs)
Delete == \E ks \in (SUBSET Keys \ {{}}) :
  LET RECURSIVE On(_, _)
      On(s, i) == IF i > s.cfg.n THEN s ELSE On(Drop(s, i, ks), i + 1)
  IN st' = On(st, 1) /\ m' = M!Erase(m, ks)
Forget == \E i \in 1..st.cfg.n : \E k \in DOMAIN st.lv[i] :
  i \notin Keep /\ st' = Drop(st, i, {k}) /\ UNCHANGED m
Next == Read \/ Write \/ Delete \/ Forget

\* every search, of one key or of several at once
One == \A ks \in SUBSET Keys :
  LET z == Search(st, 1, ks, None, TRUE)
  IN z.err = {} /\ z.found = [k \in ks \cap DOMAIN m.m |-> m.m[k]]
\* all copies agree
Agree == \A i \in 1..st.cfg.n : \A k \in DOMAIN st.lv[i] : k \in DOMAIN m.m /\ st.lv[i][k] = m.m[k]
=============================================================================
