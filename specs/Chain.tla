------------------------------- MODULE Chain -------------------------------
(* A chain of cache levels.  st.lv[i] is what level i holds (a level of kind 1
   forgets everything), st.cfg the chain's configuration.  An operation may find
   levels failing: e.rf[i] = 1 when reads of level i fail, 2 when they report an
   error besides what they find; e.wf[i] = 1 when its writes and deletions fail.  e.log is the calls that the levels got, consecutive
   calls of the same kind to one level taken together.
     get, mget    the answer, the calls
     set, mset, del   the errors, the calls
     put, drop    a level changed directly
     view         the views of an MGet result                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ChainInit(cfg) == {[cfg |-> cfg, lv |-> [i \in 1..cfg.n |-> <<>>]]}

SetOf(s) == {s[i] : i \in 1..Len(s)}
Has(st, i, k) == k \in DOMAIN st.lv[i]

\* what one level holds after writes kvs and deletions
Put(st, i, k, v) == IF st.cfg.kind[i] = 1 THEN st ELSE [st EXCEPT !.lv[i] = (k :> v) @@ @]
\* kvs has one value for a key
MapOf(kvs) == [k \in {kv[1] : kv \in kvs} |-> (CHOOSE kv \in kvs : kv[1] = k)[2]]
PutAll(st, i, kvs) == IF st.cfg.kind[i] = 1 \/ kvs = {} THEN st ELSE [st EXCEPT !.lv[i] = TLCEval(MapOf(kvs)) @@ @]
Drop(st, i, ks) == [st EXCEPT !.lv[i] = [x \in DOMAIN @ \ ks |-> @[x]]]

\* the fills: <<level, key, value>>
RECURSIVE FillFrom(_, _, _, _)
FillFrom(st, i, fs, wf) ==
  IF i > st.cfg.n THEN st
  ELSE FillFrom(IF wf[i] = 1 THEN st ELSE PutAll(st, i, {<<f[2], f[3]>> : f \in {g \in fs : g[1] = i}}), i + 1, fs, wf)
Fill(st, fs, wf) == FillFrom(st, 1, fs, wf)

\* the search from level i on for the keys ks: [reads, fills, found, err, stopped]
\* (for one key, its presence counts more than an error; in a batch, an error ends the search all the same)
RECURSIVE Search(_, _, _, _, _)
Search(st, i, ks, rf, batch) ==
  IF i > st.cfg.n \/ ks = {} THEN [reads |-> <<>>, fills |-> {}, found |-> <<>>, err |-> {}, stopped |-> FALSE]
  ELSE LET one == <<i, ks>> IN
    LET hit == IF rf[i] = 1 THEN {} ELSE {k \in ks : Has(st, i, k)}
        wrong == rf[i] > 0 /\ (batch \/ hit = {})
    IN IF wrong /\ st.cfg.cont = 0 THEN [reads |-> <<one>>, fills |-> {}, found |-> <<>>, err |-> {i}, stopped |-> TRUE]
       ELSE LET z == Search(st, i + 1, ks \ hit, rf, batch)
         IN [z EXCEPT !.reads = <<one>> \o @, !.err = IF wrong /\ z.reads = <<>> THEN {i} ELSE @,
                      !.fills = @ \cup {<<u, k, st.lv[i][k]>> : u \in 1..i-1, k \in hit},
                      !.found = [k \in hit |-> st.lv[i][k]] @@ @]

LogReads(log) == LET s == SelectSeq(log, LAMBDA c : c.k = "r") IN [i \in 1..Len(s) |-> <<s[i].l, SetOf(s[i].keys)>>]
LogWrites(log) == LET s == SelectSeq(log, LAMBDA c : c.k = "w") IN
  UNION {{<<s[i].l, s[i].keys[j], s[i].vals[j], s[i].ttl>> : j \in 1..Len(s[i].keys)} : i \in 1..Len(s)}
WithTtl(st, fills) == {<<f[1], f[2], f[3], st.cfg.ttl[f[1]]>> : f \in fills}
NoDeletes(log) == \A i \in 1..Len(log) : log[i].k # "d"

GetPost(st, e) ==
  LET ks == IF e.op = "get" THEN {e.key} ELSE SetOf(e.keys)
      z == Search(st, 1, ks, e.rf, e.op = "mget")
      ans == IF e.op = "get"
             THEN IF e.key \in DOMAIN z.found THEN e.res.r = <<<<z.found[e.key], 1>>>> /\ e.res.err = <<>>
                  ELSE e.res.r[1][2] = 0 /\ SetOf(e.res.err) = z.err
             ELSE /\ SetOf(e.res.err) = z.err
                  /\ z.stopped \/
                     /\ Len(e.res.r) = Len(e.keys)
                     /\ \A i \in 1..Len(e.keys) :
                          IF e.keys[i] \in DOMAIN z.found THEN e.res.r[i] = <<z.found[e.keys[i]], 1>> ELSE e.res.r[i][2] = 0
      writes == LogWrites(e.log)
      all == WithTtl(st, z.fills)
  IN IF /\ ans
        /\ LogReads(e.log) = z.reads
        /\ NoDeletes(e.log)
        \* (a search that an error ended may leave out the fills)
        /\ writes = all \/ (z.stopped /\ writes \subseteq all)
     THEN {Fill(st, {<<w[1], w[2], w[3]>> : w \in writes}, e.wf)} ELSE {}

\* every level in order, with its own ttl, and the errors of all that fail
RECURSIVE Everywhere(_, _, _)
Everywhere(st, i, e) ==
  IF i > st.cfg.n THEN st
  ELSE Everywhere(IF e.wf[i] = 1 THEN st
                  ELSE CASE e.op = "set" -> Put(st, i, e.key, e.val)
                         [] e.op = "mset" -> PutAll(st, i, SetOf(e.kvs))
                         [] e.op = "del" -> Drop(st, i, SetOf(e.keys)), i + 1, e)
WritePost(st, e) ==
  LET nothing == (e.op = "mset" /\ e.kvs = <<>>) \/ (e.op = "del" /\ e.keys = <<>>)
      kvs == IF e.op = "set" THEN {<<e.key, e.val>>} ELSE IF e.op = "mset" THEN SetOf(e.kvs) ELSE {}
      n == st.cfg.n
  IN IF nothing THEN (IF e.res = <<>> /\ e.log = <<>> THEN {st} ELSE {})
     ELSE IF /\ SetOf(e.res) = {i \in 1..n : e.wf[i] = 1}
             /\ Len(e.log) = n
             /\ \A i \in 1..n :
                  /\ e.log[i].l = i
                  /\ IF e.op = "del" THEN e.log[i].k = "d" /\ SetOf(e.log[i].keys) = SetOf(e.keys)
                     ELSE /\ e.log[i].k = "w" /\ e.log[i].ttl = st.cfg.ttl[i]
                          /\ {<<e.log[i].keys[j], e.log[i].vals[j]>> : j \in 1..Len(e.log[i].keys)} = kvs
          THEN {Everywhere(st, 1, e)} ELSE {}

\* an MGet result over keys, with hits (a prefix of them may be all there is)
Hit(e, i) == i <= Len(e.hits) /\ e.hits[i] = 1
Upto(s, stop) == IF stop > 0 /\ stop < Len(s) THEN SubSeq(s, 1, stop) ELSE s
ViewOK(e) ==
  LET n == Len(e.keys)
      hs == SelectSeq([i \in 1..n |-> i], LAMBDA i : Hit(e, i))
      ms == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~Hit(e, i))
      hk == [j \in 1..Len(hs) |-> e.keys[hs[j]]]
      mk == [j \in 1..Len(ms) |-> e.keys[ms[j]]]
      hkv == [j \in 1..Len(hs) |-> <<e.keys[hs[j]], e.vals[hs[j]]>>]
      r == e.res
      rng == [i \in 1..n |-> IF Hit(e, i) THEN <<e.keys[i], 1, e.vals[i]>> ELSE <<e.keys[i], 0, 0>>]
  IN /\ r.range = Upto(rng, e.stop)
     /\ r.rangehit = Upto(hkv, e.stop)
     /\ r.rangemiss = Upto(mk, e.stop)
     /\ r.hitkeys = hk /\ r.misskeys = mk
     /\ r.hit = hk /\ r.miss = mk
     \* a key given more than once may have been hit only once
     /\ LET m == r.map IN
        /\ {m[i][1] : i \in 1..Len(m)} = SetOf(hk)
        /\ Len(m) = Cardinality(SetOf(hk))
        /\ SetOf(m) \subseteq SetOf(hkv)
     /\ r.err = e.fail

ChainPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op \in {"get", "mget"} -> GetPost(st, e)
         [] e.op \in {"set", "mset", "del"} -> WritePost(st, e)
         [] e.op = "put" -> {Put(st, e.l, e.key, e.val)}
         [] e.op = "drop" -> {Drop(st, e.l, {e.key})}
         [] e.op = "drops" -> {Drop(st, e.l, SetOf(e.keys))}
         [] e.op = "view" -> IF ViewOK(e) THEN {st} ELSE {}
=============================================================================
