------------------------------- MODULE GoMap -------------------------------
(* The abstract object behind sync.Map: a map from keys to values, where every
   operation is one atomic step.  Values are numbers >= 0, Absent is no value. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == -1

MapInit(cfg) == {[k \in 0..cfg.keys-1 |-> Absent]}

Present(m) == {k \in DOMAIN m : m[k] # Absent}

\* what an operation returns and leaves behind
MapStep(m, e) ==
  LET has == m[e.key] # Absent
      cur == IF has THEN m[e.key] ELSE 0
  IN CASE e.op = "load"    -> [res |-> <<cur, IF has THEN 1 ELSE 0>>, m |-> m]
       [] e.op = "store"   -> [res |-> 0, m |-> [m EXCEPT ![e.key] = e.val]]
       [] e.op = "los"     -> IF has THEN [res |-> <<cur, 1>>, m |-> m]
                              ELSE [res |-> <<e.val, 0>>, m |-> [m EXCEPT ![e.key] = e.val]]
       [] e.op = "lad"     -> [res |-> <<cur, IF has THEN 1 ELSE 0>>, m |-> [m EXCEPT ![e.key] = Absent]]
       [] e.op = "delete"  -> [res |-> 0, m |-> [m EXCEPT ![e.key] = Absent]]
       [] e.op = "swap"    -> [res |-> <<cur, IF has THEN 1 ELSE 0>>, m |-> [m EXCEPT ![e.key] = e.val]]
       [] e.op = "cas"     -> IF has /\ cur = e.old THEN [res |-> 1, m |-> [m EXCEPT ![e.key] = e.val]]
                              ELSE [res |-> 0, m |-> m]
       [] e.op = "cad"     -> IF has /\ cur = e.old THEN [res |-> 1, m |-> [m EXCEPT ![e.key] = Absent]]
                              ELSE [res |-> 0, m |-> m]

\* Range(f), alone: e.res are the pairs f was called with, f returned false for the e.stop-th
RangeOK(m, e) ==
  LET n == Len(e.res)
      size == Cardinality(Present(m))
  IN /\ \A i \in 1..n : e.res[i][1] \in Present(m) /\ m[e.res[i][1]] = e.res[i][2]
     /\ Cardinality({e.res[i][1] : i \in 1..n}) = n
     /\ n = (IF e.stop > 0 /\ e.stop < size THEN e.stop ELSE size)

MapPost(m, e) ==
  IF e.p # 0 THEN {}
  ELSE IF e.op = "range" THEN (IF RangeOK(m, e) THEN {m} ELSE {})
  ELSE LET y == MapStep(m, e) IN IF y.res = e.res THEN {y.m} ELSE {}
=============================================================================
