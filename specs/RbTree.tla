------------------------------- MODULE RbTree -------------------------------
(* Red-black trees.  The content of a tree is a function m from keys to values
   with a comparison c; its shape is observed: for each key in ascending order
   its colour (1 black) and the keys compared on the way to it.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Functions

Less(c, a, b) == IF c = 0 THEN a < b ELSE a > b
B(x) == IF x THEN 1 ELSE 0
Pred(f, x) == CASE f = 0 -> x % 2 = 0 [] f = 1 -> x > 3 [] f = 2 -> TRUE [] f = 3 -> FALSE

\* the keys of S in ascending order
Asc(c, S) == LET s == SortSeq(SetToSeq(S), LAMBDA a, b : a < b)
             IN TLCEval(IF c = 0 THEN s ELSE Reverse(s))


----------------------------------------------------------------------------
(* Shapes.  e.keys the keys in order, e.col their colours, e.path[i] the keys on
   the way from the root to the i-th (its proper ancestors), e.miss the number
   of keys compared when looking for keys that are not there.                *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
LogOK(len, n) == len <= 30 /\ (len <= 1 \/ Pow2(len) <= (n + 1) * (n + 1))

ShapeOK(e) ==
  LET n == Len(e.keys)
      pos == [k \in {e.keys[i] : i \in 1..n} |-> CHOOSE i \in 1..n : e.keys[i] = k]
      parent(i) == e.path[i][Len(e.path[i])]
      blacks(i) == e.col[i] + Cardinality({j \in 1..Len(e.path[i]) : e.col[pos[e.path[i][j]]] = 1})
      children(i) == {j \in 1..n : e.path[j] # <<>> /\ parent(j) = e.keys[i]}
      \* where a child is missing, a path from the root ends
      ends == {i \in 1..n : ~(\E j \in children(i) : j < i) \/ ~(\E j \in children(i) : j > i)}
  IN /\ Len(e.col) = n /\ Len(e.path) = n
     /\ Cardinality(DOMAIN pos) = n
     /\ \A i \in 1..n : \A j \in 1..Len(e.path[i]) : e.path[i][j] \in DOMAIN pos
     \* it is a binary tree: the way to a key is the way to its parent and then its parent
     /\ \A i \in 1..n : e.path[i] # <<>> =>
          e.path[pos[parent(i)]] = SubSeq(e.path[i], 1, Len(e.path[i]) - 1)
     /\ Cardinality({i \in 1..n : e.path[i] = <<>>}) = (IF n = 0 THEN 0 ELSE 1)
     \* the root is black, no red node has a red child
     /\ \A i \in 1..n : e.col[i] = 0 => e.path[i] # <<>> /\ e.col[pos[parent(i)]] = 1
     \* as many black nodes on every path
     /\ \A i, j \in ends : blacks(i) = blacks(j)
     \* so lookups are short
     /\ \A i \in 1..n : LogOK(Len(e.path[i]) + 1, n)
     /\ \A i \in 1..Len(e.miss) : LogOK(e.miss[i], n)

ShapeInit(cfg) == {0}
ShapePost(st, e) == IF e.p = 0 /\ (IF e.op = "shape" THEN ShapeOK(e) ELSE \A i \in 1..Len(e.miss) : LogOK(e.miss[i], e.n)) THEN {0} ELSE {}

----------------------------------------------------------------------------
RbInit(cfg) == {<<[m |-> <<>>, c |-> cfg.c]>>}

Val(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0

RbPost(st, e) ==
  LET t == st[e.t]
      m == t.m
      c == t.c
      has == e.k \in DOMAIN m
      keys == Asc(c, DOMAIN m)
      Put(x) == {[st EXCEPT ![e.t].m = x]}
      Ok(b) == IF b THEN {st} ELSE {}
      View(S) == {Append(st, [m |-> Restrict(m, S), c |-> c])}
  IN IF e.p # 0
     THEN (IF e.op = "sub" /\ e.p = 1 /\ Less(c, e.to, e.from) THEN {st} ELSE {})
     ELSE CASE e.op = "insert" -> IF e.res = Val(m, e.k) THEN Put((e.k :> e.v) @@ m) ELSE {}
            [] e.op = "update" -> IF e.res = <<Val(m, e.k), B(has)>> THEN (IF has THEN Put([m EXCEPT ![e.k] = e.v]) ELSE {st}) ELSE {}
            [] e.op = "delete" -> IF e.res = Val(m, e.k) THEN Put(Restrict(m, DOMAIN m \ {e.k})) ELSE {}
            [] e.op = "clear" -> Put(<<>>)
            [] e.op = "get" -> Ok(e.res = Val(m, e.k))
            [] e.op = "search" -> Ok(e.res = B(has))
            [] e.op = "len" -> Ok(e.res = Cardinality(DOMAIN m))
            [] e.op = "empty" -> Ok(e.res = B(DOMAIN m = {}))
            [] e.op = "keys" -> Ok(e.res = keys)
            [] e.op = "values" -> Ok(e.res = [i \in 1..Len(keys) |-> m[keys[i]]])
            [] e.op = "nodes" -> Ok(e.res = [i \in 1..Len(keys) |-> <<keys[i], m[keys[i]]>>])
            [] e.op = "getif" -> LET s == SelectSeq(keys, LAMBDA x : Pred(e.f, x)) IN Ok(e.res = [i \in 1..Len(s) |-> m[s[i]]])
            \* the views are new trees
            [] e.op = "sub" -> IF Less(c, e.to, e.from) THEN {}
                               ELSE View({k \in DOMAIN m : (Less(c, e.from, k) \/ (k = e.from /\ e.fi = 1)) /\ (Less(c, k, e.to) \/ (k = e.to /\ e.ti = 1))})
            [] e.op = "left" -> View({k \in DOMAIN m : Less(c, k, e.k) \/ (k = e.k /\ e.fi = 1)})
            [] e.op = "right" -> View({k \in DOMAIN m : Less(c, e.k, k) \/ (k = e.k /\ e.fi = 1)})
            [] e.op = "shape" -> Ok(ShapeOK(e) /\ e.keys = keys)
=============================================================================
