------------------------------ MODULE SkipMap ------------------------------
(* A skip list is a map with ordered keys; entries are recognised by their values. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

B(x) == IF x THEN 1 ELSE 0
Asc(S) == TLCEval(SortSeq(SetToSeq(S), LAMBDA a, b : a < b))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

SkipInit(cfg) == {<<>>}

SkipPost(m, e) ==
  IF e.p # 0 THEN {} ELSE
  LET has == e.k \in DOMAIN m
      keys == Asc(DOMAIN m)
      n == Len(keys)
      vals == [i \in 1..n |-> m[keys[i]]]
      geq == {k \in DOMAIN m : k >= e.k}
      Ok(b) == IF b THEN {m} ELSE {}
  IN CASE e.op = "new" -> {<<>>}
       [] e.op = "insert" -> {(e.k :> e.v) @@ m}
       [] e.op = "change" -> IF e.res = B(has) THEN (IF has THEN {[m EXCEPT ![e.k] = e.v]} ELSE {m}) ELSE {}
       [] e.op = "delete" -> {[k \in DOMAIN m \ {e.k} |-> m[k]]}
       [] e.op = "find" -> Ok(e.res = (IF has THEN <<m[e.k], 1>> ELSE <<0, 0>>))
       [] e.op = "count" -> Ok(e.res = Cardinality(DOMAIN m))
       [] e.op = "empty" -> Ok(e.res = B(m = <<>>))
       \* from the least by Next until it comes round, from the greatest by Prev
       [] e.op = "walk" -> Ok(e.res = <<vals, Rev(vals)>>)
       [] e.op = "small" -> Ok(e.res = (IF n = 0 THEN <<0, 0>> ELSE <<m[keys[1]], 1>>))
       [] e.op = "large" -> Ok(e.res = (IF n = 0 THEN <<0, 0>> ELSE <<m[keys[n]], 1>>))
       \* an entry got earlier, whose key was not deleted since: its value, and those after and before it
       [] e.op = "held" -> IF ~has THEN {} ELSE
            LET i == CHOOSE i \in 1..n : keys[i] = e.k
            IN Ok(e.res = <<vals[i], vals[(i % n) + 1], vals[((i + n - 2) % n) + 1]>>)
       [] e.op = "fge" -> Ok(e.res = (IF geq = {} THEN <<0, 0>> ELSE <<m[CHOOSE k \in geq : \A j \in geq : k <= j], 1>>))
=============================================================================
