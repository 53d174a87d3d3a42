------------------------------- MODULE SetMap -------------------------------
(* Sets are sets and maps are functions.  The state is a set s and two maps m[1],
   m[2] (functions from numbers to numbers); a nil map behaves as an empty one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetMapInit(cfg) == {[s |-> {}, m |-> <<<<>>, <<>>>>]}

ToSet(x) == {x[i] : i \in 1..Len(x)}
\* the sequence x lists the elements of S, each once
Lists(x, S) == Len(x) = Cardinality(S) /\ ToSet(x) = S
Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
\* the sequence x has the values of m, as often as m has them
HasValues(x, m) == /\ Len(x) = Cardinality(DOMAIN m)
                   /\ \A v \in ToSet(x) \cup {m[k] : k \in DOMAIN m} :
                        Cardinality({i \in 1..Len(x) : x[i] = v}) = Cardinality({k \in DOMAIN m : m[k] = v})
Last(x, k) == LET i == CHOOSE i \in 1..Len(x) : x[i][1] = k /\ \A j \in i + 1..Len(x) : x[j][1] # k IN x[i][2]
FromPairs(x) == [k \in {x[i][1] : i \in 1..Len(x)} |-> Last(x, k)]
SamePairs(x, m) == Len(x) = Cardinality(DOMAIN m) /\ {x[i] : i \in 1..Len(x)} = Pairs(m)
B(x) == IF x THEN 1 ELSE 0
\* the functions that EqualWithFunc is called with
Eq(f, a, b) == CASE f = 0 -> a = b [] f = 1 -> a % 3 = b % 3 [] f = 2 -> a < b [] f = 3 -> TRUE [] f = 4 -> FALSE
EqualBy(f, x, y) == DOMAIN x = DOMAIN y /\ \A k \in DOMAIN x : Eq(f, x[k], y[k])

\* Not-a-numbers: no two of them are equal, so each one added is an element of its own that
\* no lookup finds and that nothing but Clear removes.  The set is {1, NaN, NaN}, the map has
\* 1 |-> 1, NaN |-> 2, another one 1 |-> NaN; the result is a number of elements, or what is
\* returned, or the sum of the values.
Nan(f) == CASE f \in {"set.Len", "set.Items", "set.Remove", "map.Values", "map.Map2Entries", "map.Entries2Map"} -> 3
            [] f \in {"map.Len", "map.Keys", "map.Copy"} -> 2
            [] f \in {"set.Contains", "map.Contains", "map.Equal", "map.Equal values", "map.EqualWithFunc"} -> 0
            [] f = "map.EqualWithFunc all" -> 1
            [] f \in {"set.Clear", "map.Clear"} -> 0

SetMapPost(st, e) ==
  IF e.p # 0 THEN {} ELSE
  LET m == IF "i" \in DOMAIN e THEN st.m[e.i] ELSE <<>>
      Ok(c) == IF c THEN {st} ELSE {}
      PutM(x) == {[st EXCEPT !.m[e.i] = x]}
  IN CASE e.op = "nan" -> Ok(e.res = Nan(e.f))
       [] e.op = "snew" -> {[st EXCEPT !.s = {}]}
       [] e.op = "sadd" -> IF e.res = 1 THEN {[st EXCEPT !.s = @ \cup {e.v}]} ELSE {}
       [] e.op = "srem" -> IF e.res = 1 THEN {[st EXCEPT !.s = @ \ {e.v}]} ELSE {}
       [] e.op = "shas" -> Ok(e.res = B(e.v \in st.s))
       [] e.op = "slen" -> Ok(e.res = Cardinality(st.s))
       [] e.op = "sitems" -> Ok(Lists(e.res, st.s))
       [] e.op = "sclear" -> {[st EXCEPT !.s = {}]}
       \* the maps are changed directly
       [] e.op = "mnew" -> PutM(FromPairs(e.kv))
       [] e.op = "mput" -> PutM((e.k :> e.v) @@ m)
       [] e.op = "mdel" -> PutM([k \in DOMAIN m \ {e.k} |-> m[k]])
       [] e.op = "mkeys" -> Ok(Lists(e.res, DOMAIN m))
       [] e.op = "mvalues" -> Ok(HasValues(e.res, m))
       [] e.op = "mlen" -> Ok(e.res = Cardinality(DOMAIN m))
       [] e.op = "mhas" -> Ok(e.res = B(e.k \in DOMAIN m))
       [] e.op = "mclear" -> PutM(<<>>)
       \* the copy, and the original after the copy has been changed
       [] e.op = "mcopy" -> Ok(SamePairs(e.res[1], m) /\ SamePairs(e.res[2], m))
       [] e.op = "mentries" -> Ok(SamePairs(e.res, m))
       [] e.op = "mfrom" -> Ok(SamePairs(e.res, FromPairs(e.kv)))
       [] e.op = "mlook" -> Ok(SamePairs(e.res, m))
       [] e.op = "mequal" -> Ok(e.res = B(EqualBy(0, st.m[e.i], st.m[e.j])))
       [] e.op = "mequalf" -> Ok(e.res = B(EqualBy(e.f, st.m[e.i], st.m[e.j])))
=============================================================================
