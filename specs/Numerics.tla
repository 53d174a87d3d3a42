------------------------------ MODULE Numerics ------------------------------
(* Minima and maxima.  Values of an ordered type are given by their ranks among
   the values used, z is the rank of the type's zero value.                   *)
EXTENDS Integers, Sequences, TLC

B(x) == IF x THEN 1 ELSE 0
ToSet(x) == {x[i] : i \in 1..Len(x)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
\* the strict comparisons passed to MaxBy and MinBy; elements are <<key, id>>
Cmp(f, a, b) == CASE f = 0 -> a > b [] f = 1 -> a < b [] f = 2 -> a % 3 > b % 3 [] f = 3 -> a % 3 < b % 3
\* the first element that no other one is preferred to
Best(f, s) == s[CHOOSE i \in 1..Len(s) : /\ \A j \in 1..Len(s) : ~Cmp(f, s[j][1], s[i][1])
                                         /\ \A j \in 1..i - 1 : \E k \in 1..Len(s) : Cmp(f, s[k][1], s[j][1])]

\* with 0 for not-a-numbers, the result is an element that no other one is above (below)
Top(s, r) == r \in ToSet(s) /\ (r > 0 => \A i \in 1..Len(s) : s[i] <= r)
Bottom(s, r) == r \in ToSet(s) /\ (r > 0 => \A i \in 1..Len(s) : s[i] = 0 \/ s[i] >= r)

NumInit(cfg) == {0}

OK(e) ==
  /\ e.p = 0
  /\ CASE e.op = "max" -> e.res = MaxOf({e.a, e.b})
       [] e.op = "min" -> e.res = MinOf({e.a, e.b})
       [] e.op = "maxc" -> e.res = IF e.s = <<>> THEN e.z ELSE MaxOf(ToSet(e.s))
       [] e.op = "minc" -> e.res = IF e.s = <<>> THEN e.z ELSE MinOf(ToSet(e.s))
       [] e.op \in {"maxby", "minby"} -> e.res = IF e.s = <<>> THEN <<0, 0>> ELSE Best(e.f, e.s)
       [] e.op = "empty" -> e.res = e.z
       [] e.op = "isempty" -> e.res = <<B(e.a = e.z), B(e.a # e.z)>>
       \* the value behind the pointer; behind it after the variable changed; of the pointer; of nil
       [] e.op = "ptr" -> e.res = <<e.a, e.a, e.a, e.z>>
       \* n values e.a but for one e.b, at the first, second ... place; all four functions
       [] e.op = "sweep" -> LET mx == IF e.n = 1 THEN e.b ELSE MaxOf({e.a, e.b})
                                mn == IF e.n = 1 THEN e.b ELSE MinOf({e.a, e.b})
                            IN Len(e.res) = 4 /\ \A i \in 1..4 : e.res[i] = [j \in 1..e.n |-> IF i % 2 = 1 THEN mx ELSE mn]
       [] e.op = "nan" -> /\ Len(e.res) = IF Len(e.s) = 2 THEN 6 ELSE 4
                          /\ \A i \in {1, 2, 5} \cap 1..Len(e.res) : Top(e.s, e.res[i])
                          /\ \A i \in {3, 4, 6} \cap 1..Len(e.res) : Bottom(e.s, e.res[i])
       [] e.op = "pack" -> e.res = <<e.a, e.b>>

NumPost(st, e) == IF OK(e) THEN {0} ELSE {}
=============================================================================
