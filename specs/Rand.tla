-------------------------------- MODULE Rand --------------------------------
(* Random helpers.  Big numbers are given as four digits in base 2^16, the most
   significant one first, negative ones with the sign flag in front:
   <<negative, d3, d2, d1, d0>>.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Neg(x) == x[1] = 1
IsZero(x) == \A i \in 2..5 : x[i] = 0
\* of numbers that are not negative
Less(a, b) == \E i \in 2..5 : a[i] < b[i] /\ \A j \in 2..i-1 : a[j] = b[j]
Positive(x) == ~Neg(x) /\ ~IsZero(x)
Pow(k) == <<0>> \o [i \in 1..4 |-> IF (4 - i) * 16 <= k /\ k < (5 - i) * 16 THEN 2 ^ (k % 16) ELSE 0]

Below(e) == IF Positive(e.n)
            THEN e.p = 0 /\ ~Neg(e.res) /\ Less(e.res, e.n)
            ELSE e.p = 1
IsPerm(s, n) == Len(s) = n /\ {s[i] : i \in 1..n} = 0..n-1
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

RandInit(cfg) == {0}

OK(e) ==
  CASE e.op \in {"Intn", "Int31n", "Int63n"} -> Below(e)
    \* the unsigned ones are documented for nothing but n > 0
    [] e.op \in {"Uintn", "Uint32n", "Uint64n"} -> IsZero(e.n) \/ Below(e)
    [] e.op = "Int31" -> e.p = 0 /\ ~Neg(e.res) /\ Less(e.res, Pow(31))
    [] e.op \in {"Int", "Int63"} -> e.p = 0 /\ ~Neg(e.res) /\ Less(e.res, Pow(63))
    \* res = <<the number is not NaN and not negative, floor of its product with 2^53>>
    [] e.op \in {"Float32", "Float64"} -> e.p = 0 /\ e.ok = 1 /\ ~Neg(e.res) /\ Less(e.res, Pow(53))
    [] e.op = "Perm" -> IF e.n < 0 THEN e.p = 1 ELSE e.p = 0 /\ IsPerm(e.res, e.n)
    \* the exchanges made
    [] e.op = "Shuffle" -> IF e.n < 0 THEN e.p = 1 /\ e.swaps = <<>>
                           ELSE e.p = 0 /\ \A i \in 1..Len(e.swaps) : e.swaps[i][1] \in 0..e.n-1 /\ e.swaps[i][2] \in 0..e.n-1
    \* the outcomes for draws from a set that is even with respect to everything up to n:
    \* the permutations, and how many combinations of draws lead to each
    [] e.op \in {"PermEven", "ShuffleEven"} ->
         /\ e.p = 0
         /\ Len(e.perms) = Fact(e.n)
         /\ \A i \in 1..Len(e.perms) : IsPerm(e.perms[i], e.n)
         /\ Cardinality({e.perms[i] : i \in 1..Len(e.perms)}) = Fact(e.n)
         /\ \A i \in 1..Len(e.counts) : e.counts[i] = e.counts[1]
    \* positions that in none of many outcomes have a number of the lower half, of the upper half
    [] e.op = "Mixed" -> e.p = 0 /\ e.res = <<<<>>, <<>>>>
    \* for how many of all 2^32 draws is the result i; the other draws are drawn again
    [] e.op = "Counts" ->
         /\ Len(e.counts) = e.n
         /\ \A i \in 1..e.n : e.counts[i] = e.counts[1]
         /\ e.other = 0
    \* what Read returned, the positions that none of many calls has changed, whether it has written outside
    [] e.op = "Read" -> e.p = 0 /\ e.res = e.len /\ e.err = 0 /\ e.outside = 0
                        /\ e.missed = <<>>

RandPost(st, e) == IF OK(e) THEN {0} ELSE {}
=============================================================================
