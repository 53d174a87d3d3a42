------------------------------- MODULE Slices -------------------------------
(* The slice helpers as functions on sequences.  Each event is one call: s, s2 the
   arguments, res the result; mod = 1 iff the call changed an argument (or the
   memory behind it), al = 1 iff writing to the result changes an argument,
   nil = 1 iff the result is nil; sn = 1 iff s is nil.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ToSet(x) == {x[i] : i \in 1..Len(x)}
B(x) == IF x THEN 1 ELSE 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Permutation(s, t) == Len(s) = Len(t) /\ \A v \in ToSet(s) \cup ToSet(t) : Count(s, v) = Count(t, v)
\* the functions passed
F(f, x) == CASE f = 0 -> x [] f = 1 -> x % 3 [] f = 2 -> 0 [] f = 3 -> x \div 2
Pred(f, c, x) == CASE f = 0 -> x = c [] f = 1 -> x % 3 = c % 3 [] f = 2 -> x > c [] f = 3 -> TRUE [] f = 4 -> FALSE
Eq(f, a, b) == CASE f = 0 -> a = b [] f = 1 -> a % 3 = b % 3 [] f = 2 -> a < b [] f = 3 -> TRUE [] f = 4 -> FALSE
Less(f, a, b) == CASE f = 0 -> a < b [] f = 1 -> a > b [] f = 2 -> a % 3 < b % 3
\* first occurrences
RECURSIVE Uniq(_, _, _)
Uniq(s, f, seen) == IF s = <<>> THEN <<>>
                    ELSE LET k == F(f, Head(s)) IN
                         IF k \in seen THEN Uniq(Tail(s), f, seen)
                         ELSE <<Head(s)>> \o Uniq(Tail(s), f, seen \cup {k})
FirstIndex(s, f, c) == IF \E i \in 1..Len(s) : Pred(f, c, s[i])
                       THEN (CHOOSE i \in 1..Len(s) : Pred(f, c, s[i]) /\ \A j \in 1..i - 1 : ~Pred(f, c, s[j])) - 1
                       ELSE -1
Sorted(s, f) == \A i \in 1..Len(s) - 1 : ~Less(f, s[i + 1], s[i])
Same(f, s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Eq(f, s[i], t[i])

\* a helper called with <<2, 4, ..., 2n>> and the j-th element looked for, or replaced:
\* by 1, by something larger than all others, or by the first
Sweep(f, n, j) ==
  CASE f \in {"index", "indexf"} -> <<j - 1>>
    [] f \in {"contains", "containsf"} -> <<1, 0>>
    [] f = "equal" -> <<1, 0, 0>>
    [] f = "equalf" -> <<1, 0>>
    [] f \in {"sorted", "sortedf"} -> <<B(j = 1), B(j = n)>>
    [] f \in {"unique", "uniquef"} -> IF j = 1 THEN <<n, n, n * (n + 1)>> ELSE <<n - 1, n - 1, (n * (n + 1)) - 2 * j>>

SlicesInit(cfg) == {0}

OK(e) ==
  /\ e.p = 0
  /\ (e.op \notin {"reverse", "shuffle", "sweep", "nan"} => e.mod = 0)
  /\ (e.op \in {"copy", "unique", "uniquef", "merge"} => e.al = 0)
  /\ CASE e.op = "copy" -> e.res = e.s /\ e.nil = e.sn
       \* 1 .. n with a not-a-number at one place: it equals nothing, and is not less than anything
       [] e.op = "nan" -> e.res = <<0, 0, 0, -1, 0, e.n + 1, e.n + 1, 1, 2 * e.n>>
       [] e.op = "sweep" -> e.res = [j \in 1..e.n |-> Sweep(e.f, e.n, j)]
       [] e.op = "equal" -> e.res = B(Same(0, e.s, e.s2))
       [] e.op = "equalf" -> e.res = B(Same(e.f, e.s, e.s2))
       [] e.op = "index" -> e.res = FirstIndex(e.s, 0, e.c)
       [] e.op = "indexf" -> e.res = FirstIndex(e.s, e.f, e.c)
       [] e.op = "contains" -> e.res = B(FirstIndex(e.s, 0, e.c) >= 0)
       [] e.op = "containsf" -> e.res = B(FirstIndex(e.s, e.f, e.c) >= 0)
       [] e.op = "len" -> e.res = Len(e.s)
       [] e.op = "unique" -> LET u == Uniq(e.s, 0, {}) IN e.res = u /\ e.n = Len(u)
       [] e.op = "uniquef" -> LET u == Uniq(e.s, e.f, {}) IN e.res = u /\ e.n = Len(u)
       [] e.op = "reverse" -> e.res = Rev(e.s) /\ e.arg = e.res
       [] e.op = "shuffle" -> Permutation(e.res, e.s) /\ e.arg = e.res
       [] e.op = "merge" -> e.res = e.s \o e.s2 /\ e.nil = 0
       [] e.op = "sorted" -> e.res = B(Sorted(e.s, 0))
       [] e.op = "sortedf" -> e.res = B(Sorted(e.s, e.f))

SlicesPost(st, e) == IF OK(e) THEN {0} ELSE {}
=============================================================================
