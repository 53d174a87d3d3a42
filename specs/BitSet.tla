------------------------------- MODULE BitSet -------------------------------
(* A bit set is a sequence of bits, a whole number of bytes long, the most
   significant bit of each byte first.  The state is the sequence of the sets
   made so far; events name them by their index.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BitInit(cfg) == {<<>>}

Pow2(n) == 2^n
\* bytes <-> bits
Bits(b) == [i \in 1..8 * Len(b) |-> (b[((i - 1) \div 8) + 1] \div Pow2(7 - ((i - 1) % 8))) % 2]
ByteAt(s, k) == s[8*k-7]*128 + s[8*k-6]*64 + s[8*k-5]*32 + s[8*k-4]*16 + s[8*k-3]*8 + s[8*k-2]*4 + s[8*k-1]*2 + s[8*k]
Bytes(s) == [k \in 1..Len(s) \div 8 |-> ByteAt(s, k)]
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
UpTo8(n) == ((n + 7) \div 8) * 8
Zeros(n) == [i \in 1..n |-> 0]

\* offsets: negative ones count from the end
At(s, off) == IF off < 0 THEN off + Len(s) ELSE off
Ones(s) == Cardinality({i \in 1..Len(s) : s[i] = 1})

\* the bits of the inclusive range, clipped to the set
Part(s, a, b) ==
  LET lo == IF At(s, a) < 0 THEN 0 ELSE At(s, a)
      hi == IF At(s, b) >= Len(s) THEN Len(s) - 1 ELSE At(s, b)
  IN IF hi < lo THEN <<>> ELSE SubSeq(s, lo + 1, hi + 1)

Apply(op, x, y) ==
  CASE op = "and" -> x * y
    [] op = "or" -> IF x + y > 0 THEN 1 ELSE 0
    [] op = "xor" -> (x + y) % 2
    [] op = "andnot" -> x * (1 - y)

RECURSIVE Fold(_, _, _, _)
Fold(op, st, acc, hs) ==
  IF hs = <<>> THEN acc
  ELSE LET n == Len(acc) g == Pad(st[Head(hs)], n)
       IN Fold(op, st, [i \in 1..n |-> Apply(op, acc[i], g[i])], Tail(hs))

MaxLen(st, hs) == LET L == {Len(st[h]) : h \in {hs[i] : i \in 1..Len(hs)}} IN CHOOSE m \in L : \A x \in L : x <= m

Algebra(op, st, h, hs) == Fold(op, st, Pad(st[h], MaxLen(st, <<h>> \o hs)), hs)

Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d

RECURSIVE Join(_, _)
Join(bs, sep) ==
  IF bs = <<>> THEN <<>>
  ELSE LET one == [i \in 1..8 |-> 48 + ((Head(bs) \div Pow2(8 - i)) % 2)]
       IN one \o (IF Len(bs) = 1 THEN <<>> ELSE sep \o Join(Tail(bs), sep))

\* [r: result, s: the sets afterwards]
Do(st, e) ==
  LET s == st[e.h]
      n == Len(s)
      add(r, x) == [r |-> r, s |-> Append(st, x)]
      same(r) == [r |-> r, s |-> st]
  IN
  CASE e.op = "reset" -> [r |-> 0, s |-> <<>>]
    [] e.op = "new" -> add(0, Bits(e.b))
    [] e.op = "hex" ->
         IF Len(e.b) % 2 = 1 \/ \E i \in 1..Len(e.b) : Hex(e.b[i]) < 0 THEN same(1)
         ELSE add(0, Bits([k \in 1..Len(e.b) \div 2 |-> 16 * Hex(e.b[2*k-1]) + Hex(e.b[2*k])]))
    [] e.op = "set" ->
         LET o == At(s, e.off) IN
         IF o < 0 THEN same(<<0, 1>>)
         ELSE LET g == Pad(s, IF o < n THEN n ELSE UpTo8(o + 1))
              IN [r |-> <<g[o + 1], 0>>, s |-> [st EXCEPT ![e.h] = [g EXCEPT ![o + 1] = e.v]]]
    [] e.op = "get" -> LET o == At(s, e.off) IN same(IF o < 0 \/ o >= n THEN 0 ELSE s[o + 1])
    [] e.op = "range" ->
         LET m == IF e.stop > 0 /\ e.stop < n THEN e.stop ELSE n IN same([i \in 1..m |-> <<i - 1, s[i]>>])
    [] e.op = "count" -> same(Ones(Part(s, e.a, e.z)))
    [] e.op = "sub" -> LET q == Part(s, e.a, e.z) IN add(Bytes(Pad(q, UpTo8(Len(q)))), Pad(q, UpTo8(Len(q))))
    [] e.op = "clear" -> [r |-> 0, s |-> [st EXCEPT ![e.h] = Zeros(n)]]
    [] e.op = "size" -> same(n)
    \* the bytes outside of the parts of a slice that sets were made from
    [] e.op = "outer" -> same(e.b)
    [] e.op = "bytes" -> same(Bytes(s))
    [] e.op = "binary" -> same(Join(Bytes(s), e.sep))
    [] e.op = "string" -> same([i \in 1..n \div 4 |-> HexDigit(s[4*i-3]*8 + s[4*i-2]*4 + s[4*i-1]*2 + s[4*i])])
    [] e.op = "not" -> LET q == [i \in 1..n |-> 1 - s[i]] IN add(Bytes(q), q)
    \* no argument: the receiver itself
    [] e.op \in {"and", "or", "xor", "andnot"} ->
         IF e.hs = <<>> THEN same(<<>>) ELSE LET q == Algebra(e.op, st, e.h, e.hs) IN add(Bytes(q), q)

BitPost(st, e) == IF e.p # 0 THEN {} ELSE LET y == Do(st, e) IN IF y.r = e.res THEN {y.s} ELSE {}

(* concurrent histories: the sets are given, and a set returned is only looked at *)
LinInit(cfg) == {[i \in 1..Len(cfg.sets) |-> Bits(cfg.sets[i])]}
LinPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE LET y == Do(st, e) IN IF y.r = e.res THEN {SubSeq(y.s, 1, Len(st))} ELSE {}
=============================================================================
