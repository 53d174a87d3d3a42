-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 as in the Unicode standard, over sequences of bytes.                *)
EXTENDS Integers, Sequences, TLC
Surrogate(c) == c \in 55296..57343
Scalar(c) == c \in 0..1114111 /\ ~Surrogate(c)
Replacement == 65533
\* a code point as bytes; what is not a scalar value is encoded as U+FFFD
RECURSIVE Encode(_)
Encode(c) ==
  CASE ~Scalar(c) -> Encode(Replacement)
    [] c < 128 -> <<c>>
    [] c >= 128 /\ c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c >= 2048 /\ c < 65536 /\ Scalar(c) -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] c >= 65536 /\ Scalar(c) -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Tail8(b) == b \in 128..191
Size(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
\* the character at position i of s: its code point, its bytes and whether they are
\* valid; one byte that starts no valid encoding is one invalid character
At(s, i) ==
  LET n == Size(s[i])
      bad == [c |-> Replacement, n |-> 1, ok |-> FALSE]
      v == CASE n = 1 -> s[i]
             [] n = 2 -> ((s[i] - 192) * 64) + (s[i + 1] - 128)
             [] n = 3 -> ((s[i] - 224) * 4096) + ((s[i + 1] - 128) * 64) + (s[i + 2] - 128)
             [] n = 4 -> ((s[i] - 240) * 262144) + ((s[i + 1] - 128) * 4096) + ((s[i + 2] - 128) * 64) + (s[i + 3] - 128)
  IN IF n = 0 \/ (i + n) - 1 > Len(s) THEN bad
     ELSE IF \E k \in 1..(n - 1) : ~Tail8(s[i + k]) THEN bad
     ELSE IF ~Scalar(v) \/ Len(Encode(v)) # n THEN bad
     ELSE [c |-> v, n |-> n, ok |-> TRUE]
\* the characters of s from position i
RECURSIVE CharsFrom(_, _, _)
CharsFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE LET a == TLCEval(At(s, i)) IN CharsFrom(s, i + a.n, Append(acc, [c |-> a.c, b |-> SubSeq(s, i, (i + a.n) - 1), ok |-> a.ok]))
Chars(s) == TLCEval(CharsFrom(s, 1, <<>>))
Codes(s) == LET cs == Chars(s) IN TLCEval([i \in 1..Len(cs) |-> cs[i].c])
RECURSIVE EncodeAllFrom(_, _, _)
EncodeAllFrom(cs, i, acc) == IF i > Len(cs) THEN acc ELSE EncodeAllFrom(cs, i + 1, acc \o Encode(cs[i]))
EncodeAll(cs) == EncodeAllFrom(cs, 1, <<>>)
=============================================================================
