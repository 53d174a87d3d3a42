------------------------------- MODULE Crypto -------------------------------
(* Encryption and decryption of texts: encoding, modes of operation, padding.
   Everything is a sequence of bytes.  The mode is "ecb", "cbc" or "ctr"; b64 says
   whether texts are in base64 or hexadecimal.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Aes

Blocks(s) == TLCEval([i \in 1..(Len(s) \div 16) |-> SubSeq(s, (16 * i) - 15, 16 * i)])
RECURSIVE Concat(_)
Concat(bs) == IF bs = <<>> THEN <<>>
              ELSE IF Len(bs) = 1 THEN bs[1]
              ELSE Concat(SubSeq(bs, 1, Len(bs) \div 2)) \o Concat(SubSeq(bs, (Len(bs) \div 2) + 1, Len(bs)))

------------------------------------------------------------------------------
\* encodings; decoding gives <<>> for what cannot be decoded and otherwise <<bytes>>
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
HexEnc(s) == [i \in 1..2 * Len(s) |-> LET x == s[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
HexDec(s) == IF Len(s) % 2 = 1 \/ \E i \in 1..Len(s) : HexVal(s[i]) < 0 THEN <<>>
             ELSE << TLCEval([i \in 1..(Len(s) \div 2) |-> (16 * HexVal(s[(2 * i) - 1])) + HexVal(s[2 * i])]) >>

B64Digit(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 45 ELSE 95
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE -1
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
B64Enc(s) == [i \in 1..(((8 * Len(s)) + 5) \div 6) |->
  LET q == (i - 1) \div 4   \* of the groups of three bytes
      a == At(s, (3 * q) + 1)  b == At(s, (3 * q) + 2)  c == At(s, (3 * q) + 3)
      x == CASE i % 4 = 1 -> a \div 4 [] i % 4 = 2 -> ((a % 4) * 16) + (b \div 16)
             [] i % 4 = 3 -> ((b % 16) * 4) + (c \div 64) [] i % 4 = 0 -> c % 64
  IN B64Digit(x)]
B64Dec(t) ==
  LET s == SelectSeq(t, LAMBDA c : c \notin {10, 13})  \* line breaks do not count
      v(i) == IF i <= Len(s) THEN B64Val(s[i]) ELSE 0
  IN IF Len(s) % 4 = 1 \/ \E i \in 1..Len(s) : B64Val(s[i]) < 0 THEN <<>>
     ELSE << TLCEval([i \in 1..((6 * Len(s)) \div 8) |->
            LET q == 4 * ((i - 1) \div 3) IN
            CASE i % 3 = 1 -> (4 * v(q + 1)) + (v(q + 2) \div 16)
              [] i % 3 = 2 -> (16 * (v(q + 2) % 16)) + (v(q + 3) \div 4)
              [] i % 3 = 0 -> (64 * (v(q + 3) % 4)) + v(q + 4)]) >>
Enc(s, b64) == IF b64 = 1 THEN B64Enc(s) ELSE HexEnc(s)
Dec(s, b64) == IF b64 = 1 THEN B64Dec(s) ELSE HexDec(s)

------------------------------------------------------------------------------
\* padding
Pad(s) == LET n == 16 - (Len(s) % 16) IN s \o TLCEval([i \in 1..n |-> n])
Unpad(s) == IF s = <<>> THEN <<>>
            ELSE LET n == s[Len(s)] IN
                 IF n \in 1..16 /\ n <= Len(s) /\ \A i \in (Len(s) - n) + 1..Len(s) : s[i] = n
                 THEN << SubSeq(s, 1, Len(s) - n) >> ELSE <<>>

\* modes, of whole blocks (ecb, cbc)
EcbEnc(ks, p) == LET bs == Blocks(p) IN Concat(TLCEval([i \in 1..Len(bs) |-> EncBlock(ks, bs[i])]))
EcbDec(ks, c) == LET bs == Blocks(c) IN Concat(TLCEval([i \in 1..Len(bs) |-> DecBlock(ks, bs[i])]))
RECURSIVE CbcEnc(_, _, _)
CbcEnc(ks, iv, p) == IF p = <<>> THEN <<>>
                     ELSE LET c == EncBlock(ks, XorSeq(SubSeq(p, 1, 16), iv)) IN c \o CbcEnc(ks, c, SubSeq(p, 17, Len(p)))
CbcDec(ks, iv, c) == LET bs == Blocks(c) IN Concat(TLCEval([i \in 1..Len(bs) |-> XorSeq(DecBlock(ks, bs[i]), IF i = 1 THEN iv ELSE bs[i - 1])]))
\* the counter block is a big-endian number
RECURSIVE Inc(_, _)
Inc(b, i) == IF i = 0 THEN b ELSE IF b[i] = 255 THEN Inc([b EXCEPT ![i] = 0], i - 1) ELSE [b EXCEPT ![i] = @ + 1]
RECURSIVE Ctr(_, _, _)
Ctr(ks, iv, p) == IF p = <<>> THEN <<>>
                  ELSE LET n == IF Len(p) < 16 THEN Len(p) ELSE 16
                           k == EncBlock(ks, iv)
                       IN TLCEval([i \in 1..n |-> BXor(p[i], k[i])]) \o Ctr(ks, Inc(iv, 16), SubSeq(p, n + 1, Len(p)))

------------------------------------------------------------------------------
\* the cipher text for a plain text, given the initialisation vector
Encrypted(mode, key, iv, p) ==
  LET ks == Schedule(key) IN
  CASE mode = "ecb" -> EcbEnc(ks, Pad(p))
    [] mode = "cbc" -> iv \o CbcEnc(ks, iv, Pad(p))
    [] mode = "ctr" -> iv \o Ctr(ks, iv, p)
\* <<>> if it cannot be decrypted
Decrypted(mode, key, c) ==
  IF Len(key) \notin {16, 24, 32} THEN <<>>
  ELSE LET ks == Schedule(key)
           iv == SubSeq(c, 1, 16)
           rest == SubSeq(c, 17, Len(c))
       IN CASE mode = "ecb" -> IF Len(c) % 16 # 0 THEN <<>> ELSE Unpad(EcbDec(ks, c))
            [] mode = "cbc" -> IF Len(c) < 16 \/ Len(c) % 16 # 0 THEN <<>> ELSE Unpad(CbcDec(ks, iv, rest))
            [] mode = "ctr" -> IF Len(c) < 16 THEN <<>> ELSE << Ctr(ks, iv, rest) >>

\* st: the initialisation vectors used
CryptoInit(cfg) == {{}}
CryptoPost(st, e) ==
  IF e.p # 0 \/ e.mod # 0 THEN {}   \* no panic, no argument changed
  ELSE CASE e.op = "enc" ->
              LET d == Dec(e.res, e.b64) IN
              IF d = <<>> \/ (e.mode # "ecb" /\ Len(d[1]) < 16) THEN {}
              ELSE LET iv == SubSeq(d[1], 1, 16) IN
                   IF e.res = Enc(Encrypted(e.mode, e.key, iv, e.text), e.b64) /\ (e.mode = "ecb" \/ iv \notin st)
                   THEN {IF e.mode = "ecb" THEN st ELSE st \cup {iv}} ELSE {}
         \* a text too long to be recorded: the cipher text is what the standard library's is, comes back as the text; no argument changed
         [] e.op = "long" -> IF e.res = <<1, 1, 1>> THEN {st} ELSE {}
         \* res = <<whether there was an error, the text>>
         [] e.op = "dec" ->
              LET d == Dec(e.text, e.b64)
                  r == IF d = <<>> THEN <<>> ELSE Decrypted(e.mode, e.key, d[1])
              IN IF r = <<>> THEN IF e.res[1] = 1 THEN {st} ELSE {}
                 ELSE IF e.res[1] = 0 /\ e.res[2] = r[1] THEN {st} ELSE {}
=============================================================================
