-------------------------------- MODULE Aes --------------------------------
(* The block cipher AES (FIPS 197).  Bytes are numbers, a block is a sequence of
   16 bytes, and so is the state, column by column.  Tables are indexed from 1.  *)
EXTENDS Integers, Sequences, Bitwise, TLC

BXor(a, b) == a ^^ b
\* TLC evaluates functions only when they are applied, and then each time, unless told otherwise
XorSeq(a, b) == TLCEval([i \in 1..Len(a) |-> BXor(a[i], b[i])])

SBox == <<
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240,
  173, 212, 162, 175, 156, 164, 114, 192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
  4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117, 9, 131, 44, 26, 27, 110, 90, 160,
  82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
  208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245,
  188, 182, 218, 33, 16, 255, 243, 210, 205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
  96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10, 73, 6, 36, 92,
  194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
  186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14,
  97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
  140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
InvSBox == <<
  82, 9, 106, 213, 48, 54, 165, 56, 191, 64, 163, 158, 129, 243, 215, 251, 124, 227, 57, 130, 155, 47, 255, 135,
  52, 142, 67, 68, 196, 222, 233, 203, 84, 123, 148, 50, 166, 194, 35, 61, 238, 76, 149, 11, 66, 250, 195, 78,
  8, 46, 161, 102, 40, 217, 36, 178, 118, 91, 162, 73, 109, 139, 209, 37, 114, 248, 246, 100, 134, 104, 152, 22,
  212, 164, 92, 204, 93, 101, 182, 146, 108, 112, 72, 80, 253, 237, 185, 218, 94, 21, 70, 87, 167, 141, 157, 132,
  144, 216, 171, 0, 140, 188, 211, 10, 247, 228, 88, 5, 184, 179, 69, 6, 208, 44, 30, 143, 202, 63, 15, 2,
  193, 175, 189, 3, 1, 19, 138, 107, 58, 145, 17, 65, 79, 103, 220, 234, 151, 242, 207, 206, 240, 180, 230, 115,
  150, 172, 116, 34, 231, 173, 53, 133, 226, 249, 55, 232, 28, 117, 223, 110, 71, 241, 26, 113, 29, 41, 197, 137,
  111, 183, 98, 14, 170, 24, 190, 27, 252, 86, 62, 75, 198, 210, 121, 32, 154, 219, 192, 254, 120, 205, 90, 244,
  31, 221, 168, 51, 136, 7, 199, 49, 177, 18, 16, 89, 39, 128, 236, 95, 96, 81, 127, 169, 25, 181, 74, 13,
  45, 229, 122, 159, 147, 201, 156, 239, 160, 224, 59, 77, 174, 42, 245, 176, 200, 235, 187, 60, 131, 83, 153, 97,
  23, 43, 4, 126, 186, 119, 214, 38, 225, 105, 20, 99, 85, 33, 12, 125>>

XTime(a) == IF a < 128 THEN 2 * a ELSE BXor((2 * a) % 256, 27)
Mul2 == TLCEval([i \in 1..256 |-> XTime(i - 1)])
Mul3 == TLCEval([i \in 1..256 |-> BXor(Mul2[i], i - 1)])
Mul4 == TLCEval([i \in 1..256 |-> XTime(Mul2[i])])
Mul8 == TLCEval([i \in 1..256 |-> XTime(Mul4[i])])
Mul9 == TLCEval([i \in 1..256 |-> BXor(Mul8[i], i - 1)])
Mul11 == TLCEval([i \in 1..256 |-> BXor(Mul9[i], Mul2[i])])
Mul13 == TLCEval([i \in 1..256 |-> BXor(Mul9[i], Mul4[i])])
Mul14 == TLCEval([i \in 1..256 |-> BXor(Mul8[i], BXor(Mul4[i], Mul2[i]))])
RCon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>

\* where each byte comes from in ShiftRows and its inverse
Shift == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
InvShift == <<1, 14, 11, 8, 5, 2, 15, 12, 9, 6, 3, 16, 13, 10, 7, 4>>

SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[Shift[i]] + 1]])
InvSubShift(s) == TLCEval([i \in 1..16 |-> InvSBox[s[InvShift[i]] + 1]])
\* the i-th byte's column in the order starting with itself
Col(i, k) == (((i - 1) \div 4) * 4) + ((((i - 1) % 4) + k) % 4) + 1
MixColumns(s) == TLCEval([i \in 1..16 |-> BXor(BXor(Mul2[s[i] + 1], Mul3[s[Col(i, 1)] + 1]), BXor(s[Col(i, 2)], s[Col(i, 3)]))])
InvMixColumns(s) == TLCEval([i \in 1..16 |-> BXor(BXor(Mul14[s[i] + 1], Mul11[s[Col(i, 1)] + 1]), BXor(Mul13[s[Col(i, 2)] + 1], Mul9[s[Col(i, 3)] + 1]))])

\* the key schedule, a sequence of words of four bytes
Rounds(key) == (Len(key) \div 4) + 6
RECURSIVE Expand(_, _, _)
Expand(w, nk, n) ==
  IF Len(w) = n THEN w
  ELSE LET i == Len(w)
           t == w[i]
           g == IF i % nk = 0 THEN <<BXor(SBox[t[2] + 1], RCon[i \div nk]), SBox[t[3] + 1], SBox[t[4] + 1], SBox[t[1] + 1]>>
                ELSE IF nk > 6 /\ i % nk = 4 THEN TLCEval([j \in 1..4 |-> SBox[t[j] + 1]])
                ELSE t
       IN Expand(Append(w, XorSeq(w[(i - nk) + 1], g)), nk, n)
\* the round keys, of 16 bytes each
Schedule(key) ==
  LET nk == Len(key) \div 4
      w == TLCEval(Expand([i \in 1..nk |-> SubSeq(key, (4 * i) - 3, 4 * i)], nk, 4 * (Rounds(key) + 1)))
  IN TLCEval([r \in 1..Rounds(key) + 1 |-> w[(4 * r) - 3] \o w[(4 * r) - 2] \o w[(4 * r) - 1] \o w[4 * r]])

RECURSIVE EncRounds(_, _, _)
EncRounds(ks, s, r) ==
  IF r = Len(ks) THEN XorSeq(SubShift(s), ks[r])
  ELSE EncRounds(ks, XorSeq(MixColumns(SubShift(s)), ks[r]), r + 1)
\* ks is the Schedule of the key
EncBlock(ks, b) == EncRounds(ks, XorSeq(b, ks[1]), 2)

RECURSIVE DecRounds(_, _, _)
DecRounds(ks, s, r) ==
  IF r = 1 THEN XorSeq(InvSubShift(s), ks[1])
  ELSE DecRounds(ks, InvMixColumns(XorSeq(InvSubShift(s), ks[r])), r - 1)
DecBlock(ks, b) == DecRounds(ks, XorSeq(b, ks[Len(ks)]), Len(ks) - 1)

\* the examples of FIPS 197, appendix C
Plain == <<0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255>>
Key(n) == [i \in 1..n |-> i - 1]
Examples == <<
  <<Key(16), <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>>>,
  <<Key(24), <<221, 169, 124, 164, 134, 76, 223, 224, 110, 175, 112, 160, 236, 13, 113, 145>>>>,
  <<Key(32), <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>>>>>
ExamplesOK == \A i \in 1..3 : LET ks == Schedule(Examples[i][1]) IN
  EncBlock(ks, Plain) = Examples[i][2] /\ DecBlock(ks, Examples[i][2]) = Plain
=============================================================================
