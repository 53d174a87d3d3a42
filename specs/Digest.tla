------------------------------- MODULE Digest -------------------------------
(* The digests MD5 (RFC 1321), SHA-1, SHA-256, SHA-512 (FIPS 180-4) and FNV-1a.
   A word is a sequence of digits in base 2^16, the most significant one first.  *)
EXTENDS Integers, Sequences, Bitwise, TLC

Base == 65536
\* sums of words modulo their size; c is the carry
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i = 0 THEN <<>>
  ELSE LET s == (a[i] + b[i]) + c IN Append(AddFrom(a, b, i - 1, s \div Base), s % Base)
Add(a, b) == AddFrom(a, b, Len(a), 0)
WXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
WAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
WNot(a) == TLCEval([i \in 1..Len(a) |-> 65535 - a[i]])
\* rotation and shift to the right by n
RotR(a, n) ==
  LET k == Len(a)
      q == n \div 16
      d == 2 ^ (n % 16)
      at(i) == a[(((i - 1) + k) % k) + 1]
  IN TLCEval([i \in 1..k |-> (at((i - q) + k) \div d) + ((at(((i - q) - 1) + k) % d) * (Base \div d))])
RotL(a, n) == RotR(a, (16 * Len(a)) - n)
ShR(a, n) ==
  LET q == n \div 16
      d == 2 ^ (n % 16)
      at(i) == IF i < 1 THEN 0 ELSE a[i]
  IN TLCEval([i \in 1..Len(a) |-> (at(i - q) \div d) + ((at((i - q) - 1) % d) * (Base \div d))])

\* the message with its padding: to blocks of n bytes, the length in bits in the last bytes
LenBytes(len, n, big) ==  \* messages are shorter than 2^27 bytes
  LET v == 8 * len
      byte(i) == IF i > 3 THEN 0 ELSE (v \div (256 ^ i)) % 256
  IN [i \in 1..n |-> IF big THEN byte(n - i) ELSE byte(i - 1)]
Padded(m, block, n, big) ==
  LET zeros == (block - (((Len(m) + n) + 1) % block)) % block
  IN m \o <<128>> \o [i \in 1..zeros |-> 0] \o LenBytes(Len(m), n, big)
\* the j-th word (from 1) of k digits of a block starting after offset o
BigWord(s, o, j, k) == TLCEval([i \in 1..k |-> (256 * s[o + (2 * k * (j - 1)) + ((2 * i) - 1)]) + s[o + (2 * k * (j - 1)) + (2 * i)]])
LittleWord(s, o, j) == TLCEval(<<(256 * s[o + (4 * j)]) + s[o + ((4 * j) - 1)], (256 * s[o + ((4 * j) - 2)]) + s[o + ((4 * j) - 3)]>>)
RECURSIVE OverBlocks(_, _, _, _, _)
OverBlocks(F(_, _, _), h, s, o, block) == IF o >= Len(s) THEN h ELSE OverBlocks(F, F(h, s, o), s, o + block, block)
AddAll(h, v) == TLCEval([i \in 1..Len(h) |-> Add(h[i], v[i])])

------------------------------------------------------------------------------
\* SHA-256 and SHA-512: words of k digits
K256 == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
  <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
  <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
  <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
  <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
  <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
K512 == <<
  <<17034, 12184, 55080, 44578>>, <<28983, 17553, 9199, 26061>>, <<46528, 64463, 60493, 15151>>, <<59829, 56229, 33161, 56252>>,
  <<14678, 49755, 62280, 46392>>, <<23025, 4593, 46597, 53273>>, <<37439, 33444, 44825, 20379>>, <<43804, 24277, 55917, 33048>>,
  <<55303, 43672, 41731, 578>>, <<4739, 23297, 17776, 28606>>, <<9265, 34238, 20196, 45708>>, <<21772, 32195, 54783, 46306>>,
  <<29374, 23924, 62075, 35183>>, <<32990, 45566, 15126, 38577>>, <<39900, 1703, 9671, 4661>>, <<49563, 61812, 53097, 9876>>,
  <<58523, 27073, 40689, 19154>>, <<61374, 18310, 14415, 9699>>, <<4033, 40390, 35724, 54709>>, <<9228, 41420, 30636, 40037>>,
  <<11753, 11375, 22827, 629>>, <<19060, 33962, 28326, 58499>>, <<23728, 43484, 48449, 64468>>, <<30457, 35034, 33553, 21429>>,
  <<38974, 20818, 61030, 57259>>, <<43057, 50797, 11700, 12816>>, <<45059, 10184, 39163, 8511>>, <<48985, 32711, 48879, 3812>>,
  <<50912, 3059, 15784, 36802>>, <<54695, 37191, 37642, 42789>>, <<1738, 25425, 57347, 33391>>, <<5161, 10599, 2574, 28272>>,
  <<10167, 2693, 18130, 12284>>, <<11803, 8504, 23590, 51494>>, <<19756, 28156, 23236, 10989>>, <<21304, 3347, 40341, 46047>>,
  <<25866, 29524, 35759, 25566>>, <<30314, 2747, 15479, 45736>>, <<33218, 51502, 18413, 44774>>, <<37490, 11397, 5250, 13627>>,
  <<41663, 59553, 19697, 868>>, <<43034, 26187, 48194, 12289>>, <<49739, 35696, 53496, 38801>>, <<51052, 20899, 1620, 48688>>,
  <<53650, 59417, 55023, 21016>>, <<54937, 1572, 21861, 43280>>, <<62478, 13701, 22385, 8234>>, <<4202, 41072, 12987, 53688>>,
  <<6564, 49430, 47314, 53448>>, <<7735, 27656, 20801, 43859>>, <<10056, 30540, 57230, 60313>>, <<13488, 48309, 57755, 18600>>,
  <<14620, 3251, 50633, 23139>>, <<20184, 43594, 58177, 35531>>, <<23452, 51791, 30563, 58227>>, <<26670, 28659, 54962, 47267>>,
  <<29839, 33518, 24047, 45820>>, <<30885, 25455, 17175, 12128>>, <<33992, 30740, 41456, 43890>>, <<36039, 520, 6756, 14828>>,
  <<37054, 65530, 9059, 7720>>, <<42064, 27883, 56962, 48617>>, <<48889, 41975, 45766, 30997>>, <<50801, 30962, 58226, 21291>>,
  <<51751, 16078, 59942, 24988>>, <<53638, 47303, 8640, 49671>>, <<60122, 32214, 52704, 60190>>, <<62845, 20351, 61038, 53624>>,
  <<1776, 26538, 29207, 28602>>, <<2659, 32197, 41672, 39078>>, <<4415, 38916, 48889, 3502>>, <<7025, 2869, 4892, 18203>>,
  <<10459, 30709, 8964, 32132>>, <<13002, 43899, 16583, 9363>>, <<15518, 48650, 5577, 48828>>, <<17181, 26564, 39952, 3404>>,
  <<19653, 54462, 52030, 17078>>, <<22911, 10652, 64613, 32298>>, <<24523, 28587, 15062, 64236>>, <<27716, 6540, 19015, 22551>>>>
H256 == <<
  <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>
H512 == <<
  <<27145, 58983, 62396, 51464>>, <<47975, 44677, 33994, 42811>>, <<15470, 62322, 65172, 63531>>, <<42319, 62778, 24349, 14065>>,
  <<20750, 21119, 44518, 33489>>, <<39685, 26764, 11070, 27679>>, <<8067, 55723, 64321, 48491>>, <<23520, 52505, 4990, 8569>>>>

Sig(a, r) == WXor(WXor(RotR(a, r[1]), RotR(a, r[2])), RotR(a, r[3]))
Sch(a, r) == WXor(WXor(RotR(a, r[1]), RotR(a, r[2])), ShR(a, r[3]))
\* rotations: Sigma0, Sigma1, sigma0, sigma1
R256 == <<<<2, 13, 22>>, <<6, 11, 25>>, <<7, 18, 3>>, <<17, 19, 10>>>>
R512 == <<<<28, 34, 39>>, <<14, 18, 41>>, <<1, 8, 7>>, <<19, 61, 6>>>>
RECURSIVE Sha2Words(_, _, _)
Sha2Words(w, n, R) ==
  IF Len(w) = n THEN w
  ELSE LET t == Len(w) + 1 IN
       Sha2Words(Append(w, Add(Add(Sch(w[t - 2], R[4]), w[t - 7]), Add(Sch(w[t - 15], R[3]), w[t - 16]))), n, R)
RECURSIVE Sha2Rounds(_, _, _, _, _)
Sha2Rounds(v, w, K, R, t) ==
  IF t > Len(K) THEN v
  ELSE LET ch == WXor(WAnd(v[5], v[6]), WAnd(WNot(v[5]), v[7]))
           maj == WXor(WXor(WAnd(v[1], v[2]), WAnd(v[1], v[3])), WAnd(v[2], v[3]))
           t1 == TLCEval(Add(Add(Add(v[8], Sig(v[5], R[2])), Add(ch, K[t])), w[t]))
           t2 == Add(Sig(v[1], R[1]), maj)
       IN Sha2Rounds(TLCEval(<<Add(t1, t2), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7]>>), w, K, R, t + 1)
Sha2Block(h, s, o, k, K, R) ==
  LET w == TLCEval(Sha2Words([j \in 1..16 |-> BigWord(s, o, j, k)], Len(K), R)) IN AddAll(h, Sha2Rounds(h, w, K, R, 1))
Sha256(m) == LET F(h, s, o) == Sha2Block(h, s, o, 2, K256, R256) IN OverBlocks(F, H256, TLCEval(Padded(m, 64, 8, TRUE)), 0, 64)
Sha512(m) == LET F(h, s, o) == Sha2Block(h, s, o, 4, K512, R512) IN OverBlocks(F, H512, TLCEval(Padded(m, 128, 16, TRUE)), 0, 128)

------------------------------------------------------------------------------
\* SHA-1
H1 == <<
  <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
K1 == <<
  <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>

RECURSIVE Sha1Words(_)
Sha1Words(w) == IF Len(w) = 80 THEN w
                ELSE LET t == Len(w) + 1 IN Sha1Words(Append(w, RotL(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)))
RECURSIVE Sha1Rounds(_, _, _)
Sha1Rounds(v, w, t) ==
  IF t > 80 THEN v
  ELSE LET q == ((t - 1) \div 20) + 1
           f == CASE q = 1 -> WXor(WAnd(v[2], v[3]), WAnd(WNot(v[2]), v[4]))
                  [] q = 3 -> WXor(WXor(WAnd(v[2], v[3]), WAnd(v[2], v[4])), WAnd(v[3], v[4]))
                  [] OTHER -> WXor(WXor(v[2], v[3]), v[4])
       IN Sha1Rounds(TLCEval(<<Add(Add(Add(RotL(v[1], 5), f), Add(v[5], K1[q])), w[t]), v[1], RotL(v[2], 30), v[3], v[4]>>), w, t + 1)
Sha1Block(h, s, o) == LET w == TLCEval(Sha1Words([j \in 1..16 |-> BigWord(s, o, j, 2)])) IN AddAll(h, Sha1Rounds(h, w, 1))
Sha1(m) == OverBlocks(Sha1Block, H1, TLCEval(Padded(m, 64, 8, TRUE)), 0, 64)

------------------------------------------------------------------------------
\* MD5
KMd5 == <<
  <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
  <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
  <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
  <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
  <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
  <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
  <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
  <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>

ShiftsMd5 == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
RECURSIVE Md5Rounds(_, _, _)
Md5Rounds(v, w, i) ==
  IF i = 64 THEN v
  ELSE LET q == (i \div 16) + 1
           b == v[2]  c == v[3]  d == v[4]
           f == CASE q = 1 -> WXor(WAnd(b, c), WAnd(WNot(b), d))
                  [] q = 2 -> WXor(WAnd(d, b), WAnd(WNot(d), c))
                  [] q = 3 -> WXor(WXor(b, c), d)
                  [] q = 4 -> WXor(c, WNot(WAnd(WNot(b), d)))
           g == CASE q = 1 -> i [] q = 2 -> ((5 * i) + 1) % 16 [] q = 3 -> ((3 * i) + 5) % 16 [] q = 4 -> (7 * i) % 16
           x == Add(Add(f, v[1]), Add(KMd5[i + 1], w[g + 1]))
       IN Md5Rounds(TLCEval(<<d, Add(b, RotL(x, ShiftsMd5[q][(i % 4) + 1])), b, c>>), w, i + 1)
HMd5 == <<H1[1], H1[2], H1[3], H1[4]>>
Md5Block(h, s, o) == LET w == TLCEval([j \in 1..16 |-> LittleWord(s, o, j)]) IN AddAll(h, Md5Rounds(h, w, 0))
Md5(m) == OverBlocks(Md5Block, HMd5, TLCEval(Padded(m, 64, 8, FALSE)), 0, 64)

------------------------------------------------------------------------------
\* FNV-1a: the primes are 2^24 + 403 and 2^40 + 435
RECURSIVE TimesFrom(_, _, _, _)
TimesFrom(a, x, i, c) == IF i = 0 THEN <<>> ELSE LET s == (a[i] * x) + c IN Append(TimesFrom(a, x, i - 1, s \div Base), s % Base)
ShL8(a) == LET at(i) == IF i > Len(a) THEN 0 ELSE a[i] IN [i \in 1..Len(a) |-> ((at(i) % 256) * 256) + (at(i + 1) \div 256)]
\* a * 2^(8 + 16 j)
Up(a, j) == [i \in 1..Len(a) |-> IF i + j > Len(a) THEN 0 ELSE ShL8(a)[i + j]]
RECURSIVE Fnv(_, _, _, _)
Fnv(h, m, i, x) ==
  IF i > Len(m) THEN h
  ELSE LET a == TLCEval([h EXCEPT ![Len(h)] = @ ^^ m[i]])
       IN Fnv(TLCEval(Add(TimesFrom(a, x, Len(a), 0), Up(a, Len(a) \div 2))), m, i + 1, x)
Fnv32(m) == Fnv(<<33052, 40389>>, m, 1, 403)
Fnv64(m) == Fnv(<<52210, 40164, 33826, 8997>>, m, 1, 435)

------------------------------------------------------------------------------
\* texts in hexadecimal, as bytes
Hex(x) == IF x < 10 THEN 48 + x ELSE 87 + x
BytesOf(h, big) == LET k == Len(h[1]) IN
  TLCEval([i \in 1..(2 * k * Len(h)) |->
    LET v == h[((i - 1) \div (2 * k)) + 1]
        j == (i - 1) % (2 * k)
        b == IF big THEN j ELSE ((2 * k) - 1) - j
    IN IF b % 2 = 0 THEN v[(b \div 2) + 1] \div 256 ELSE v[(b \div 2) + 1] % 256])
HexText(bs) == [i \in 1..2 * Len(bs) |-> Hex(IF i % 2 = 1 THEN bs[(i + 1) \div 2] \div 16 ELSE bs[i \div 2] % 16)]

DigestInit(cfg) == {0}
Expected(op, m) ==
  CASE op = "md5" -> HexText(BytesOf(Md5(m), FALSE))
    [] op = "sha1" -> HexText(BytesOf(Sha1(m), TRUE))
    [] op = "sha256" -> HexText(BytesOf(Sha256(m), TRUE))
    [] op = "sha512" -> HexText(BytesOf(Sha512(m), TRUE))
    [] op = "fnv32" -> Fnv32(m)
    [] op = "fnv64" -> Fnv64(m)
\* long: a text too long to be recorded, whether the digest is what the standard library's is
DigestPost(st, e) == IF e.p = 0 /\ e.mod = 0 /\ e.res = (IF e.op = "long" THEN 1 ELSE Expected(e.op, e.m)) THEN {0} ELSE {}
=============================================================================
