------------------------------ MODULE SkipAlgo ------------------------------
(* The algorithm of the skip list: the first and last entry of each level, the
   pointers between entries, the highest level in use; insertion and deletion
   as the code does them, for every draw of a level.

   Invariants: the structure is what it should be, and from every structure
   that can be reached every lookup, walk and neighbour is what SkipMap.tla
   says (values are the keys here).

   With Script = TRUE the calls and draws that lead to each structure are
   printed, for the driver to repeat them.                                  *)
EXTENDS SkipMap, Json
CONSTANTS K,     \* the keys are 1..K
          L,     \* the levels are 0..L-1
          Script

Keys == 1..K
Levels == 0..L-1
Nothing == [i \in Levels |-> 0]
VARIABLES s,     \* start, end: of each level; next, prev, lev: of each entry; mx: highest level in use; cnt
          m,     \* the map
          hist
View == <<s, m>>

Init ==
  /\ s = [start |-> Nothing, end |-> Nothing, next |-> [k \in Keys |-> Nothing], prev |-> [k \in Keys |-> 0],
          lev |-> [k \in Keys |-> -1], mx |-> 0, cnt |-> 0]
  /\ m \in SkipInit([x |-> 0])
  /\ hist = <<>>

-----------------------------------------------------------------------------
\* where a search starts: the highest level whose first entry is not beyond k, or at most level
RECURSIVE Entry0(_, _, _, _)
Entry0(x, k, level, i) ==
  IF i < 0 THEN 0
  ELSE IF (x.start[i] # 0 /\ x.start[i] <= k) \/ i <= level THEN i
  ELSE Entry0(x, k, level, i - 1)
Entry(x, k, level) == Entry0(x, k, level, x.mx)

\* the entry of k, or the least above it (ge); 0: none
RECURSIVE Search(_, _, _, _, _)
Search(x, k, ge, cur, i) ==
  IF cur = k THEN cur
  ELSE LET nx == x.next[cur][i]
       IN IF nx # 0 /\ nx <= k THEN Search(x, k, ge, nx, i)
          ELSE IF i > 0 THEN IF x.next[cur][0] = k THEN k ELSE Search(x, k, ge, cur, i - 1)
          ELSE IF ge THEN nx ELSE 0
Find(x, k, ge) ==
  IF x.start[0] = 0 THEN 0
  ELSE LET i == Entry(x, k, 0)
           cur == x.start[i]
       IN IF ge /\ cur > k THEN cur ELSE Search(x, k, ge, cur, i)

RECURSIVE Del(_, _, _, _)
Del(x, k, cur, i) ==
  IF i < 0 THEN x
  ELSE LET nx == IF cur = 0 THEN x.start[i] ELSE x.next[cur][i]
           after == x.next[nx][i]
           a == IF cur # 0 THEN [x EXCEPT !.next[cur][i] = after] ELSE x
           b == IF i # 0 THEN a ELSE [(IF after # 0 THEN [a EXCEPT !.prev[after] = cur] ELSE a) EXCEPT !.cnt = @ - 1]
           c == IF b.start[i] # nx THEN b
                ELSE [b EXCEPT !.start[i] = after, !.mx = IF after = 0 THEN i - 1 ELSE @]
           d == IF after = 0 THEN [c EXCEPT !.end[i] = cur] ELSE c
           y == IF nx = k THEN [d EXCEPT !.next[nx][i] = 0] ELSE x
       IN IF nx # 0 /\ nx < k THEN Del(y, k, nx, i) ELSE Del(y, k, cur, i - 1)
Deleted(x, k) ==
  IF x.start[0] = 0 THEN x
  ELSE LET y == Del(x, k, 0, Entry(x, k, 0))
       IN [y EXCEPT !.prev[k] = 0, !.lev[k] = -1]

\* between others
RECURSIVE Between(_, _, _, _, _)
Between(x, k, level, cur, i) ==
  IF i < 0 THEN x
  ELSE LET nx == IF cur = 0 THEN x.start[i] ELSE x.next[cur][i]
           a == [x EXCEPT !.next[k][i] = nx]
           b == IF cur # 0 THEN [a EXCEPT !.next[cur][i] = k] ELSE a
           c == [b EXCEPT !.prev[k] = cur]
           d == IF nx # 0 THEN [c EXCEPT !.prev[nx] = k] ELSE c
           y == IF i <= level /\ (nx = 0 \/ nx > k) THEN (IF i = 0 THEN d ELSE b) ELSE x
       IN IF nx # 0 /\ nx <= k THEN Between(y, k, level, nx, i) ELSE Between(y, k, level, cur, i - 1)

RECURSIVE Ends(_, _, _, _, _)
Ends(x, k, first, last, i) ==
  IF i < 0 THEN x
  ELSE LET st == x.start[i]
           a == IF st = 0 \/ st > k
                THEN [(IF i = 0 /\ st # 0 THEN [x EXCEPT !.prev[st] = k] ELSE x) EXCEPT !.next[k][i] = st, !.start[i] = k]
                ELSE x
           b == IF a.next[k][i] = 0 THEN [a EXCEPT !.end[i] = k] ELSE a
           y == IF first \/ ~last THEN b ELSE x
           en == y.end[i]
           c == IF en # 0 THEN [y EXCEPT !.next[en][i] = k] ELSE y
           d == IF i = 0 THEN [c EXCEPT !.prev[k] = en] ELSE c
           f == IF first THEN y ELSE [d EXCEPT !.end[i] = k]
           g == IF f.start[i] = 0 \/ f.start[i] > k THEN [f EXCEPT !.start[i] = k] ELSE f
       IN Ends(IF last THEN g ELSE y, k, first, last, i - 1)

Inserted(x, k, draw) ==
  IF Find(x, k, FALSE) # 0 THEN x
  ELSE LET level == IF draw > x.mx THEN x.mx + 1 ELSE draw
           a == [x EXCEPT !.mx = IF level > @ THEN level ELSE @, !.lev[k] = level, !.cnt = @ + 1]
           first == x.start[0] = 0 \/ k < x.start[0]
           last == x.start[0] = 0 \/ k > x.end[0]
           b == IF first \/ last THEN a ELSE Between(a, k, level, 0, Entry(a, k, level))
       IN Ends(b, k, first, last, level)

-----------------------------------------------------------------------------
Insert == \E k \in Keys, d \in Levels :
  /\ s' = Inserted(s, k, d)
  /\ m' \in SkipPost(m, [op |-> "insert", k |-> k, v |-> k, p |-> 0, res |-> 0])
  /\ hist' = IF Script THEN Append(hist, <<1, k, d>>) ELSE hist
Delete == \E k \in Keys :
  /\ s' = Deleted(s, k)
  /\ m' \in SkipPost(m, [op |-> "delete", k |-> k, v |-> 0, p |-> 0, res |-> 0])
  /\ hist' = IF Script THEN Append(hist, <<0, k, 0>>) ELSE hist
Next == Insert \/ Delete
Emit == Script => PrintT(<<"SCRIPT", ToJson(hist)>>)

-----------------------------------------------------------------------------
OnLevel(i) == Asc({k \in DOMAIN m : s.lev[k] >= i})
Structure ==
  /\ \A k \in Keys : (s.lev[k] >= 0) = (k \in DOMAIN m)
  /\ \A i \in Levels :
       LET l == OnLevel(i)
           n == Len(l)
       IN /\ s.start[i] = (IF n = 0 THEN 0 ELSE l[1])
          /\ s.end[i] = (IF n = 0 THEN 0 ELSE l[n])
          /\ \A j \in 1..n : s.next[l[j]][i] = (IF j = n THEN 0 ELSE l[j + 1])
          /\ i = 0 => \A j \in 1..n : s.prev[l[j]] = (IF j = 1 THEN 0 ELSE l[j - 1])
          /\ n > 0 => i <= s.mx
          /\ i = s.mx /\ i > 0 => n > 0
  /\ s.cnt = Cardinality(DOMAIN m)

Says(op, k, res) == SkipPost(m, [op |-> op, k |-> k, v |-> 0, p |-> 0, res |-> res]) = {m}
Pair(k) == IF k = 0 THEN <<0, 0>> ELSE <<k, 1>>
RECURSIVE Forwards(_), Backwards(_)
Forwards(k) == IF k = 0 THEN <<>> ELSE <<k>> \o Forwards(s.next[k][0])
Backwards(k) == IF k = 0 THEN <<>> ELSE <<k>> \o Backwards(s.prev[k])
Lookups ==
  /\ \A k \in Keys : Says("find", k, Pair(Find(s, k, FALSE))) /\ Says("fge", k, Pair(Find(s, k, TRUE)))
  /\ Says("count", 0, s.cnt) /\ Says("empty", 0, B(s.start[0] = 0))
  /\ Says("small", 0, Pair(s.start[0])) /\ Says("large", 0, Pair(s.end[0]))
  /\ Says("walk", 0, <<Forwards(s.start[0]), Backwards(s.end[0])>>)
=============================================================================
