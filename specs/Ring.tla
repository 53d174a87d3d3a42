-------------------------------- MODULE Ring --------------------------------
(* Rings are disjoint cycles of elements, numbered in the order of creation; 0 is
   nil.  nx[x] is the element after x.  Every event carries what the operation
   returned and the neighbours of all elements afterwards.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RingInit(cfg) == {[nx |-> <<>>]}

\* the cycle from x: <<x, the next, ..., the one before x>>
RECURSIVE Walk(_, _, _)
Walk(nx, x, y) == IF nx[y] = x THEN <<y>> ELSE <<y>> \o Walk(nx, x, nx[y])
Cycle(nx, x) == Walk(nx, x, x)

\* nx with the elements of the sequence s in a cycle
Close(nx, s) == [x \in DOMAIN nx |-> IF \E i \in 1..Len(s) : s[i] = x
                                     THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = x IN s[(i % Len(s)) + 1]
                                     ELSE nx[x]]
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Prev(nx, x) == CHOOSE y \in DOMAIN nx : nx[y] = x

LinkTo(nx, r, s) ==
  LET c == Cycle(nx, r)
      n == Len(c)
      ret == nx[r]
  IN IF s = 0 THEN [r |-> ret, nx |-> nx]
     ELSE IF \E i \in 1..n : c[i] = s
     THEN LET j == IF s = r THEN n + 1 ELSE Pos(c, s)     \* the elements 2..j-1 are cut out
          IN [r |-> ret, nx |-> IF j = 2 THEN nx
                                ELSE Close(Close(nx, SubSeq(c, 2, j - 1)), <<r>> \o SubSeq(c, j, n))]
     ELSE [r |-> ret, nx |-> Close(nx, <<r>> \o Cycle(nx, s) \o SubSeq(c, 2, n))]

Mod(a, n) == ((a % n) + n) % n

Do(nx, e) ==
  CASE e.op = "new" -> LET k == Len(nx) IN
         [r |-> {IF e.n > 0 THEN k + 1 ELSE 0},
          nx |-> IF e.n > 0 THEN nx \o [i \in 1..e.n |-> k + (i % e.n) + 1] ELSE nx]
    [] e.op = "next" -> [r |-> {nx[e.e]}, nx |-> nx]
    [] e.op = "prev" -> [r |-> {Prev(nx, e.e)}, nx |-> nx]
    [] e.op = "move" -> LET c == Cycle(nx, e.e) IN [r |-> {c[Mod(e.n, Len(c)) + 1]}, nx |-> nx]
    [] e.op = "len" -> [r |-> {IF e.e = 0 THEN 0 ELSE Len(Cycle(nx, e.e))}, nx |-> nx]
    [] e.op = "do" -> [r |-> {IF e.e = 0 THEN <<>> ELSE Cycle(nx, e.e)}, nx |-> nx]
    [] e.op = "link" -> LET y == LinkTo(nx, e.e, e.s) IN [r |-> {y.r}, nx |-> y.nx]
    [] e.op = "unlink" ->
         LET c == Cycle(nx, e.e)
             k == IF e.n <= 0 THEN 0 ELSE e.n % Len(c)
         IN IF e.n <= 0 THEN [r |-> {0}, nx |-> nx]
            \* nothing removed: the result is not specified, nil or the next element
            ELSE IF k = 0 THEN [r |-> {0, nx[e.e]}, nx |-> nx]
            ELSE [r |-> {c[2]}, nx |-> Close(Close(nx, SubSeq(c, 2, k + 1)), <<e.e>> \o SubSeq(c, k + 2, Len(c)))]

RingPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE LET y == Do(st.nx, e) IN
       IF /\ e.res \in y.r
          /\ e.nx = y.nx
          /\ \A x \in DOMAIN y.nx : e.pv[y.nx[x]] = x
       THEN {[nx |-> y.nx]} ELSE {}
=============================================================================
