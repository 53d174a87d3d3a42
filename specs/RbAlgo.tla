------------------------------- MODULE RbAlgo -------------------------------
(* The algorithm of the red-black tree: nodes with left, right, parent and
   colour, the sentinel (0) whose parent a deletion sets and uses; insertion,
   deletion, rotations and the two repairs as the code does them, branch by
   branch.

   Invariants: in every tree that can be reached the parents agree with the
   children, the shape is what RbTree.tla says, and every lookup finds what the
   map has.

   With Script = TRUE the calls that lead to each tree are printed, for the
   driver to repeat them.                                                    *)
EXTENDS RbTree, Json
CONSTANTS K,       \* the keys are 1..K
          Script

Keys == 1..K
VARIABLES s,       \* l, r, p, c: of each node; root
          m,       \* the map, as RbTree has it
          hist
View == IF Script THEN <<[s EXCEPT !.p[0] = 0], m>> ELSE <<s, m>>

Blank == [i \in 0..K |-> 0]
Init ==
  /\ s = [l |-> Blank, r |-> Blank, p |-> Blank, c |-> [i \in 0..K |-> 1], root |-> 0]
  /\ m \in RbInit([c |-> 0])
  /\ hist = <<>>

-----------------------------------------------------------------------------
\* in place of u, v
Replace(t, u, v) ==
  IF t.p[u] = 0 THEN [t EXCEPT !.root = v]
  ELSE IF u = t.l[t.p[u]] THEN [t EXCEPT !.l[t.p[u]] = v]
  ELSE [t EXCEPT !.r[t.p[u]] = v]

LeftRotate(t, x) ==
  LET y == t.r[x]
      z == t.l[y]
      a == [t EXCEPT !.r[x] = z]
      b == IF z # 0 THEN [a EXCEPT !.p[z] = x] ELSE a
      d == [b EXCEPT !.p[y] = b.p[x]]
      e == Replace(d, x, y)
  IN [e EXCEPT !.l[y] = x, !.p[x] = y]

RightRotate(t, x) ==
  LET y == t.l[x]
      z == t.r[y]
      a == [t EXCEPT !.l[x] = z]
      b == IF z # 0 THEN [a EXCEPT !.p[z] = x] ELSE a
      d == [b EXCEPT !.p[y] = b.p[x]]
      e == Replace(d, x, y)
  IN [e EXCEPT !.r[y] = x, !.p[x] = y]

RECURSIVE InsertFix(_, _)
InsertFix(t, z) ==
  LET p == t.p[z]
      g == t.p[p]
  IN IF t.c[p] = 1 THEN [t EXCEPT !.c[t.root] = 1]
     ELSE LET left == p = t.l[g]
              y == IF left THEN t.r[g] ELSE t.l[g]
          IN IF t.c[y] = 0
             THEN InsertFix([t EXCEPT !.c[p] = 1, !.c[y] = 1, !.c[g] = 0], g)
             ELSE LET inner == z = (IF left THEN t.r[p] ELSE t.l[p])
                      w == IF inner THEN p ELSE z
                      a == IF ~inner THEN t ELSE IF left THEN LeftRotate(t, p) ELSE RightRotate(t, p)
                      q == a.p[w]
                      h == a.p[q]
                      b == [a EXCEPT !.c[q] = 1, !.c[h] = 0]
                  IN InsertFix(IF left THEN RightRotate(b, h) ELSE LeftRotate(b, h), w)

RECURSIVE Place(_, _, _, _)
Place(t, k, y, x) == IF x = 0 THEN y ELSE Place(t, k, x, IF k < x THEN t.l[x] ELSE t.r[x])

RECURSIVE Find(_, _, _)
Find(t, k, x) == IF x = 0 \/ x = k THEN x ELSE Find(t, k, IF x < k THEN t.r[x] ELSE t.l[x])
Has(t, k) == Find(t, k, t.root) # 0

Inserted(t, k) ==
  IF Has(t, k) THEN t
  ELSE LET y == Place(t, k, 0, t.root)
           a == [t EXCEPT !.l[k] = 0, !.r[k] = 0, !.p[k] = y, !.c[k] = 0]
           b == IF y = 0 THEN [a EXCEPT !.root = k] ELSE IF k < y THEN [a EXCEPT !.l[y] = k] ELSE [a EXCEPT !.r[y] = k]
       IN InsertFix(b, k)

Transplant(t, u, v) == LET a == Replace(t, u, v) IN [a EXCEPT !.p[v] = a.p[u]]

RECURSIVE Minimum(_, _)
Minimum(t, x) == IF t.l[x] = 0 THEN x ELSE Minimum(t, t.l[x])

RECURSIVE DeleteFix(_, _)
DeleteFix(t, x) ==
  IF x = t.root \/ t.c[x] = 0 THEN [t EXCEPT !.c[x] = 1]
  ELSE LET p == t.p[x]
           left == x = t.l[p]
           Near(u, n) == IF left THEN u.l[n] ELSE u.r[n]
           Far(u, n) == IF left THEN u.r[n] ELSE u.l[n]
           Turn(u, n) == IF left THEN LeftRotate(u, n) ELSE RightRotate(u, n)
           Back(u, n) == IF left THEN RightRotate(u, n) ELSE LeftRotate(u, n)
           s0 == Far(t, p)
           a == IF t.c[s0] = 1 THEN t ELSE Turn([t EXCEPT !.c[s0] = 1, !.c[p] = 0], p)
           p1 == a.p[x]
           s1 == Far(a, p1)
       IN IF a.c[Near(a, s1)] = 1 /\ a.c[Far(a, s1)] = 1
          THEN DeleteFix([a EXCEPT !.c[s1] = 0], p1)
          ELSE LET b == IF a.c[Far(a, s1)] = 0 THEN a ELSE Back([a EXCEPT !.c[Near(a, s1)] = 1, !.c[s1] = 0], s1)
                   p2 == b.p[x]
                   s2 == Far(b, p2)
                   d == Turn([b EXCEPT !.c[s2] = b.c[p2], !.c[p2] = 1, !.c[Far(b, s2)] = 1], p2)
               IN DeleteFix(d, d.root)

Deleted(t, k) ==
  IF ~Has(t, k) THEN t
  ELSE LET y == Minimum(t, t.r[k])
           x == IF t.l[k] = 0 THEN t.r[k] ELSE IF t.r[k] = 0 THEN t.l[k] ELSE t.r[y]
           was == IF t.l[k] = 0 \/ t.r[k] = 0 THEN t.c[k] ELSE t.c[y]
           a == IF t.l[k] = 0 THEN Transplant(t, k, t.r[k])
                ELSE IF t.r[k] = 0 THEN Transplant(t, k, t.l[k])
                ELSE LET b == IF t.p[y] = k THEN [t EXCEPT !.p[x] = y]
                              ELSE LET u == Transplant(t, y, x)
                                       v == [u EXCEPT !.r[y] = u.r[k]]
                                   IN [v EXCEPT !.p[v.r[y]] = y]
                         d == Transplant(b, k, y)
                         e == [d EXCEPT !.l[y] = d.l[k]]
                     IN [e EXCEPT !.p[e.l[y]] = y, !.c[y] = e.c[k]]
           f == IF was = 1 THEN DeleteFix(a, x) ELSE a
       IN [f EXCEPT !.l[k] = 0, !.r[k] = 0, !.p[k] = 0, !.c[k] = 1]

-----------------------------------------------------------------------------
Insert == \E k \in Keys :
  /\ s' = Inserted(s, k)
  /\ m' \in RbPost(m, [op |-> "insert", t |-> 1, k |-> k, v |-> k, p |-> 0, res |-> IF Has(s, k) THEN k ELSE 0])
  /\ hist' = IF Script THEN Append(hist, <<1, k>>) ELSE hist
Delete == \E k \in Keys :
  /\ s' = Deleted(s, k)
  /\ m' \in RbPost(m, [op |-> "delete", t |-> 1, k |-> k, p |-> 0, res |-> IF Has(s, k) THEN k ELSE 0])
  /\ hist' = IF Script THEN Append(hist, <<0, k>>) ELSE hist
Next == Insert \/ Delete
Emit == Script => PrintT(<<"SCRIPT", ToJson(hist)>>)

-----------------------------------------------------------------------------
Held == DOMAIN m[1].m
RECURSIVE Path(_, _)
Path(k, x) == IF x = k \/ x = 0 THEN <<>> ELSE <<x>> \o Path(k, IF x < k THEN s.r[x] ELSE s.l[x])
Parents ==
  /\ s.root # 0 => s.p[s.root] = 0
  /\ \A k \in Held : /\ s.l[k] # 0 => s.p[s.l[k]] = k
                     /\ s.r[k] # 0 => s.p[s.r[k]] = k
                     /\ s.p[k] = 0 => s.root = k
Sentinel == s.c[0] = 1 /\ s.l[0] = 0 /\ s.r[0] = 0
Shape ==
  LET keys == Asc(0, Held)
      n == Len(keys)
      missing == Asc(0, Keys \ Held)
  IN ShapeOK([keys |-> keys, col |-> [i \in 1..n |-> s.c[keys[i]]], path |-> [i \in 1..n |-> Path(keys[i], s.root)],
              miss |-> [i \in 1..Len(missing) |-> Len(Path(missing[i], s.root))]])
Lookups == \A k \in Keys : Has(s, k) = (k \in Held)
=============================================================================
