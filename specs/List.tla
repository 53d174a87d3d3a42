-------------------------------- MODULE List --------------------------------
(* Doubly linked lists are sequences of elements.  Elements are numbered in the
   order in which they are created (the copies made by pushing a whole list from
   front to back); 0 is nil.
   Each event carries what the operation returned, and what the lists look like
   afterwards: [r, f, b, n, g, v, dead]: the elements of each list from the front
   by Next, from the back by Prev, the length, the elements Range visits, their
   values, and how many removed elements still have a neighbour; or only r.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ListInit(cfg) == {[l |-> [i \in 1..cfg.lists |-> <<>>], val |-> <<>>]}

Pos(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))   \* x becomes the i-th
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Before(s, m, x) == LET w == Without(s, x) IN InsertAt(w, Pos(w, m), x)
After(s, m, x) == LET w == Without(s, x) IN InsertAt(w, Pos(w, m) + 1, x)

\* the operation e on list i: what it returns and the lists and values afterwards
Do(st, e) ==
  LET i == e.l
      s == st.l[i]
      new == Len(st.val) + 1
      In(x) == Pos(s, x) > 0
      Put(t) == [st EXCEPT !.l[i] = t]
      Add(t) == [r |-> new, st |-> [l |-> [st.l EXCEPT ![i] = t], val |-> Append(st.val, e.v)]]
      Nothing(r) == [r |-> r, st |-> st]
  IN CASE e.op = "pushfront" -> Add(<<new>> \o s)
       [] e.op = "pushback" -> Add(s \o <<new>>)
       [] e.op = "insbefore" -> IF In(e.m) THEN Add(Before(s, e.m, new)) ELSE Nothing(0)
       [] e.op = "insafter" -> IF In(e.m) THEN Add(After(s, e.m, new)) ELSE Nothing(0)
       [] e.op = "remove" -> [r |-> st.val[e.e], st |-> IF In(e.e) THEN Put(Without(s, e.e)) ELSE st]
       [] e.op = "tofront" -> [r |-> 0, st |-> IF In(e.e) THEN Put(<<e.e>> \o Without(s, e.e)) ELSE st]
       [] e.op = "toback" -> [r |-> 0, st |-> IF In(e.e) THEN Put(Without(s, e.e) \o <<e.e>>) ELSE st]
       [] e.op = "movebefore" -> [r |-> 0, st |-> IF In(e.e) /\ In(e.m) /\ e.e # e.m THEN Put(Before(s, e.m, e.e)) ELSE st]
       [] e.op = "moveafter" -> [r |-> 0, st |-> IF In(e.e) /\ In(e.m) /\ e.e # e.m THEN Put(After(s, e.m, e.e)) ELSE st]
       [] e.op = "pushbacklist" ->
            LET o == st.l[e.o]
                copy == [k \in 1..Len(o) |-> Len(st.val) + k]
            IN [r |-> 0, st |-> [l |-> [st.l EXCEPT ![i] = s \o copy], val |-> st.val \o [k \in 1..Len(o) |-> st.val[o[k]]]]]
       [] e.op = "pushfrontlist" ->
            LET o == st.l[e.o]
                copy == [k \in 1..Len(o) |-> Len(st.val) + k]
            IN [r |-> 0, st |-> [l |-> [st.l EXCEPT ![i] = copy \o s], val |-> st.val \o [k \in 1..Len(o) |-> st.val[o[k]]]]]
       [] e.op = "init" -> [r |-> 0, st |-> Put(<<>>)]
       [] e.op = "setval" -> [r |-> 0, st |-> [st EXCEPT !.val[e.e] = e.v]]
       [] e.op = "look" -> Nothing(0)

ListPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE LET y == Do(st, e)
           ls == y.st.l
           n == Len(ls)
       IN IF /\ e.res.r = y.r
             /\ ("f" \in DOMAIN e.res =>
               /\ e.res.f = [i \in 1..n |-> ls[i]]
               /\ e.res.b = [i \in 1..n |-> Rev(ls[i])]
               /\ e.res.n = [i \in 1..n |-> Len(ls[i])]
               /\ e.res.g = [i \in 1..n |-> ls[i]]
               /\ e.res.v = [i \in 1..n |-> [k \in 1..Len(ls[i]) |-> y.st.val[ls[i][k]]]]
               /\ e.res.dead = 0)
          THEN {y.st} ELSE {}
=============================================================================
