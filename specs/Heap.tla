-------------------------------- MODULE Heap --------------------------------
(* A heap holds a bag of elements <<key, id>>, the ids are all different.  Pop
   removes an element that no other one is less than.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the comparison functions the heaps are built with
Less(c, a, b) == CASE c = 0 -> a < b
                   [] c = 1 -> a > b
                   [] c = 2 -> a % 4 < b % 4
                   [] c = 3 -> (a \div 3) < (b \div 3)

ToSet(s) == {s[i] : i \in 1..Len(s)}
Minimal(c, S, x) == x \in S /\ \A y \in S : ~Less(c, y[1], x[1])

HeapInit(cfg) == {[c |-> 0, in |-> {}]}

HeapPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "build" -> {[c |-> e.c, in |-> ToSet(e.els)]}
         [] e.op = "push" -> {[st EXCEPT !.in = @ \cup {e.el}]}
         [] e.op = "pop" -> IF Minimal(st.c, st.in, e.res) THEN {[st EXCEPT !.in = @ \ {e.res}]} ELSE {}
=============================================================================
