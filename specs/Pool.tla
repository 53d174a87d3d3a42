------------------------------- MODULE Pool -------------------------------
(* A pool of objects, numbered in the order in which the driver first sees them.
   st.known   the objects that there are
   st.free    how often each has been given back and not handed out since
   res of get: the object, whether it was made by the constructor just now or
   before, and (arrays) its length and capacity.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
PoolInit(cfg) == {[cap |-> cfg.cap, made |-> {}, free |-> <<>>]}
Count(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
\* res = <<object, length, capacity>>; the length of what was given back stays as it was
PoolPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "get" ->
              LET x == e.res[1] IN
              IF x = 0 /\ e.res[2] = 0 /\ e.res[3] = 0 /\ st.cap = 0 THEN {st}  \* an array without room is no object
              ELSE IF x \notin st.made /\ e.res[2] = 0 /\ e.res[3] = st.cap
              THEN {[st EXCEPT !.made = @ \cup {x}]}
              ELSE IF x \in st.made /\ Count(st.free, <<x, e.res[2], e.res[3]>>) > 0
              THEN {[st EXCEPT !.free = (<<x, e.res[2], e.res[3]>> :> Count(@, <<x, e.res[2], e.res[3]>>) - 1) @@ @]}
              ELSE {}
         [] e.op = "put" -> {[st EXCEPT !.made = @ \cup {e.x[1]}, !.free = (e.x :> Count(@, e.x) + 1) @@ @]}
         \* what a holder has written is still there: nobody else has written to it
         [] e.op = "intact" -> IF e.res = 1 THEN {st} ELSE {}
=============================================================================
