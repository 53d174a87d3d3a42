------------------------------- MODULE Queue -------------------------------
(* A queue is the sequence of the elements pushed and not yet popped. *)
EXTENDS Integers, Sequences, TLC

QueueInit(cfg) == {<<>>}

\* [r: the result, q: the queue afterwards]; errors are 1, 0 is none
Do(q, e) ==
  CASE e.op = "push" -> [r |-> 0, q |-> Append(q, e.v)]
    [] e.op = "pop" -> IF q = <<>> THEN [r |-> <<0, 1>>, q |-> q] ELSE [r |-> <<Head(q), 0>>, q |-> Tail(q)]
    [] e.op = "peek" -> [r |-> IF q = <<>> THEN <<0, 1>> ELSE <<Head(q), 0>>, q |-> q]
    [] e.op = "peekall" -> [r |-> q, q |-> q]
    [] e.op = "len" -> [r |-> Len(q), q |-> q]
    [] e.op = "empty" -> [r |-> IF q = <<>> THEN 1 ELSE 0, q |-> q]
    [] e.op = "clear" -> [r |-> 0, q |-> <<>>]
    [] e.op = "gen" -> [r |-> 0, q |-> e.s]
    [] e.op = "new" -> [r |-> 0, q |-> <<>>]
    [] e.op = "iter" -> [r |-> q, q |-> <<>>]

QueuePost(q, e) == IF e.p # 0 THEN {} ELSE LET y == Do(q, e) IN IF y.r = e.res THEN {y.q} ELSE {}
=============================================================================
