------------------------------- MODULE Texts -------------------------------
(* What the texts of ordered containers show.  A tree shows its entries in
   order.  A skip list shows its layers: every entry is in the lowest, the
   entries of a layer are in the layer below, and a layer links its entries in
   order; the lowest also backwards.  How many layers an entry is in is drawn,
   so the text says it; all the links follow from it.  A link to nothing is 0,
   values are not 0.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Asc(c, S) == LET s == SortSeq(SetToSeq(S), LAMBDA a, b : a < b) IN TLCEval(IF c = 1 THEN Reverse(s) ELSE s)

\* r.nodes[i]: the value v, the value prev before it, the values next[l] after it in layer l;
\* r.head[l], r.foot[l]: the first and the last value of layer l
SkipText(vals, r) ==
  LET n == Len(vals)
      h == TLCEval([i \in 1..n |-> Len(r.nodes[i].next)])
      val(i) == IF i = 0 THEN 0 ELSE vals[i]
      Least(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
      Greatest(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
      top == IF n = 0 THEN 0 ELSE h[CHOOSE i \in 1..n : \A j \in 1..n : h[i] >= h[j]]
  IN /\ Len(r.nodes) = n
     /\ \A i \in 1..n : /\ h[i] >= 1
                        /\ r.nodes[i].v = vals[i]
                        /\ r.nodes[i].prev = val(i - 1)
                        /\ \A l \in 1..h[i] : r.nodes[i].next[l] = val(Least({j \in i+1..n : h[j] >= l}))
     /\ Len(r.head) = top /\ Len(r.foot) = top
     /\ \A l \in 1..top : /\ r.head[l] = val(Least({j \in 1..n : h[j] >= l}))
                          /\ r.foot[l] = val(Greatest({j \in 1..n : h[j] >= l}))

TxInit(cfg) == {[m |-> <<>>, c |-> cfg.c]}

TxPost(st, e) ==
  IF e.p # 0 THEN {} ELSE
  LET m == st.m
      keys == Asc(st.c, DOMAIN m)
      vals == TLCEval([i \in 1..Len(keys) |-> m[keys[i]]])
  IN CASE e.op = "put" -> {[st EXCEPT !.m = (e.k :> e.v) @@ m]}
       [] e.op = "delete" -> {[st EXCEPT !.m = [k \in DOMAIN m \ {e.k} |-> m[k]]]}
       [] e.op = "tree" -> IF e.res = [i \in 1..Len(keys) |-> <<keys[i], vals[i]>>] THEN {st} ELSE {}
       [] e.op = "skip" -> IF e.res.ok = 1 /\ Len(e.res.nodes) = Len(vals) /\ SkipText(vals, e.res) THEN {st} ELSE {}
=============================================================================
