------------------------------ MODULE HbCheck ------------------------------
(* All executions of up to N events of T goroutines: the first access that
   HappensBefore does not allow is the first one that races by definition.   *)
EXTENDS HappensBefore, TLC
CONSTANTS T, Locs, Objs, N
VARIABLES st, h, bad

Kinds == {"rd", "wr", "ard", "awr"}
Events == {[k |-> k, t |-> t, x |-> x] : k \in Kinds, t \in 1..T, x \in 1..Locs}
          \cup {[k |-> k, t |-> t, x |-> x] : k \in {"rel", "acq"}, t \in 1..T, x \in 1..Objs}
          \cup {[k |-> k, t |-> t, x |-> 1] : k \in {"fork", "start", "join"}, t \in 1..T}

\* by definition
Direct(tr, i, j) ==
  /\ i < j
  /\ \/ tr[i].t = tr[j].t
     \/ tr[i].k = "rel" /\ tr[j].k = "acq" /\ tr[i].x = tr[j].x
     \/ tr[i].k = "fork" /\ tr[j].k = "start"
     \/ tr[j].k = "join"
RECURSIVE Hb(_, _, _)
Hb(tr, i, j) == Direct(tr, i, j) \/ \E k \in (i + 1)..(j - 1) : Direct(tr, i, k) /\ Hb(tr, k, j)
Conflict(a, b) ==
  /\ a.k \in Kinds /\ b.k \in Kinds /\ a.x = b.x
  /\ a.k \in {"wr", "awr"} \/ b.k \in {"wr", "awr"}
  /\ a.k \in {"rd", "wr"} \/ b.k \in {"rd", "wr"}
RaceAt(tr, j) == \E i \in 1..(j - 1) : Conflict(tr[i], tr[j]) /\ ~Hb(tr, i, j)

Init == st = HbState(T, Locs, Objs) /\ h = <<>> /\ bad = FALSE
Next == \E e \in Events :
  /\ Len(h) < N /\ ~bad
  /\ h' = Append(h, e)
  /\ bad' = ~HbAllowed(st, e)
  /\ st' = HbEffect(st, e)
Agree == Len(h) > 0 => bad = RaceAt(h, Len(h))
=============================================================================
