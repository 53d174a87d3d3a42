----------------------------- MODULE LinRange ------------------------------
(* Range of sync.Map in concurrent histories.  Besides the events of LinBase:
     [k |-> "rcall", t], [k |-> "visit", t, key, val], [k |-> "rret", t, p, n, stop]
   Range is not atomic.  It calls f at most once per key, with a value that the
   key had at some time since Range was called; it does not miss a key that was
   present all the time; and after f has returned false it does not call it again. *)
EXTENDS GoMap, Json, IOUtils
VARIABLES tid, l, st

Traces == JsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

\* it: the Ranges in progress, by task
TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st \in {[o |-> m, pend |-> <<>>, it |-> <<>>] : m \in MapInit(Traces[tid].cfg)}

Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Pairs(m) == {<<k, m[k]>> : k \in Present(m)}

\* the map becomes m: the Ranges in progress may have seen it
Seen(it, m) == [t \in DOMAIN it |-> [it[t] EXCEPT !.seen = @ \cup Pairs(m), !.always = @ \cap Present(m)]]

Accept == l + 1 > Len(Traces[tid].ev) => PrintT(<<"ACCEPTED", tid>>)

Lin == \E t \in DOMAIN st.pend :
         /\ st.pend[t].done = 1
         /\ \E m \in MapPost(st.o, st.pend[t]) :
              st' = [o |-> m, pend |-> Without(st.pend, t), it |-> Seen(st.it, m)]

Event(e) ==
  CASE e.k = "call" -> st' = [st EXCEPT !.pend = (e.t :> e) @@ @]
    [] e.k = "ret" -> e.t \notin DOMAIN st.pend /\ st' = st
    [] e.k = "rcall" -> st' = [st EXCEPT !.it = (e.t :> [seen |-> Pairs(st.o), always |-> Present(st.o), visited |-> {}]) @@ @]
    [] e.k = "visit" -> LET i == st.it[e.t] IN
         /\ e.key \notin i.visited
         /\ <<e.key, e.val>> \in i.seen
         /\ st' = [st EXCEPT !.it[e.t].visited = @ \cup {e.key}]
    [] e.k = "rret" -> LET i == st.it[e.t] IN
         /\ e.p = 0
         /\ IF e.stop > 0 /\ e.n >= e.stop THEN e.n = e.stop ELSE i.always \subseteq i.visited
         /\ st' = [st EXCEPT !.it = Without(@, e.t)]
    [] e.k = "end" -> e.stuck = 0 /\ st' = st

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ tid' = tid
  /\ \/ l' = l /\ Lin
     \/ l' = l + 1 /\ Event(Traces[tid].ev[l]) /\ Accept
  /\ (Diag => PrintT(<<"AT", tid, l>>) /\ PrintT(<<"STATE", st>>))
=============================================================================
