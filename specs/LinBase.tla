------------------------------ MODULE LinBase ------------------------------
(* Linearizability of recorded concurrent histories.  The events are
     [k |-> "call", t, op, ..., done, p, res]   task t calls an operation
     [k |-> "ret", t]                           and it returns
     [k |-> "end", stuck]                       stuck = 1: some task never finished
   A call carries what the operation returned.  Between its call and its return
   each operation takes effect at one instant, by the sequential specification
   TPost.  WLOG an operation takes effect only when one that has not done so is
   about to return.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS TInit(_), TPost(_, _)
VARIABLES tid, l, st

Traces == JsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

\* st = [o: the object, pend: the calls (events) that have not taken effect, by task]
TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st \in {[o |-> x, pend |-> <<>>] : x \in TInit(Traces[tid].cfg)}

Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]

Accept == l + 1 > Len(Traces[tid].ev) => PrintT(<<"ACCEPTED", tid>>)

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ tid' = tid
  /\ LET e == Traces[tid].ev[l] IN
     CASE e.k = "call" ->
            /\ st' = [st EXCEPT !.pend = (e.t :> e) @@ @]
            /\ l' = l + 1
            /\ Accept
       [] e.k = "ret" ->
            IF e.t \in DOMAIN st.pend
            THEN /\ l' = l
                 /\ \E t \in DOMAIN st.pend :
                      /\ st.pend[t].done = 1
                      /\ \E x \in TPost(st.o, st.pend[t]) :
                           st' = [o |-> x, pend |-> Without(st.pend, t)]
            ELSE /\ st' = st
                 /\ l' = l + 1
                 /\ Accept
       [] e.k = "end" ->
            /\ e.stuck = 0
            /\ st' = st
            /\ l' = l + 1
            /\ Accept
  /\ (Diag => PrintT(<<"AT", tid, l>>) /\ PrintT(<<"STATE", st>>))
=============================================================================
