----------------------------- MODULE TraceBase -----------------------------
(* Trace validation.  TRACE names a JSON file with an array of traces recorded
   from the real code, each [cfg |-> configuration, ev |-> events].  A trace is
   accepted iff there is a behaviour of the specification that explains all of
   its events; TLC searches all of them.  The specification is given as
     TInit(cfg)    the set of initial states for a configuration
     TPost(st, ev) the set of states that st may go to with the event ev, {} if
                   the specification does not allow ev in st.
   The number of each accepted trace is printed.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS TInit(_), TPost(_, _)
VARIABLES tid, l, st

Traces == JsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st \in TInit(Traces[tid].cfg)
  /\ (Len(Traces[tid].ev) = 0 => PrintT(<<"ACCEPTED", tid>>))

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ st' \in TPost(st, Traces[tid].ev[l])
  /\ l' = l + 1
  /\ tid' = tid
  /\ (l' > Len(Traces[tid].ev) => PrintT(<<"ACCEPTED", tid>>))
  /\ (Diag => PrintT(<<"AT", tid, l>>) /\ PrintT(<<"STATE", st>>))
=============================================================================
