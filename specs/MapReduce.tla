----------------------------- MODULE MapReduce -----------------------------
(* What a call of MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish or
   FinishVoid may do, as seen by the functions passed to it and by the caller.
   The events, in the order in which they happened:
     offer i, genend         the generator is about to send item i; has finished
     mstart i, mend i        a mapper has got item i; is about to return
     mwrite u                a mapper is about to write u
     rread u, rclosed        the reducer has received u; has found the pipe closed
     rwrite v, rend          the reducer is about to write v; to return
     cancel e, cancelled e   somebody is about to call cancel; the call has returned
     quiet                   nothing else could run: what could happen after the events before has happened
     panic v                 a function passed is about to panic with v
     ctx0, ctx1              the context may be done from now on; is done
     ret o v                 the call has ended: "val" v, "err" e, "none" (no output),
                             "ok" (nil or no result), "dead" (deadline exceeded), "panic" v
     end stuck leaked        nothing happens any more
   cfg.prop says which of the properties C04 .. C08 is to be decided.        *)
EXTENDS Integers, Sequences, FiniteSets

MrInit(cfg) ==
  {[prop |-> cfg.prop, kind |-> cfg.kind, workers |-> cfg.workers,
    offered |-> 1..cfg.given, genend |-> cfg.given > 0 \/ cfg.fns = 1, started |-> {}, ended |-> {},
    wrote |-> {}, read |-> {}, 
    first |-> {}, begun |-> {}, back |-> FALSE,   \* cancel calls: those that may be first, all, whether one has returned
    panics |-> {}, ctx0 |-> FALSE, ctx1 |-> FALSE,
    rvals |-> {}, rend |-> FALSE,
    late |-> FALSE,       \* the reducer's first write came after a cancel had returned or the context was done
    missed |-> FALSE,     \* the reducer finished when the context was done
    ret |-> FALSE]}

\* the numbers of the errors that are the package's error for no output and the one for deadlines:
\* cancelling with those looks like the outcomes "none" and "dead"
NoOutput == 5
Deadline == 7

Reduces(st) == st.kind \in {"mr", "chan", "void"}
Fault(st) == st.begun # {} \/ st.panics # {} \/ st.ctx0
AllDone(st) == st.genend /\ st.offered = st.started /\ st.started = st.ended

------------------------------------------------------------------------------
\* C04: everything is processed exactly once
RetDone(st, o, v) ==
  (Reduces(st) /\ ~Fault(st) /\ o \in {"val", "ok"}) => AllDone(st) /\ (o = "val" => st.rvals = {v})

\* C05: which outcomes there are without a panic
RetOutcome(st, o, v) ==
  (Reduces(st) /\ st.panics = {}) =>
    CASE o = "val" -> st.kind # "void" /\ v \in st.rvals /\ ~st.late
      [] o = "ok" -> st.kind = "void" /\ st.rend /\ st.begun = {} /\ ~st.missed
      [] o = "none" -> \/ st.kind # "void" /\ st.rend /\ st.rvals = {} /\ st.begun = {} /\ ~st.missed
                       \/ NoOutput \in st.first
      [] o = "err" -> v \in st.first
      [] o = "dead" -> st.ctx0 \/ Deadline \in st.first
      [] o = "panic" -> Cardinality(st.rvals) > 1

\* C06: panics (0 is any value that no function passed has panicked with)
RetPanic(st, o, v) ==
  /\ o = "panic" => v \in st.panics \/ (v = 0 /\ Reduces(st) /\ Cardinality(st.rvals) > 1)
  /\ o \in {"val", "ok", "none"} => st.panics = {} \/ (st.ctx0 /\ ~Reduces(st)) \/ (o = "val" /\ (st.begun # {} \/ st.ctx0)) \/ (o = "none" /\ NoOutput \in st.begun)
  /\ o = "err" => st.begun # {}
  /\ o = "dead" => st.ctx0 \/ Deadline \in st.begun
  /\ (Reduces(st) /\ Cardinality(st.rvals) > 1 /\ ~Fault(st)) => o = "panic"

\* C08: ForEach, Finish, FinishVoid
RetAll(st, o, v) ==
  ~Reduces(st) =>
    CASE o = "ok" -> /\ st.begun = {} /\ st.started = st.ended
                     /\ ~Fault(st) => AllDone(st)
      [] o = "err" -> st.kind = "finish" /\ v \in st.begun
      [] o = "dead" -> st.kind = "finish" /\ Deadline \in st.begun
      [] o = "panic" -> st.panics # {}
      [] OTHER -> FALSE

------------------------------------------------------------------------------
\* what is allowed to happen: events that are up to the library
Allowed(st, e) ==
  LET on(ps) == st.prop \in ps
      running == Cardinality(st.started \ st.ended)
  IN CASE e.k = "mstart" -> on(IF Reduces(st) THEN {"C04"} ELSE {"C08"})
                              => e.i \in st.offered /\ e.i \notin st.started /\ running < st.workers
       [] e.k = "rread" -> on({"C04"}) => e.v \in st.wrote /\ e.v \notin st.read
       [] e.k = "rclosed" -> (on({"C04"}) /\ ~Fault(st)) => AllDone(st) /\ st.read = st.wrote
       [] e.k = "ret" ->
            /\ ~st.ret
            /\ on({"C04"}) => RetDone(st, e.o, e.v)
            /\ on({"C05"}) => RetOutcome(st, e.o, e.v)
            /\ on({"C06"}) => RetPanic(st, e.o, e.v)
            /\ on({"C08"}) => RetAll(st, e.o, e.v)
       [] e.k = "end" ->
            \* C07: the call has returned, and everything that it started has ended
            \* (not all workers running although all could be shows as being stuck, too)
            e.stuck = 0 /\ (on({"C07"}) => e.leaked = 0)
       [] OTHER -> TRUE

Effect(st, e) ==
  CASE e.k = "offer" -> [st EXCEPT !.offered = @ \cup {e.i}]
    [] e.k = "genend" -> [st EXCEPT !.genend = TRUE]
    [] e.k = "mstart" -> [st EXCEPT !.started = @ \cup {e.i}]
    [] e.k = "mend" -> [st EXCEPT !.ended = @ \cup {e.i}]
    [] e.k = "mwrite" -> [st EXCEPT !.wrote = @ \cup {e.v}]
    [] e.k = "rread" -> [st EXCEPT !.read = @ \cup {e.v}]
    [] e.k = "rwrite" -> [st EXCEPT !.rvals = @ \cup {e.v}, !.late = @ \/ (st.rvals = {} /\ (st.back \/ st.ctx1))]
    [] e.k = "rend" -> [st EXCEPT !.rend = TRUE, !.missed = st.ctx1]
    [] e.k = "cancel" -> [st EXCEPT !.begun = @ \cup {e.v}, !.first = IF st.back THEN @ ELSE @ \cup {e.v}]
    [] e.k = "cancelled" -> [st EXCEPT !.back = TRUE]
    [] e.k = "quiet" -> [st EXCEPT !.back = @ \/ st.begun # {}]
    [] e.k = "panic" -> [st EXCEPT !.panics = @ \cup {e.v}]
    [] e.k = "ctx0" -> [st EXCEPT !.ctx0 = TRUE]
    [] e.k = "ctx1" -> [st EXCEPT !.ctx1 = TRUE]
    [] e.k = "ret" -> [st EXCEPT !.ret = TRUE]
    [] OTHER -> st

MrPost(st, e) == IF Allowed(st, e) THEN {Effect(st, e)} ELSE {}
=============================================================================
