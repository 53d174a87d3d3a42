--------------------------- MODULE HappensBefore ---------------------------
(* The Go memory model on recorded executions: no two conflicting accesses to a
   memory location, at least one of them not atomic, may be unordered by
   happens-before.  Events, each of a goroutine t:
     rd x, wr x      an access to location x;  ard x, awr x: by an atomic operation
     rel x, acq x    a release, an acquire of a synchronising object x (a mutex, a
                     channel, an atomic variable ...): what came before a release
                     happens before what comes after an acquire that follows it
     fork            t is about to start a goroutine
     start           the first event of a goroutine started by some fork
     join            the first event of any other goroutine
   Where the recording does not know exactly what is ordered it records more
   order, never less: a release before and an acquire after each operation on a
   channel.
   Happens-before is represented by vector clocks; HbCheck compares this with
   its definition as the transitive closure of the orders above.            *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Join(n, c, d) == [i \in 1..n |-> Max(c[i], d[i])]
Zero(n) == [i \in 1..n |-> 0]

\* rd, wr, ard, awr: for each location, the clock of each goroutine at its last access of the kind, 0: none
HbState(n, locs, objs) ==
  [n |-> n, vc |-> [t \in 1..n |-> [Zero(n) EXCEPT ![t] = 1]], fork |-> Zero(n), obj |-> [x \in 1..objs |-> Zero(n)],
   rd |-> [x \in 1..locs |-> Zero(n)], wr |-> [x \in 1..locs |-> Zero(n)],
   ard |-> [x \in 1..locs |-> Zero(n)], awr |-> [x \in 1..locs |-> Zero(n)]]
HbInit(cfg) == {HbState(cfg.threads, cfg.locs, cfg.objs)}

\* all accesses with these clocks happen before what t does now
Before(st, c, t) == \A u \in 1..st.n : c[u] <= st.vc[t][u]

HbEffect(st, e) ==
  LET t == e.t
      x == e.x
      n == st.n
      now == st.vc[t][t]
  IN CASE e.k = "rd" -> [st EXCEPT !.rd[x][t] = now]
       [] e.k = "wr" -> [st EXCEPT !.wr[x][t] = now]
       [] e.k = "ard" -> [st EXCEPT !.ard[x][t] = now]
       [] e.k = "awr" -> [st EXCEPT !.awr[x][t] = now]
       [] e.k = "rel" -> [st EXCEPT !.obj[x] = Join(n, @, st.vc[t]), !.vc[t][t] = @ + 1]
       [] e.k = "acq" -> [st EXCEPT !.vc[t] = Join(n, @, st.obj[x])]
       [] e.k = "fork" -> [st EXCEPT !.fork = Join(n, @, st.vc[t]), !.vc[t][t] = @ + 1]
       [] e.k = "start" -> [st EXCEPT !.vc[t] = Join(n, @, st.fork)]
       [] e.k = "join" -> [st EXCEPT !.vc = [u \in 1..n |-> IF u = t THEN [v \in 1..n |-> st.vc[v][v]] ELSE [st.vc[u] EXCEPT ![u] = @ + 1]]]

HbAllowed(st, e) ==
  CASE e.k = "rd" -> Before(st, st.wr[e.x], e.t) /\ Before(st, st.awr[e.x], e.t)
    [] e.k = "wr" -> Before(st, st.wr[e.x], e.t) /\ Before(st, st.rd[e.x], e.t) /\ Before(st, st.awr[e.x], e.t) /\ Before(st, st.ard[e.x], e.t)
    [] e.k = "ard" -> Before(st, st.wr[e.x], e.t)
    [] e.k = "awr" -> Before(st, st.wr[e.x], e.t) /\ Before(st, st.rd[e.x], e.t)
    [] OTHER -> TRUE

HbPost(st, e) == IF HbAllowed(st, e) THEN {HbEffect(st, e)} ELSE {}
=============================================================================
