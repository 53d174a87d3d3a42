---------------------------- MODULE SyncMapAlgo ----------------------------
(* The algorithm of sync.Map, one atomic access per step: the read-only map
   that is read without the lock, the dirty map, entries that are nil or
   expunged, misses and promotion.

   First task 0 calls operations alone, any number of them: all states that the
   structure can be in at rest are reached.  From each of them, tasks 1..T call
   up to N operations each at the same time (N = 0: not at all).  The results
   are judged by GoMap.tla: the operations have to be linearizable, and Range
   has to do what LinRange.tla says (C01, C02, C03).

   With Script = TRUE the calls that lead to each state at rest are printed,
   for the driver to repeat them.                                            *)
EXTENDS GoMap, Json
CONSTANTS K,      \* the keys are 0..K-1
          T, N,   \* tasks, operations of each
          SeqOps, ConcOps, \* names of operations
          Script

Keys == 0..K-1
Nil == <<-1, 0>>
Expunged == <<-2, 0>>
NoMap == [k \in Keys |-> 0]

VARIABLES rm, amended,  \* the read-only map: entry of each key, 0 for none
          dirty, hasDirty, misses, mu,
          ent,          \* the entries: what they point to, a pair of a value and which store it was
          pc, op, rd, e, p, todo, \* of the tasks: rd, e, p are what they have read
          n,            \* operations left
          mon,          \* configurations of the abstract map, see below
          hist          \* the calls so far, alone; not part of the state
vars == <<rm, amended, dirty, hasDirty, misses, mu, ent, pc, op, rd, e, p, todo, n, mon, hist>>
View == <<rm, amended, dirty, hasDirty, misses, mu, ent, pc, op, rd, e, p, todo, n, mon>>

Tasks == 0..T
Idle == [op |-> "idle", key |-> 0, val |-> 0, old |-> 0]
Empty == [m |-> NoMap, a |-> FALSE]

Init ==
  /\ rm = NoMap /\ amended = FALSE /\ dirty = NoMap /\ hasDirty = FALSE /\ misses = 0 /\ mu = -1
  /\ ent = <<>>
  /\ pc = [t \in Tasks |-> "idle"] /\ op = [t \in Tasks |-> Idle] /\ rd = [t \in Tasks |-> Empty]
  /\ e = [t \in Tasks |-> 0] /\ p = [t \in Tasks |-> Nil] /\ todo = [t \in Tasks |-> {}]
  /\ n = [t \in Tasks |-> IF t = 0 THEN 1 ELSE 0]
  /\ mon = {[o |-> m, pend |-> <<>>, fin |-> <<>>, it |-> <<>>] : m \in MapInit([keys |-> K])}
  /\ hist = <<>>

------------------------------------------------------------------------------
\* the monitor: configurations [o, pend: calls that have not taken effect, fin: results of those that have, it: Ranges]
Drop(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Pairs(m) == {<<k, m[k]>> : k \in Present(m)}
Seen(it, m) == [t \in DOMAIN it |-> [it[t] EXCEPT !.seen = @ \cup Pairs(m), !.always = @ \cap Present(m)]]
Effect(c, t) == LET y == MapStep(c.o, c.pend[t])
                IN [o |-> y.m, pend |-> Drop(c.pend, t), fin |-> (t :> y.res) @@ c.fin, it |-> Seen(c.it, y.m)]
RECURSIVE Closure(_)
Closure(cs) == LET new == UNION {{Effect(c, t) : t \in DOMAIN c.pend} : c \in cs}
               IN IF new \subseteq cs THEN cs ELSE Closure(cs \cup new)
Called(cs, t, o) == {[c EXCEPT !.pend = (t :> o) @@ @] : c \in cs}
Returned(cs, t, r) == {[c EXCEPT !.fin = Drop(@, t)] : c \in {d \in Closure(cs) : t \in DOMAIN d.fin /\ d.fin[t] = r}}
RCalled(cs, t) == {[c EXCEPT !.it = (t :> [seen |-> Pairs(c.o), always |-> Present(c.o), visited |-> {}]) @@ @] : c \in Closure(cs)}
Visited(cs, t, k, v) == {[c EXCEPT !.it[t].visited = @ \cup {k}] : c \in {d \in Closure(cs) : k \notin d.it[t].visited /\ <<k, v>> \in d.it[t].seen}}
RReturned(cs, t) == {[c EXCEPT !.it = Drop(@, t)] : c \in {d \in Closure(cs) : d.it[t].always \subseteq d.it[t].visited}}

------------------------------------------------------------------------------
Shared == <<rm, amended, dirty, hasDirty, misses, mu, ent>>
Maps == <<rm, amended, dirty, hasDirty, misses>>
Size(m) == Cardinality({k \in Keys : m[k] # 0})
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

\* the call of t returns r; cs: the configurations before it (with the call, if it is made in the same step)
Done(t) == /\ pc' = [pc EXCEPT ![t] = IF t = 0 THEN "norm" ELSE "idle"] /\ op' = [op EXCEPT ![t] = Idle] /\ rd' = [rd EXCEPT ![t] = Empty]
           /\ e' = [e EXCEPT ![t] = 0] /\ p' = [p EXCEPT ![t] = Nil] /\ todo' = [todo EXCEPT ![t] = {}]
Ret(t, cs, r) == mon' = Returned(cs, t, r) /\ Done(t)

\* the value written by t's call
Ptr(t) == <<op[t].val, IF t = 0 THEN 1 ELSE (10 * t) + n[t]>>
IsVal(x) == x # Nil /\ x # Expunged

\* missLocked, as an assignment to the maps; dm: the dirty map
Miss(dm) == IF misses + 1 < Size(dm)
            THEN misses' = misses + 1 /\ dirty' = dm /\ UNCHANGED <<rm, amended, hasDirty>>
            ELSE misses' = 0 /\ rm' = dm /\ amended' = FALSE /\ dirty' = NoMap /\ hasDirty' = FALSE

HitOf(x) == IF IsVal(x) THEN <<x[1], 1>> ELSE <<0, 0>>

\* the call, and the first read of the read-only map
\* fast: where to go if the key is in it; else to "lock" if it is amended, or the call returns miss (or goes to "lock", if miss is <<>>)
Start(t, o) ==
  LET x == rm[o.key]
      cs == Called(mon, t, o)
      fast == CASE o.op = "load" -> "load" [] o.op \in {"store", "swap"} -> "sw1" [] o.op = "los" -> "los1"
                [] o.op \in {"lad", "delete"} -> "del1" [] o.op = "cas" -> "cas1" [] o.op = "cad" -> "cad1"
      miss == CASE o.op \in {"load", "lad"} -> <<0, 0>> [] OTHER -> 0
  IN /\ n' = [n EXCEPT ![t] = IF t = 0 THEN @ ELSE @ - 1] /\ UNCHANGED Shared
     /\ IF o.op = "range"
        THEN /\ mon' = RCalled(mon, t)
             /\ op' = [op EXCEPT ![t] = o]
             /\ IF amended THEN Go(t, "rlock") /\ UNCHANGED rd ELSE Go(t, "range") /\ rd' = [rd EXCEPT ![t] = [m |-> rm, a |-> FALSE]]
             /\ todo' = [todo EXCEPT ![t] = IF amended THEN {} ELSE {k \in Keys : rm[k] # 0}]
             /\ UNCHANGED <<e, p>>
        ELSE IF x # 0 THEN /\ Go(t, fast) /\ op' = [op EXCEPT ![t] = o] /\ e' = [e EXCEPT ![t] = x] /\ mon' = cs /\ UNCHANGED <<rd, p, todo>>
        ELSE IF amended \/ o.op \in {"store", "swap", "los"}
        THEN /\ Go(t, "lock") /\ op' = [op EXCEPT ![t] = o] /\ mon' = cs /\ UNCHANGED <<rd, e, p, todo>>
        ELSE Ret(t, cs, miss)

\* operations on the entry
Entry(t) ==
  LET x == ent[e[t]]
      o == op[t]
      locked == mu = t
      \* where an operation that holds the lock goes when it has done its work
      write(y) == ent' = [ent EXCEPT ![e[t]] = y]
      stay == UNCHANGED <<op, rd, e, todo, mon>>
      unlock == mu' = (IF locked THEN -1 ELSE mu)
  IN
  \/ /\ pc[t] = "load" /\ Ret(t, mon, HitOf(x)) /\ UNCHANGED <<Shared, n>>
  \* trySwap
  \/ /\ pc[t] = "sw1" /\ p' = [p EXCEPT ![t] = x] /\ Go(t, IF x = Expunged THEN "lock" ELSE "sw2") /\ stay /\ UNCHANGED <<Shared, n>>
  \/ /\ pc[t] = "sw2" /\ x # p[t] /\ Go(t, "sw1") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] = "sw2" /\ x = p[t] /\ write(Ptr(t)) /\ Ret(t, mon, IF o.op = "store" THEN 0 ELSE HitOf(x)) /\ UNCHANGED <<Maps, mu, n>>
  \* swapLocked, and the lock is released
  \/ /\ pc[t] = "swl" /\ write(Ptr(t)) /\ Ret(t, mon, IF o.op = "store" THEN 0 ELSE HitOf(x)) /\ mu' = -1 /\ UNCHANGED <<Maps, n>>
  \* tryLoadOrStore; with the lock, the entry is not expunged
  \/ /\ pc[t] \in {"los1", "los1m"} /\ x = Expunged /\ ~locked /\ Go(t, "lock") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] \in {"los1", "los1m"} /\ IsVal(x)
     /\ IF pc[t] = "los1m" THEN Go(t, "miss") /\ p' = [p EXCEPT ![t] = x] /\ stay /\ UNCHANGED <<Shared, n>>
        ELSE Ret(t, mon, <<x[1], 1>>) /\ unlock /\ UNCHANGED <<Maps, ent, n>>
  \/ /\ pc[t] \in {"los1", "los1m"} /\ x = Nil /\ Go(t, IF pc[t] = "los1" THEN "los2" ELSE "los2m") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] \in {"los2", "los2m"} /\ x # Nil /\ Go(t, IF pc[t] = "los2" THEN "los1" ELSE "los1m") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] \in {"los2", "los2m"} /\ x = Nil /\ write(Ptr(t)) /\ UNCHANGED <<Maps, n>>
     /\ IF pc[t] = "los2m" THEN Go(t, "miss") /\ p' = [p EXCEPT ![t] = Nil] /\ stay /\ UNCHANGED mu
        ELSE Ret(t, mon, <<o.val, 0>>) /\ unlock
  \* delete
  \/ /\ pc[t] = "del1" /\ ~IsVal(x) /\ Ret(t, mon, IF o.op = "lad" THEN <<0, 0>> ELSE 0) /\ UNCHANGED <<Shared, n>>
  \/ /\ pc[t] = "del1" /\ IsVal(x) /\ p' = [p EXCEPT ![t] = x] /\ Go(t, "del2") /\ stay /\ UNCHANGED <<Shared, n>>
  \/ /\ pc[t] = "del2" /\ x # p[t] /\ Go(t, "del1") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] = "del2" /\ x = p[t] /\ write(Nil) /\ Ret(t, mon, IF o.op = "lad" THEN HitOf(x) ELSE 0) /\ UNCHANGED <<Maps, mu, n>>
  \* tryCompareAndSwap
  \/ /\ pc[t] \in {"cas1", "cas1m"} /\ (~IsVal(x) \/ x[1] # o.old)
     /\ IF pc[t] = "cas1m" THEN Go(t, "miss") /\ p' = [p EXCEPT ![t] = Nil] /\ stay /\ UNCHANGED <<Shared, n>>
        ELSE Ret(t, mon, 0) /\ unlock /\ UNCHANGED <<Maps, ent, n>>
  \/ /\ pc[t] \in {"cas1", "cas1m"} /\ IsVal(x) /\ x[1] = o.old /\ p' = [p EXCEPT ![t] = x]
     /\ Go(t, IF pc[t] = "cas1" THEN "cas2" ELSE "cas2m") /\ stay /\ UNCHANGED <<Shared, n>>
  \/ /\ pc[t] \in {"cas2", "cas2m"} /\ x # p[t] /\ Go(t, IF pc[t] = "cas2" THEN "cas1" ELSE "cas1m") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] \in {"cas2", "cas2m"} /\ x = p[t] /\ write(Ptr(t)) /\ UNCHANGED <<Maps, n>>
     /\ IF pc[t] = "cas2m" THEN Go(t, "miss") /\ stay /\ UNCHANGED <<p, mu>> ELSE Ret(t, mon, 1) /\ unlock
  \* CompareAndDelete
  \/ /\ pc[t] = "cad1" /\ (~IsVal(x) \/ x[1] # o.old) /\ Ret(t, mon, 0) /\ UNCHANGED <<Shared, n>>
  \/ /\ pc[t] = "cad1" /\ IsVal(x) /\ x[1] = o.old /\ p' = [p EXCEPT ![t] = x] /\ Go(t, "cad2") /\ stay /\ UNCHANGED <<Shared, n>>
  \/ /\ pc[t] = "cad2" /\ x # p[t] /\ Go(t, "cad1") /\ stay /\ UNCHANGED <<Shared, p, n>>
  \/ /\ pc[t] = "cad2" /\ x = p[t] /\ write(Nil) /\ Ret(t, mon, 1) /\ UNCHANGED <<Maps, mu, n>>

\* missLocked at the end of what holds the lock; p tells what happened before
MissStep(t) ==
  /\ pc[t] = "miss" /\ Miss(dirty) /\ mu' = -1 /\ UNCHANGED <<ent, n>>
  /\ Ret(t, mon, IF op[t].op = "cas" THEN (IF p[t] = Nil THEN 0 ELSE 1)
                 ELSE IF p[t] = Nil THEN <<op[t].val, 0>> ELSE <<p[t][1], 1>>)

\* with the lock: what is not seen by the others before the next step is one step
Lock(t) ==
  LET o == op[t]
      k == o.key
      writes == o.op \in {"store", "swap", "los"}
      x == rm[k]
      d == IF hasDirty THEN dirty[k] ELSE 0
      on(l, y) == Go(t, l) /\ e' = [e EXCEPT ![t] = y] /\ UNCHANGED <<op, rd, p, todo, mon, n, ent>>
      miss == CASE o.op \in {"load", "lad"} -> <<0, 0>> [] OTHER -> 0
  IN
  /\ pc[t] = "lock" /\ mu = -1
  /\ IF x # 0 THEN
       CASE writes -> on("unexp", x) /\ mu' = t /\ UNCHANGED Maps
         [] o.op = "cas" -> on("cas1", x) /\ mu' = t /\ UNCHANGED Maps
         [] o.op = "load" -> on("load", x) /\ UNCHANGED <<Maps, mu>>
         [] o.op \in {"lad", "delete"} -> on("del1", x) /\ UNCHANGED <<Maps, mu>>
         [] o.op = "cad" -> on("cad1", x) /\ UNCHANGED <<Maps, mu>>
     ELSE IF writes THEN
       IF d # 0 THEN on(IF o.op = "los" THEN "los1m" ELSE "swl", d) /\ mu' = t /\ UNCHANGED Maps
       ELSE /\ mu' = t /\ Go(t, "add") /\ UNCHANGED <<Maps, op, rd, e, p, mon, n, ent>>
            /\ todo' = [todo EXCEPT ![t] = IF amended \/ hasDirty THEN {} ELSE {y \in Keys : rm[y] # 0}]
     ELSE IF ~amended THEN Ret(t, mon, miss) /\ UNCHANGED <<Shared, n>>
     ELSE CASE o.op = "cas" -> IF d # 0 THEN on("cas1m", d) /\ mu' = t /\ UNCHANGED Maps
                               ELSE Ret(t, mon, 0) /\ UNCHANGED <<Shared, n>>
            [] o.op \in {"lad", "delete"} -> /\ Miss([dirty EXCEPT ![k] = 0]) /\ UNCHANGED mu
                                 /\ IF d # 0 THEN on("del1", d) ELSE Ret(t, mon, miss) /\ UNCHANGED <<ent, n>>
            [] OTHER -> /\ Miss(dirty) /\ UNCHANGED mu
                        /\ IF d # 0 THEN on(IF o.op = "cad" THEN "cad1" ELSE "load", d) ELSE Ret(t, mon, miss) /\ UNCHANGED <<ent, n>>

Locked(t) ==
  LET o == op[t] k == o.key stay == UNCHANGED <<op, rd, mon, n>> IN
  \* unexpungeLocked
  \/ /\ pc[t] = "unexp" /\ Go(t, IF o.op = "los" THEN "los1" ELSE "swl") /\ stay /\ UNCHANGED <<rm, amended, misses, mu, e, p, todo>>
     /\ IF ent[e[t]] = Expunged
        THEN ent' = [ent EXCEPT ![e[t]] = Nil] /\ dirty' = [dirty EXCEPT ![k] = e[t]] /\ Assert(hasDirty, "no dirty map") /\ UNCHANGED hasDirty
        ELSE UNCHANGED <<ent, dirty, hasDirty>>
  \* dirtyLocked: the entries that are nil are expunged, one after the other; the others go into the dirty map
  \/ /\ pc[t] = "add" /\ \E y \in todo[t] :
          LET a == rm[y] IN
          /\ e' = [e EXCEPT ![t] = y]
          /\ IF ent[a] = Nil THEN Go(t, "exp") /\ UNCHANGED <<dirty, todo>>
             ELSE /\ dirty' = [dirty EXCEPT ![y] = IF ent[a] = Expunged THEN 0 ELSE a]
                  /\ todo' = [todo EXCEPT ![t] = @ \ {y}] /\ UNCHANGED pc
     /\ stay /\ UNCHANGED <<rm, amended, hasDirty, misses, mu, ent, p>>
  \/ /\ pc[t] = "exp" /\ Go(t, "add") /\ stay /\ UNCHANGED <<rm, amended, dirty, hasDirty, misses, mu, e, p>>
     /\ IF ent[rm[e[t]]] = Nil THEN ent' = [ent EXCEPT ![rm[e[t]]] = Expunged] /\ todo' = [todo EXCEPT ![t] = @ \ {e[t]}]
        ELSE UNCHANGED <<ent, todo>>
  \* the new entry
  \/ /\ pc[t] = "add" /\ todo[t] = {} /\ UNCHANGED <<rm, misses, n>>
     /\ amended' = TRUE /\ hasDirty' = TRUE /\ mu' = -1
     /\ ent' = Append(ent, Ptr(t)) /\ dirty' = [dirty EXCEPT ![k] = Len(ent) + 1]
     /\ Ret(t, mon, CASE o.op = "store" -> 0 [] o.op = "swap" -> <<0, 0>> [] o.op = "los" -> <<o.val, 0>>)

RangeStep(t) ==
  \/ /\ pc[t] = "rlock" /\ mu = -1 /\ Go(t, "range") /\ UNCHANGED <<mu, ent, op, e, p, mon, n>>
     /\ IF amended THEN rm' = dirty /\ amended' = FALSE /\ dirty' = NoMap /\ hasDirty' = FALSE /\ misses' = 0
                   ELSE UNCHANGED Maps
     /\ rd' = [rd EXCEPT ![t] = [m |-> rm', a |-> FALSE]]
     /\ todo' = [todo EXCEPT ![t] = {k \in Keys : rm'[k] # 0}]
  \/ /\ pc[t] = "range" /\ UNCHANGED <<Shared, n>>
     /\ IF todo[t] = {} THEN mon' = RReturned(mon, t) /\ Done(t)
        ELSE \E k \in todo[t] :
               LET x == ent[rd[t].m[k]] IN
               /\ todo' = [todo EXCEPT ![t] = @ \ {k}]
               /\ mon' = IF IsVal(x) THEN Visited(mon, t, k, x[1]) ELSE mon
               /\ UNCHANGED <<pc, op, rd, e, p>>

------------------------------------------------------------------------------
Calls(names, vals, olds) ==
  {[op |-> a, key |-> k, val |-> v, old |-> w] :
      a \in names, k \in Keys, v \in vals, w \in olds}
\* no different calls for what does not matter
Normal(o) == /\ o.op \in {"store", "swap", "los", "cas"} \/ o.val = 0
             /\ o.op \in {"cas", "cad"} \/ o.old = 0
             /\ o.op # "range" \/ o.key = 0
Store(o) == o.op \in {"store", "swap", "los", "cas"} => o.val # 0
SeqCalls == {o \in Calls(SeqOps, {0, 1}, {0, 1}) : Normal(o) /\ Store(o)}
ConcCalls(t) == {o \in Calls(ConcOps, {0, t + 1}, ({0, 1} \cup (2..(T + 1))) \ {t + 1}) : Normal(o) /\ Store(o) /\ (o.op \in {"cas", "cad"} => o.old # 0)}

AllIdle == \A t \in Tasks : pc[t] = "idle"
Alone == n[0] = 1

\* the state at rest, in a normal form: the entry of key k is number k + 1, whose store is number 0
Rest ==
  LET x(k) == IF rm[k] # 0 THEN rm[k] ELSE IF hasDirty THEN dirty[k] ELSE 0
      norm(y) == IF IsVal(y) THEN <<y[1], 0>> ELSE y
  IN /\ ent' = [i \in 1..K |-> IF x(i - 1) # 0 THEN norm(ent[x(i - 1)]) ELSE Nil]
     /\ rm' = [k \in Keys |-> IF rm[k] # 0 THEN k + 1 ELSE 0]
     /\ dirty' = [k \in Keys |-> IF dirty[k] # 0 THEN k + 1 ELSE 0]
     /\ UNCHANGED <<amended, hasDirty, misses, mu, op, rd, e, p, todo, mon, n>>

TaskStep(t) == (Entry(t) \/ MissStep(t) \/ Lock(t) \/ Locked(t) \/ RangeStep(t))
Next ==
  \/ /\ Alone /\ pc[0] = "idle"
     /\ \E o \in SeqCalls : Start(0, o) /\ hist' = (IF Script THEN Append(hist, o) ELSE hist)
  \/ /\ Alone /\ UNCHANGED hist /\ TaskStep(0)
  \/ /\ Alone /\ UNCHANGED hist /\ pc[0] = "norm" /\ Go(0, "idle") /\ Rest
  \/ /\ Alone /\ pc[0] = "idle" /\ N > 0
     /\ n' = [t \in Tasks |-> IF t = 0 THEN 0 ELSE N]
     /\ UNCHANGED <<rm, amended, dirty, hasDirty, misses, mu, ent, pc, op, rd, e, p, todo, mon, hist>>
  \/ /\ n[0] = 0 /\ UNCHANGED hist
     /\ \E t \in 1..T : \/ pc[t] = "idle" /\ n[t] > 0 /\ \E o \in ConcCalls(t) : Start(t, o)
                        \/ TaskStep(t)
  \/ /\ n[0] = 0 /\ AllIdle /\ (\A t \in 1..T : n[t] = 0) /\ UNCHANGED vars

\* the calls that lead to a state at rest
Emit == (Script /\ Alone /\ pc[0] = "idle") => PrintT(<<"SCRIPT", ToJson(hist)>>)

------------------------------------------------------------------------------
Judged == mon # {}
\* when nothing runs, the structure holds what the operations have left behind
Holds(k) == LET x == IF rm[k] # 0 THEN rm[k] ELSE IF amended THEN dirty[k] ELSE 0
            IN IF x = 0 \/ ~IsVal(ent[x]) THEN Absent ELSE ent[x][1]
Contents == AllIdle => \E c \in mon : c.o = [k \in Keys |-> Holds(k)]
\* the structure when nobody holds the lock
Structure ==
  mu = -1 =>
    /\ amended = hasDirty
    /\ ~hasDirty => dirty = NoMap
    /\ misses = 0 \/ (hasDirty /\ misses < Size(dirty))
    /\ \A k \in Keys : rm[k] # 0 /\ hasDirty => dirty[k] = (IF ent[rm[k]] = Expunged THEN 0 ELSE rm[k])
    /\ \A k \in Keys : rm[k] # 0 /\ ent[rm[k]] = Expunged => hasDirty
=============================================================================
