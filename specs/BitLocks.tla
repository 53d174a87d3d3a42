------------------------------ MODULE BitLocks ------------------------------
(* How bit sets are locked while several are combined.  Each set has a lock of
   many readers or one writer; a writer that waits keeps new readers out, and
   whoever was let in before it goes first.

   Tasks 1..T, N calls each: a set is changed, cleared or looked at, or several
   are combined: all of them are read-locked, one after another, then read one
   after another, then unlocked.  There must always be a task that can go on
   (TLC looks for deadlocks), and the calls must be linearizable (BitSet.tla).

   Order: "address" takes each lock once, by address (as the code does);
   "each" once, as the arguments come; "args" once for each argument.        *)
EXTENDS BitSet
CONSTANTS S, T, N, Order, Ops,
          Args  \* how many arguments there may be

Sets == 1..S
Tasks == 1..T
Byte(s) == <<0, 1, 0, 0, 0, 0, 0, s % 2>>
VARIABLES set, readers, \* readers: how often each set is read-locked
          writer, ahead,   \* writer: the task that has or waits for the lock (0: none); ahead: readers it waits for
          pc, op, locks, got, n, mon
vars == <<set, readers, writer, ahead, pc, op, locks, got, n, mon>>

Idle == [op |-> "idle"]
Init ==
  /\ set = [s \in Sets |-> Byte(s)] /\ readers = [s \in Sets |-> 0]
  /\ writer = [s \in Sets |-> 0] /\ ahead = [s \in Sets |-> 0]
  /\ pc = [t \in Tasks |-> "idle"] /\ op = [t \in Tasks |-> Idle] /\ locks = [t \in Tasks |-> <<>>]
  /\ got = [t \in Tasks |-> <<>>] /\ n = [t \in Tasks |-> N]
  /\ mon = {[o |-> [s \in Sets |-> Byte(s)], pend |-> <<>>, fin |-> <<>>]}

-----------------------------------------------------------------------------
Drop(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Effects(c, t) == LET y == Do(c.o, c.pend[t])
                 IN {[o |-> SubSeq(y.s, 1, S), pend |-> Drop(c.pend, t), fin |-> (t :> y.r) @@ c.fin]}
RECURSIVE Closure(_)
Closure(cs) == LET new == UNION {UNION {Effects(c, t) : t \in DOMAIN c.pend} : c \in cs}
               IN IF new \subseteq cs THEN cs ELSE Closure(cs \cup new)
Called(cs, t, o) == {[c EXCEPT !.pend = (t :> o) @@ @] : c \in cs}
Returned(cs, t, r) == {[c EXCEPT !.fin = Drop(@, t)] : c \in {d \in Closure(cs) : t \in DOMAIN d.fin /\ d.fin[t] = r}}

-----------------------------------------------------------------------------
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Done(t, r) == /\ Go(t, "idle") /\ op' = [op EXCEPT ![t] = Idle] /\ locks' = [locks EXCEPT ![t] = <<>>] /\ got' = [got EXCEPT ![t] = <<>>]
              /\ mon' = Returned(mon, t, r)
Operands(o) == <<o.h>> \o o.hs
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>>
           ELSE LET i == Len(s) r == Once(SubSeq(s, 1, i - 1))
                IN IF \E j \in 1..Len(r) : r[j] = s[i] THEN r ELSE Append(r, s[i])
Locks(o) == CASE Order = "args" -> Operands(o)
              [] Order = "each" -> Once(Operands(o))
              [] Order = "address" -> SortSeq(Once(Operands(o)), LAMBDA a, b : a < b)

Start(t, o) ==
  /\ n' = [n EXCEPT ![t] = @ - 1] /\ op' = [op EXCEPT ![t] = o] /\ mon' = Called(mon, t, o)
  /\ Go(t, IF o.op \in {"set", "clear"} THEN "announce" ELSE "lock")
  /\ locks' = [locks EXCEPT ![t] = Locks(o)]
  /\ UNCHANGED <<set, readers, writer, ahead, got>>

Change(t) ==
  LET s == op[t].h IN
  \/ /\ pc[t] = "announce" /\ writer[s] = 0
     /\ writer' = [writer EXCEPT ![s] = t] /\ ahead' = [ahead EXCEPT ![s] = readers[s]] /\ Go(t, "wait")
     /\ UNCHANGED <<set, readers, op, locks, got, n, mon>>
  \/ /\ pc[t] = "wait" /\ ahead[s] = 0 /\ Go(t, "change")
     /\ UNCHANGED <<set, readers, writer, ahead, op, locks, got, n, mon>>
  \* what was there is looked at, and then changed
  \/ /\ pc[t] = "change" /\ got' = [got EXCEPT ![t] = Do(set, op[t]).r] /\ Go(t, "changing")
     /\ UNCHANGED <<set, readers, writer, ahead, op, locks, n, mon>>
  \/ /\ pc[t] = "changing" /\ set' = Do(set, op[t]).s /\ Go(t, "changed")
     /\ UNCHANGED <<readers, writer, ahead, op, locks, got, n, mon>>
  \/ /\ pc[t] = "changed" /\ writer' = [writer EXCEPT ![s] = 0] /\ Done(t, got[t])
     /\ UNCHANGED <<set, readers, ahead, n>>

Look(t) ==
  LET ls == locks[t] os == Operands(op[t]) IN
  \/ /\ pc[t] = "lock" /\ ls # <<>> /\ writer[Head(ls)] = 0
     /\ readers' = [readers EXCEPT ![Head(ls)] = @ + 1] /\ locks' = [locks EXCEPT ![t] = Tail(ls)]
     /\ IF Tail(ls) = <<>> THEN Go(t, "read") ELSE UNCHANGED pc
     /\ UNCHANGED <<set, writer, ahead, op, got, n, mon>>
  \/ /\ pc[t] = "read" /\ Len(got[t]) < Len(os) /\ got' = [got EXCEPT ![t] = Append(@, set[os[Len(@) + 1]])]
     /\ IF Len(got'[t]) = Len(os) THEN Go(t, "unlock") /\ locks' = [locks EXCEPT ![t] = Locks(op[t])] ELSE UNCHANGED <<pc, locks>>
     /\ UNCHANGED <<set, readers, writer, ahead, op, n, mon>>
  \/ /\ pc[t] = "unlock" /\ ls # <<>>
     /\ LET s == Head(ls) IN
        /\ readers' = [readers EXCEPT ![s] = @ - 1] /\ ahead' = [ahead EXCEPT ![s] = IF @ > 0 THEN @ - 1 ELSE 0]
     /\ IF Tail(ls) # <<>> THEN locks' = [locks EXCEPT ![t] = Tail(ls)] /\ UNCHANGED <<pc, op, got, mon>>
        ELSE \* what was read, as sets of their own
             LET me == op[t]
                 k == Len(got[t])
             IN Done(t, Do(got[t], [me EXCEPT !.h = 1, !.hs = [i \in 1..k - 1 |-> i + 1]]).r)
     /\ UNCHANGED <<set, writer, n>>

Calls == {[op |-> o, h |-> s, hs |-> <<>>, off |-> 0, v |-> 1] : o \in Ops \cap {"set", "clear", "get"}, s \in Sets}
         \cup {[op |-> o, h |-> s, hs |-> hs, off |-> 0, v |-> 0] : o \in Ops \cap {"and", "or", "xor", "andnot"}, s \in Sets,
                                                                   hs \in UNION {[1..k -> Sets] : k \in 1..Args}}
\* the tasks are alike: let them begin in order
Next == \/ \E t \in Tasks : pc[t] = "idle" /\ n[t] > 0 /\ (t > 1 => n[t - 1] < N) /\ \E o \in Calls : Start(t, o)
        \/ \E t \in Tasks : Change(t) \/ Look(t)
        \/ (\A t \in Tasks : pc[t] = "idle" /\ n[t] = 0) /\ UNCHANGED vars
-----------------------------------------------------------------------------
Judged == mon # {}
\* at rest the sets are what the specification has
Contents == (\A t \in Tasks : pc[t] = "idle") => \E c \in mon : c.o = set
=============================================================================
