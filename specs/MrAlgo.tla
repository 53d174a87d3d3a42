------------------------------- MODULE MrAlgo -------------------------------
(* The algorithm of package mr (MapReduce, MapReduceVoid, ForEach, Finish,
   FinishVoid), step by step: the goroutines it starts, the channels between
   them, the select statements, the once functions.  The functions passed to it
   follow scripts, all those of the sets below.  Every behaviour is judged by
   MapReduce.tla, for all of C04 .. C08 at once: what a call may do, and (as
   deadlocks) that it returns and leaves nothing running.

   Processes: 1..N the goroutines of the mappers, and those named below.     *)
EXTENDS MapReduce, TLC
CONSTANTS Kinds,     \* which functions of the package
          Ns, Ws,    \* numbers of items and of workers
          GenEnds,   \* what the generator does after its items: 0 return, v > 0 panic with v
          MapOps,    \* what a mapper may do: "" nothing, "w" write, "c" cancel, "p" panic, "x" the context gets done, and combinations
          RedOps,    \* what the reducer may do: also "r" receive, "R" receive all, "q" wait until nothing else can run
          Ctxs       \* 0: no context, 1: one that gets done at any time, 2: one that is done already
          
Gen == 101    \* runs generate
Exec == 102   \* executeMappers
Red == 103    \* runs the reducer
Caller == 104
Ender == 105  \* makes the context done
Max == 3

Procs == 1..Max \cup {Gen, Exec, Red, Caller, Ender}

VARIABLES conf,  \* the scenario
          pc, ip, arg, \* of the processes: where it is, the position in its script, a value
          src,   \* "open" or "closed"
          pool,  \* how many workers there are
          wg,    \* how many mappers have not ended
          coll, collClosed, \* the collector
          done,
          pch, wrote, \* the channel for panics: 0 or a value; whether there has been one
          failed,
          once, err, \* the once function for cancelling, the error
          ctx,   \* whether the context is done
          res,   \* the outcome of the call
          mon    \* the states of MapReduce.tla
vars == <<conf, pc, ip, arg, src, pool, wg, coll, collClosed, done, pch, wrote, failed, once, err, ctx, res, mon>>

Script(op) == CASE op = "" -> <<>> [] op = "w" -> <<"w">> [] op = "c" -> <<"c">> [] op = "p" -> <<"p">> [] op = "x" -> <<"x">>
                [] op = "ww" -> <<"w", "w">> [] op = "wc" -> <<"w", "c">> [] op = "cw" -> <<"c", "w">> [] op = "wp" -> <<"w", "p">> [] op = "cp" -> <<"c", "p">>
                [] op = "r" -> <<"r">> [] op = "R" -> <<"R">> [] op = "Rw" -> <<"R", "w">> [] op = "rw" -> <<"r", "w">> [] op = "wR" -> <<"w", "R">>
                [] op = "Rww" -> <<"R", "w", "w">> [] op = "Rc" -> <<"R", "c">> [] op = "rc" -> <<"r", "c">> [] op = "Rp" -> <<"R", "p">> [] op = "rp" -> <<"r", "p">>
                [] op = "qw" -> <<"q", "w">> [] op = "Rqw" -> <<"R", "q", "w">> [] op = "rqw" -> <<"r", "q", "w">> [] op = "cqw" -> <<"c", "q", "w">>
                [] op = "xw" -> <<"x", "w">> [] op = "Rxw" -> <<"R", "x", "w">> [] op = "wx" -> <<"w", "x">>

IsRed(k) == k \in {"mr", "void"}
Allowed1(ops, k, reducer) ==
  \A i \in 1..Len(Script(ops)) :
    LET o == Script(ops)[i] IN
    CASE k = "mr" -> TRUE
      [] k = "void" -> ~(reducer /\ o = "w")
      [] k = "finish" -> o \in {"c", "p"}
      [] OTHER -> o \in {"p", "x"}

Confs == UNION {UNION {UNION {{[kind |-> k, n |-> n, w |-> w, ge |-> g, m |-> m, r |-> r, ctx |-> c] :
            g \in (IF k \in {"finish", "finishvoid"} THEN {0} ELSE GenEnds),
            c \in (IF k \in {"finish", "finishvoid"} THEN {0} ELSE Ctxs),
            m \in [1..n -> {o \in MapOps : Allowed1(o, k, FALSE)}],
            r \in (IF IsRed(k) THEN {o \in RedOps : Allowed1(o, k, TRUE)} ELSE {""})}
         : w \in (IF k \in {"finish", "finishvoid"} THEN {n} ELSE Ws)} : n \in (IF k \in {"finish", "finishvoid"} THEN Ns \ {0} ELSE Ns)} : k \in Kinds}

Init ==
  /\ conf \in Confs
  /\ LET has == [p \in Procs |-> CASE p = Gen -> "g" [] p = Exec -> "x" [] p = Red -> IF conf.kind \in {"mr", "void", "finish"} THEN "u" ELSE "end"
                                   [] p = Caller -> "sel" [] p = Ender -> IF conf.ctx = 1 THEN "e" ELSE "end" [] OTHER -> "off"]
     IN pc = has
  /\ ip = [p \in Procs |-> 1] /\ arg = [p \in Procs |-> 0]
  /\ src = "open" /\ pool = 0 /\ wg = 0 /\ coll = <<>> /\ collClosed = FALSE /\ done = FALSE
  /\ pch = 0 /\ wrote = FALSE /\ failed = FALSE /\ once = 0 /\ err = -1 /\ ctx = (conf.ctx = 2) /\ res = <<>>
  /\ mon = LET S == MrInit([prop |-> "", kind |-> conf.kind, workers |-> conf.w, given |-> IF conf.kind \in {"finish", "finishvoid"} THEN conf.n ELSE 0,
                             fns |-> IF conf.kind \in {"finish", "finishvoid"} THEN 1 ELSE 0])
           IN IF conf.ctx = 2 THEN {[s EXCEPT !.ctx0 = TRUE, !.ctx1 = TRUE] : s \in S} ELSE S

\* an event, judged for each of the properties
Props == {"C04", "C05", "C06", "C07", "C08"}
Ev(e) == mon' = {[s2 EXCEPT !.prop = ""] : s2 \in {s1 \in UNION {MrPost(s, e) : s \in mon} : \A s \in mon, p \in Props : Allowed([s EXCEPT !.prop = p], e)}}
E(k, i, v) == Ev([k |-> k, i |-> i, v |-> v])
Quiet == UNCHANGED mon

Go(p, l) == pc' = [pc EXCEPT ![p] = l]

------------------------------------------------------------------------------
\* the script of p and what comes after it
Ops(p) == CASE p = Red -> Script(conf.r) [] OTHER -> Script(conf.m[p])
V(p) == (IF p = Red THEN 90 ELSE p * 10) + ip[p]   \* the value that it writes; errors and panics are different ones, too

\* what is not named stays as it is
Same(S) == /\ IF "src" \in S THEN TRUE ELSE UNCHANGED src
           /\ IF "pool" \in S THEN TRUE ELSE UNCHANGED pool
           /\ IF "wg" \in S THEN TRUE ELSE UNCHANGED wg
           /\ IF "coll" \in S THEN TRUE ELSE UNCHANGED <<coll, collClosed>>
           /\ IF "done" \in S THEN TRUE ELSE UNCHANGED done
           /\ IF "pch" \in S THEN TRUE ELSE UNCHANGED <<pch, wrote>>
           /\ IF "failed" \in S THEN TRUE ELSE UNCHANGED failed
           /\ IF "once" \in S THEN TRUE ELSE UNCHANGED once
           /\ IF "err" \in S THEN TRUE ELSE UNCHANGED err
           /\ IF "ctx" \in S THEN TRUE ELSE UNCHANGED ctx
           /\ IF "res" \in S THEN TRUE ELSE UNCHANGED res
           /\ IF "ip" \in S THEN TRUE ELSE UNCHANGED ip
           /\ IF "arg" \in S THEN TRUE ELSE UNCHANGED arg
           /\ UNCHANGED conf

------------------------------------------------------------------------------
\* the generator
GenStep ==
  \/ /\ pc[Gen] = "g" /\ conf.kind \in {"finish", "finishvoid"}  \* the package's own generator: no events
     /\ Go(Gen, IF ip[Gen] <= conf.n THEN "send" ELSE "gclose") /\ Quiet /\ Same({})
  \/ /\ pc[Gen] = "g" /\ conf.kind \notin {"finish", "finishvoid"}
     /\ IF ip[Gen] <= conf.n THEN E("offer", ip[Gen], 0) /\ Go(Gen, "send")
        ELSE IF conf.ge > 0 THEN E("panic", 0, conf.ge) /\ Go(Gen, "gpanic")
        ELSE E("genend", 0, 0) /\ Go(Gen, "gclose")
     /\ Same({})
  \/ /\ pc[Gen] = "gpanic" /\ Go(Gen, "gclose") /\ Quiet   \* panicChan.write
     /\ pch' = (IF wrote THEN pch ELSE conf.ge) /\ wrote' = TRUE /\ Same({"pch"})
  \/ /\ pc[Gen] = "gclose" /\ src' = "closed" /\ Go(Gen, "end") /\ Quiet /\ Same({"src"})

\* p receives from source: the generator goes on
Taken(p, l) == /\ pc[Gen] = "send" /\ pc' = [pc EXCEPT ![Gen] = "g", ![p] = l] /\ ip' = [ip EXCEPT ![Gen] = @ + 1]

\* drain(source): from p at l; when source is closed to l2
DrainSrc(p, l, l2) ==
  /\ pc[p] = l /\ Quiet
  /\ \/ Taken(p, l) /\ Same({"ip"})
     \/ src = "closed" /\ Go(p, l2) /\ Same({})

------------------------------------------------------------------------------
\* cancel(e) called by p, to return to l
CancelSteps(p, l) ==
  \/ /\ pc[p] = "c1" /\ Quiet /\ Same({"once"})
     /\ \/ once = 0 /\ once' = p /\ Go(p, "c2")
        \/ once = 999 /\ UNCHANGED once /\ Go(p, l)
  \/ /\ pc[p] = "c2" /\ err' = arg[p] /\ Go(p, "c3") /\ Quiet /\ Same({"err"})
  \/ DrainSrc(p, "c3", "c4")
  \/ /\ pc[p] = "c4" /\ done' = TRUE /\ Go(p, "c5") /\ Quiet /\ Same({"done"})
  \/ /\ pc[p] = "c5" /\ once' = 999 /\ Go(p, l) /\ Quiet /\ Same({"once"})

\* the user code of mapper or reducer p
User(p) ==
  LET ops == Ops(p)
      o == ops[ip[p]]
      next == [ip EXCEPT ![p] = @ + 1]
  IN
  \/ /\ pc[p] = "u" /\ ip[p] > Len(ops) /\ Go(p, "ret") /\ arg' = [arg EXCEPT ![p] = 0] /\ Same({"arg"})
     /\ IF p = Red THEN (IF conf.kind = "finish" THEN Quiet ELSE E("rend", 0, 0)) ELSE E("mend", p, 0)
  \/ /\ pc[p] = "u" /\ ip[p] <= Len(ops)
     /\ \/ /\ o = "w" /\ E(IF p = Red THEN "rwrite" ELSE "mwrite", p, V(p)) /\ Go(p, "w1") /\ arg' = [arg EXCEPT ![p] = V(p)] /\ Same({"arg"})
        \/ /\ o = "c" /\ E("cancel", 0, V(p)) /\ arg' = [arg EXCEPT ![p] = V(p)] /\ Same({"arg"})
           /\ Go(p, IF conf.kind = "finish" THEN "cret" ELSE "c1")
        \/ /\ o = "p" /\ E("panic", 0, V(p)) /\ Go(p, "upanic") /\ arg' = [arg EXCEPT ![p] = V(p)] /\ Same({"arg"})
        \/ /\ o = "x" /\ (IF conf.ctx = 0 THEN Quiet ELSE E("ctx0", 0, 0)) /\ Go(p, "x1") /\ Same({})
        \/ /\ o \in {"r", "R"} /\ coll # <<>> /\ coll' = Tail(coll) /\ UNCHANGED collClosed
           /\ E("rread", 0, Head(coll)) /\ UNCHANGED pc /\ ip' = (IF o = "r" THEN next ELSE ip) /\ Same({"coll", "ip"})
        \/ /\ o \in {"r", "R"} /\ coll = <<>> /\ collClosed /\ E("rclosed", 0, 0) /\ UNCHANGED pc /\ ip' = next /\ Same({"ip"})
  \* the context gets done
  \/ /\ pc[p] = "x1" /\ ctx' = (conf.ctx > 0) /\ Go(p, "x2") /\ Quiet /\ Same({"ctx"})
  \/ /\ pc[p] = "x2" /\ (IF conf.ctx = 0 THEN Quiet ELSE E("ctx1", 0, 0)) /\ Go(p, "u") /\ ip' = next /\ Same({"ip"})
  \* a panic: the function ends
  \/ /\ pc[p] = "upanic" /\ (IF p = Red THEN E("rend", 0, 0) ELSE E("mend", p, 0)) /\ Go(p, "ret") /\ Same({})
  \* Write, the first select
  \/ /\ pc[p] = "w1" /\ (IF ctx \/ done THEN Go(p, "u") /\ ip' = next ELSE Go(p, "w2") /\ UNCHANGED ip) /\ Quiet /\ Same({"ip"})
  \* the second one; the reducer's value is taken by the caller
  \/ /\ pc[p] = "w2" /\ done /\ Go(p, "u") /\ ip' = next /\ Quiet /\ Same({"ip"})
  \/ /\ pc[p] = "w2" /\ p # Red /\ Len(coll) < conf.w /\ coll' = Append(coll, arg[p]) /\ UNCHANGED collClosed
     /\ Go(p, "u") /\ ip' = next /\ Quiet /\ Same({"coll", "ip"})
  \/ CancelSteps(p, "cret")
  \/ /\ pc[p] = "cret" /\ ip[p] <= Len(ops) /\ E("cancelled", 0, V(p)) /\ Go(p, "u") /\ ip' = next /\ Same({"ip"})

\* the last error of a function passed to Finish
Last(p) == LET o == Script(conf.m[p])
               c == {i \in 1..Len(o) : o[i] = "c"}
           IN IF c = {} THEN 0 ELSE p * 10 + CHOOSE i \in c : \A j \in c : j <= i

MapStep(p) ==
  \/ /\ pc[p] = "start" /\ E("mstart", p, 0) /\ Go(p, "u") /\ Same({})
  \/ User(p)
  \* Finish cancels with the error returned; a panic goes on to the deferred function
  \/ /\ pc[p] = "ret" /\ Quiet
     /\ IF arg[p] > 0 THEN Go(p, "mp1") /\ Same({})
        ELSE IF conf.kind = "finish" /\ Last(p) > 0 THEN Go(p, "c1") /\ arg' = [arg EXCEPT ![p] = Last(p)] /\ Same({"arg"})
        ELSE Go(p, "m1") /\ Same({})
  \/ /\ pc[p] = "mp1" /\ failed' = TRUE /\ Go(p, "mp2") /\ Quiet /\ Same({"failed"})
  \/ /\ pc[p] = "mp2" /\ pch' = (IF wrote THEN pch ELSE arg[p]) /\ wrote' = TRUE /\ Go(p, "m1") /\ Quiet /\ Same({"pch"})
  \/ /\ pc[p] = "m1" /\ wg' = wg - 1 /\ Go(p, "m2") /\ Quiet /\ Same({"wg"})
  \/ /\ pc[p] = "m2" /\ pool' = pool - 1 /\ Go(p, "end") /\ Quiet /\ Same({"pool"})

\* Finish: cancel returns to the end of the mapper
MapFinish(p) == /\ conf.kind = "finish" /\ pc[p] = "cret" /\ ip[p] > Len(Ops(p)) /\ Go(p, "m1") /\ Quiet /\ Same({})

RedStep ==
  \/ User(Red)
  \* the deferred function: drain(collector), then the panic
  \/ /\ pc[Red] = "ret" /\ Quiet
     /\ \/ coll # <<>> /\ coll' = Tail(coll) /\ UNCHANGED <<collClosed, pc>> /\ Same({"coll"})
        \/ coll = <<>> /\ collClosed /\ Go(Red, "r1") /\ Same({})
  \/ /\ pc[Red] = "r1" /\ Quiet /\ Go(Red, "r2") /\ Same({"pch"})
     /\ pch' = (IF wrote \/ arg[Red] = 0 THEN pch ELSE arg[Red]) /\ wrote' = (wrote \/ arg[Red] > 0)
  \/ /\ pc[Red] = "r2" /\ done' = TRUE /\ Go(Red, "end") /\ Quiet /\ Same({"done"})

ExecStep ==
  \/ /\ pc[Exec] = "x" /\ Go(Exec, IF failed THEN "x3" ELSE "x1") /\ Quiet /\ Same({})
  \/ /\ pc[Exec] = "x1" /\ (ctx \/ (done /\ conf.kind \notin {"foreach", "finishvoid"})) /\ Go(Exec, "x3") /\ Quiet /\ Same({})
  \/ /\ pc[Exec] = "x1" /\ pool < conf.w /\ pool' = pool + 1 /\ Go(Exec, "x2") /\ Quiet /\ Same({"pool"})
  \/ /\ pc[Exec] = "x2" /\ src = "closed" /\ pool' = pool - 1 /\ Go(Exec, "x3") /\ Quiet /\ Same({"pool"})
  \/ /\ pc[Exec] = "x2" /\ pc[Gen] = "send" /\ pc' = [pc EXCEPT ![Gen] = "g", ![Exec] = "x", ![ip[Gen]] = "start"]
     /\ ip' = [ip EXCEPT ![Gen] = @ + 1] /\ wg' = wg + 1 /\ Quiet /\ Same({"ip", "wg"})
  \/ /\ pc[Exec] = "x3" /\ wg = 0 /\ Go(Exec, "x4") /\ Quiet /\ Same({})
  \/ /\ pc[Exec] = "x4" /\ collClosed' = TRUE /\ UNCHANGED coll /\ Go(Exec, "x5") /\ Quiet /\ Same({"coll"})
  \/ DrainSrc(Exec, "x5", "end")

\* the reducer's value is taken by the caller, at l; only while done is open can one of them be waiting for the other
TakeOutput(l) ==
  /\ pc[Red] = "w2" /\ ~done
  /\ pc' = [pc EXCEPT ![Red] = "u", ![Caller] = l]
  /\ ip' = [ip EXCEPT ![Red] = @ + 1]
  /\ arg' = [arg EXCEPT ![Caller] = arg[Red]]

Return(o, v) == Go(Caller, "end") /\ res' = <<o, v>> /\ Ev([k |-> "ret", o |-> o, v |-> v, i |-> 0])

\* the outcome, for the kinds
ReturnErr(e) == IF e = -2 THEN (IF conf.kind = "mr" THEN Return("none", 0) ELSE Return("ok", 0))
                ELSE IF e = -3 THEN Return("dead", 0)
                ELSE Return("err", e)

CallStep ==
  IF conf.kind \in {"foreach", "finishvoid"} THEN
    \/ /\ pc[Caller] = "sel" /\ pch > 0 /\ pch' = 0 /\ UNCHANGED wrote /\ Return("panic", pch) /\ Same({"pch", "res"})
    \/ /\ pc[Caller] = "sel" /\ collClosed /\ Go(Caller, "rethrow") /\ Quiet /\ Same({})
    \/ /\ pc[Caller] = "rethrow" /\ pch' = 0 /\ UNCHANGED wrote /\ Same({"pch", "res"})
       /\ IF pch > 0 THEN Return("panic", pch) ELSE Return("ok", 0)
  ELSE
    \* the select at the end of mapReduceWithPanicChan
    \/ /\ pc[Caller] = "sel" /\ ctx /\ Go(Caller, "c1") /\ arg' = [arg EXCEPT ![Caller] = -3] /\ Quiet /\ Same({"arg"})
    \/ CancelSteps(Caller, "def")
    \/ /\ pc[Caller] = "sel" /\ pch > 0 /\ pch' = 0 /\ UNCHANGED wrote /\ Go(Caller, "pdrain") /\ arg' = [arg EXCEPT ![Caller] = pch] /\ Quiet /\ Same({"pch", "arg"})
    \/ /\ pc[Caller] = "sel" /\ TakeOutput("out") /\ Quiet /\ Same({"ip", "arg"})
    \/ /\ pc[Caller] = "sel" /\ done /\ Go(Caller, "done1") /\ Quiet /\ Same({})
    \* after a panic: throw away what the reducer writes
    \/ /\ pc[Caller] = "pdrain" /\ pc[Red] = "w2" /\ ~done /\ pc' = [pc EXCEPT ![Red] = "u"] /\ ip' = [ip EXCEPT ![Red] = @ + 1] /\ Quiet /\ Same({"ip"})
    \/ /\ pc[Caller] = "pdrain" /\ done /\ Go(Caller, "pdef") /\ Quiet /\ Same({})
    \/ /\ pc[Caller] = "pdef" /\ pch' = 0 /\ UNCHANGED wrote /\ Return("panic", IF pch > 0 THEN pch ELSE arg[Caller]) /\ Same({"pch", "res"})
    \* the reducer has written arg: unless there is an error, it is the result
    \/ /\ pc[Caller] = "out" /\ Go(Caller, IF err # -1 THEN "def" ELSE "vdef") /\ arg' = [arg EXCEPT ![Caller] = IF err # -1 THEN err ELSE @] /\ Quiet /\ Same({"arg"})
    \* the end
    \/ /\ pc[Caller] = "done1" /\ Go(Caller, IF err # -1 THEN "def" ELSE "done2") /\ arg' = [arg EXCEPT ![Caller] = err] /\ Quiet /\ Same({"arg"})
    \/ /\ pc[Caller] = "done2" /\ Go(Caller, "def") /\ arg' = [arg EXCEPT ![Caller] = IF ctx THEN -3 ELSE -2] /\ Quiet /\ Same({"arg"})
    \* the deferred function; def: there is an error, vdef: a value
    \/ /\ pc[Caller] \in {"def", "vdef"} /\ pc[Red] = "w2" /\ ~done
       /\ pc' = [pc EXCEPT ![Red] = "u", ![Caller] = "more"] /\ ip' = [ip EXCEPT ![Red] = @ + 1] /\ Quiet /\ Same({"ip"})
    \/ /\ pc[Caller] = "more" /\ done' = TRUE /\ Return("panic", 0) /\ Same({"done", "res"})
    \/ /\ pc[Caller] \in {"def", "vdef"} /\ done /\ Go(Caller, IF pc[Caller] = "def" THEN "def2" ELSE "vdef2") /\ Quiet /\ Same({})
    \/ /\ pc[Caller] \in {"def2", "vdef2"} /\ pch' = 0 /\ UNCHANGED wrote /\ Same({"pch", "res"})
       /\ IF pch > 0 THEN Return("panic", pch)
          ELSE IF pc[Caller] = "def2" THEN ReturnErr(arg[Caller])
          ELSE Return("val", arg[Caller])

\* the context gets done
EndStep ==
  \/ /\ pc[Ender] = "e" /\ Go(Ender, "e1") /\ E("ctx0", 0, 0) /\ Same({})
  \/ /\ pc[Ender] = "e" /\ Go(Ender, "end") /\ Quiet /\ Same({})   \* or never
  \/ /\ pc[Ender] = "e1" /\ ctx' = TRUE /\ Go(Ender, "e2") /\ Quiet /\ Same({"ctx"})
  \/ /\ pc[Ender] = "e2" /\ E("ctx1", 0, 0) /\ Go(Ender, "end") /\ Same({})

Others == GenStep \/ ExecStep \/ CallStep \/ EndStep \/ \E p \in 1..conf.n : MapStep(p) \/ MapFinish(p)

\* the reducer waits until nothing else can run
WaitStep == /\ pc[Red] = "u" /\ ip[Red] <= Len(Ops(Red)) /\ Ops(Red)[ip[Red]] = "q" /\ ~ENABLED Others
            /\ E("quiet", 0, 0) /\ UNCHANGED pc /\ ip' = [ip EXCEPT ![Red] = @ + 1] /\ Same({"ip"})

Finished == \A p \in Procs : pc[p] \in {"end", "off"}
Next == Others \/ RedStep \/ WaitStep \/ (Finished /\ UNCHANGED vars)

\* the call does what MapReduce.tla allows
Judged == mon # {}
\* the mappers that have not been started have not got an item, and nothing is left in the channels that anybody waits for
AtEnd == Finished => res # <<>> /\ wg = 0 /\ pool = 0
=============================================================================
