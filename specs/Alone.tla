------------------------------- MODULE Alone -------------------------------
(* Calls that share no object, or only look at it, do not interfere: each has
   the outcome that it has when it runs alone, and all of them return.        *)
EXTENDS Integers, Sequences

AloneInit(cfg) == {0}
AlonePost(st, e) ==
  CASE e.op = "end" -> IF e.stuck = 0 THEN {0} ELSE {}
    [] OTHER -> IF e.now = e.alone THEN {0} ELSE {}
=============================================================================
