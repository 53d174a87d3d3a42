---------------------------- MODULE AtomicError ----------------------------
(* A register of errors.  0 is no error: what it holds first, and setting that
   changes nothing.                                                          *)
EXTENDS Integers
ErrInit(cfg) == {0}
ErrPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE IF e.op = "set" THEN IF e.v = 0 THEN {st} ELSE {e.v}
  ELSE IF e.op = "load" THEN IF e.res = st THEN {st} ELSE {}
  ELSE {}
=============================================================================
