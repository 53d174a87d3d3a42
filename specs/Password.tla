------------------------------ MODULE Password ------------------------------
(* Which passwords are accepted.  pw is a sequence of bytes, flags a set of
   "N", "LorU", "L", "U", "S" given as a number.                             *)
EXTENDS Integers, Sequences
Has(flag, bit) == (flag \div bit) % 2 = 1
N(f) == Has(f, 1)   LorU(f) == Has(f, 2)   L(f) == Has(f, 4)   U(f) == Has(f, 8)   S(f) == Has(f, 16)
Digits == 48..57
Lower == 97..122
Upper == 65..90
Letters == Lower \cup Upper
Symbols == 33..126 \ (Digits \cup Letters)
PwInit(cfg) == {0}
Accepted(e) ==
  LET chars == {e.pw[i] : i \in 1..Len(e.pw)}
      f == e.flag
      asks(flag, class) == flag <=> chars \cap class # {}
  IN /\ Len(e.pw) >= e.min
     /\ e.max = <<>> \/ Len(e.pw) <= e.max[1]
     /\ chars \subseteq 33..126
     /\ asks(N(f), Digits)
     /\ asks(S(f), Symbols)
     /\ asks(LorU(f) \/ L(f) \/ U(f), Letters)
     /\ L(f) => chars \cap Lower # {}
     /\ U(f) => chars \cap Upper # {}
PwPost(st, e) == IF e.p = 0 /\ e.res = (IF Accepted(e) THEN 1 ELSE 0) THEN {0} ELSE {}
=============================================================================
