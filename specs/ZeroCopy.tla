------------------------------ MODULE ZeroCopy ------------------------------
(* Conversions between strings and byte slices that share memory.  The state is
   the memory, arrays of bytes, and the headers made so far: each an array, an
   offset and a length.  A conversion makes a header of the same bytes; a write
   through a slice shows in everything that shares the array.                *)
EXTENDS Integers, Sequences, TLC
\* st = [mem |-> <<array>>, hd |-> <<[a, o, n]>>]
ZcInit(cfg) == {[mem |-> cfg.arrays, hd |-> <<>>]}
BytesAt(st, h) == SubSeq(st.mem[h.a], h.o + 1, h.o + h.n)
Known(st, i) == i \in 1..Len(st.hd)
With(st, h) == [st EXCEPT !.hd = Append(@, h)]
ZcPost(st, e) ==
  IF e.p # 0 THEN {}
  ELSE CASE e.op = "cut" -> LET h == [a |-> e.a, o |-> e.o, n |-> e.n] IN IF e.res = BytesAt(st, h) THEN {With(st, h)} ELSE {}
         \* same: the results starts at the same address (of an empty one nothing is said)
         [] e.op \in {"toString", "toSlice"} -> LET h == st.hd[e.h] IN IF e.res = BytesAt(st, h) /\ e.len = h.n /\ (h.n > 0 => e.same = 1) THEN {With(st, h)} ELSE {}
         [] e.op = "write" -> LET h == st.hd[e.h] IN {[st EXCEPT !.mem[h.a][(h.o + 1) + e.i] = e.v]}
         [] e.op = "read" -> IF e.res = BytesAt(st, st.hd[e.h]) THEN {st} ELSE {}
         \* what is appended to a slice made of a string never lands in memory of others
         [] e.op = "append" -> IF e.res = Append(BytesAt(st, st.hd[e.h]), e.v) THEN {st} ELSE {}
=============================================================================
