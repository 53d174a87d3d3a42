------------------------------ MODULE TextCheck ------------------------------
(* Checks of Text itself: combining spaces in whatever order gives one result,
   the functions are idempotent where they should be, and UTF-8 is decoded to
   what was encoded.                                                         *)
EXTENDS Text, FiniteSets
CONSTANT N
VARIABLES s, nf
Alphabet == {32, 10, 13, 9, 65}
Init == s \in UNION {[1..n -> Alphabet] : n \in 0..N} /\ nf = Normal(s)
Next == s' \in OneStep(s) /\ nf' = nf
OneResult == Normal(s) = nf /\ OneStep(nf) = {}
OnlySpaces == SelectSeq(s, LAMBDA c : c = 65) = SelectSeq(nf, LAMBDA c : c = 65)
Stable == Camel(Camel(nf)) = Camel(nf)
Edges == {0, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111, 233, 8232}
ASSUME \A c, d \in Edges : Codes(EncodeAll(<<c, d>>)) = <<c, d>> /\ \A i \in 1..2 : Chars(EncodeAll(<<c, d>>))[i].ok
ASSUME \A b \in 128..255, d \in {0, 65, 128, 191, 192, 255} : \A i \in {1} : ~(At(<<b, d>>, i).ok /\ At(<<b>>, i).ok)
ASSUME Encode(55296) = <<239, 191, 189>> /\ Codes(<<237, 160, 128>>) = <<65533, 65533, 65533>> /\ Codes(<<192, 128, 65>>) = <<65533, 65533, 65>>
\* the law of Whole: parts that are apart do not matter to each other
Made(op, t) ==
  CASE op = "space" -> Normal(t) [] op = "indent" -> Indented(t, <<9, 10>>) [] op = "camel" -> Camel(t)
    [] op = "snake" -> LowerBytes(Chars(SnakeFrom(t, 1, FALSE, <<>>)), 1, TRUE, <<>>)
    [] op = "lint" -> EncodeAll(Lint(Codes(t))) [] op = "html" -> Html(t, 10) [] op = "code" -> CodePoint(t, 10)
Signs(op) ==
  CASE op = "space" -> {32, 10, 13, 120} [] op = "indent" -> {10, 13, 97}
    [] op \in {"camel", "snake", "lint"} -> {97, 66, 95, 49, 195} [] op = "html" -> {38, 35, 54, 59, 32} [] op = "code" -> {92, 117, 54, 32}
PartsOf(op) == {t \in UNION {[1..n -> Signs(op)] : n \in 1..4} : Apart(op, t)}
ASSUME \A op \in {"space", "indent", "camel", "snake", "lint", "html", "code"} :
  \A a, b \in PartsOf(op) : Made(op, a \o b) = Whole(op, <<Made(op, a), Made(op, b)>>)
=============================================================================
