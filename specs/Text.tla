-------------------------------- MODULE Text --------------------------------
(* The text functions of stringx, over sequences of bytes.                   *)
EXTENDS Utf8
TextInit(cfg) == {0}
IsPrefixAt(p, s, i) == (i + Len(p)) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[(i + k) - 1] = p[k]

------------------------------------------------------------------------------
\* StringMarshalJSON
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
\* the code point that the escape sequence at position i of r means, and its length; n = 0: none
Escape(r, i) ==
  LET none == [c |-> -1, n |-> 0]
      short == [x \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE x = 34 -> 34 [] x = 92 -> 92 [] x = 47 -> 47 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9]
  IN IF i + 1 > Len(r) \/ r[i] # 92 THEN none
     ELSE IF r[i + 1] \in DOMAIN short THEN [c |-> short[r[i + 1]], n |-> 2]
     ELSE IF r[i + 1] # 117 \/ i + 5 > Len(r) THEN none
     ELSE IF \E k \in 2..5 : HexVal(r[i + k]) < 0 THEN none
     ELSE [c |-> (4096 * HexVal(r[i + 2])) + (256 * HexVal(r[i + 3])) + (16 * HexVal(r[i + 4])) + HexVal(r[i + 5]), n |-> 6]
MustEscape(c, html) == c < 32 \/ c \in {34, 92, 8232, 8233} \/ (html /\ c \in {60, 62, 38})
\* r, from position j, is the JSON of the characters of cs from the k-th on, and the closing quote
RECURSIVE JsonFrom(_, _, _, _, _)
JsonFrom(cs, k, r, j, html) ==
  IF k > Len(cs) THEN j = Len(r) /\ r[j] = 34
  ELSE IF j > Len(r) THEN FALSE
  ELSE LET u == cs[k]
           raw == Encode(u.c)
           x == Escape(r, j)
       IN IF MustEscape(u.c, html) THEN x.n > 0 /\ x.c = u.c /\ JsonFrom(cs, k + 1, r, j + x.n, html)
          ELSE IF ~u.ok /\ x.n > 0 THEN x.c = u.c /\ JsonFrom(cs, k + 1, r, j + x.n, html)
          ELSE IsPrefixAt(raw, r, j) /\ JsonFrom(cs, k + 1, r, j + Len(raw), html)
JsonOf(s, r, html) == Len(r) >= 2 /\ r[1] = 34 /\ JsonFrom(Chars(s), 1, r, 2, html)

------------------------------------------------------------------------------
\* Indent: the prefix in front of every line; what ends with a newline has no line after it
RECURSIVE IndentFrom(_, _, _, _)
IndentFrom(s, p, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IndentFrom(s, p, i + 1, (acc \o <<s[i]>>) \o (IF s[i] = 10 /\ i < Len(s) THEN p ELSE <<>>))
Indented(s, p) == p \o IndentFrom(s, p, 1, <<>>)

\* SpaceInOne: the pairs of space characters that are combined, and into what
Rules == <<
  <<<<32, 32>>, <<32>>>>, <<<<10, 10>>, <<10>>>>, <<<<13, 13>>, <<13>>>>, <<<<9, 9>>, <<9>>>>, <<<<13, 10, 13, 10>>, <<13, 10>>>>,
  <<<<32, 10>>, <<10>>>>, <<<<9, 10>>, <<10>>>>, <<<<32, 9>>, <<9>>>>, <<<<9, 32>>, <<9>>>>, <<<<11, 11>>, <<11>>>>, <<<<12, 12>>, <<12>>>>,
  <<<<194, 133, 194, 133>>, <<194, 133>>>>, <<<<194, 160, 194, 160>>, <<194, 160>>>>>>
Applies(s, i) == {k \in 1..Len(Rules) : IsPrefixAt(Rules[k][1], s, i)}
Rewritten(s, i, k) == (SubSeq(s, 1, i - 1) \o Rules[k][2]) \o SubSeq(s, i + Len(Rules[k][1]), Len(s))
\* all that one combination leads to
OneStep(s) == UNION {{Rewritten(s, i, k) : k \in Applies(s, i)} : i \in 1..Len(s)}
\* the text with nothing left to combine (whatever is combined first: see SpaceCheck)
RECURSIVE NormalFrom(_, _)
NormalFrom(s, i) ==
  IF i > Len(s) THEN s
  ELSE LET a == Applies(s, i) IN
       IF a = {} THEN NormalFrom(s, i + 1)
       ELSE LET t == TLCEval(Rewritten(s, i, CHOOSE k \in a : TRUE)) IN NormalFrom(t, IF i > 3 THEN i - 3 ELSE 1)
Normal(s) == NormalFrom(s, 1)

------------------------------------------------------------------------------
\* Case.  Letters beyond ASCII: those of the table, each with its lower and upper case, and
\* whether it is a lower case letter; other code points have no case.
Cases == <<
  [c |-> 233, lo |-> 233, up |-> 201, low |-> TRUE],  [c |-> 201, lo |-> 233, up |-> 201, low |-> FALSE],   \* e acute
  [c |-> 223, lo |-> 223, up |-> 223, low |-> TRUE],                                                         \* sharp s
  [c |-> 304, lo |-> 105, up |-> 304, low |-> FALSE], [c |-> 305, lo |-> 305, up |-> 73, low |-> TRUE],      \* dotted I, dotless i
  [c |-> 383, lo |-> 383, up |-> 83, low |-> TRUE],   [c |-> 8490, lo |-> 107, up |-> 8490, low |-> FALSE],  \* long s, Kelvin sign
  [c |-> 453, lo |-> 454, up |-> 452, low |-> FALSE],                                                        \* Dz with caron, in title case
  [c |-> 454, lo |-> 454, up |-> 452, low |-> TRUE],  [c |-> 452, lo |-> 454, up |-> 452, low |-> FALSE],
  [c |-> 1078, lo |-> 1078, up |-> 1046, low |-> TRUE], [c |-> 1046, lo |-> 1078, up |-> 1046, low |-> FALSE], \* zhe
  [c |-> 955, lo |-> 955, up |-> 923, low |-> TRUE],  [c |-> 923, lo |-> 955, up |-> 923, low |-> FALSE],    \* lambda
  [c |-> 66600, lo |-> 66600, up |-> 66560, low |-> TRUE], [c |-> 170, lo |-> 170, up |-> 170, low |-> FALSE]>> \* Deseret long I, ordinal
InCases(c) == c > 127 /\ \E i \in 1..Len(Cases) : Cases[i].c = c
Case(c) == Cases[CHOOSE i \in 1..Len(Cases) : Cases[i].c = c]
AsciiUpper(c) == c \in 65..90
AsciiLower(c) == c \in 97..122
ToLo(c) == IF AsciiUpper(c) THEN c + 32 ELSE IF InCases(c) THEN Case(c).lo ELSE c
ToUp(c) == IF AsciiLower(c) THEN c - 32 ELSE IF InCases(c) THEN Case(c).up ELSE c
IsLo(c) == AsciiLower(c) \/ (InCases(c) /\ Case(c).low)
DigitC(c) == c \in 48..57 \/ c \in 1632..1641
Underscore == 95

\* SnakeString, before lower-casing
RECURSIVE SnakeFrom(_, _, _, _)
SnakeFrom(s, i, armed, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF AsciiUpper(s[i]) THEN SnakeFrom(s, i + 1, FALSE, IF armed THEN acc \o <<Underscore, s[i]>> ELSE Append(acc, s[i]))
  ELSE SnakeFrom(s, i + 1, armed \/ s[i] # Underscore, Append(acc, s[i]))
LowerAll(cs) == [i \in 1..Len(cs) |-> ToLo(cs[i])]
RECURSIVE LowerBytes(_, _, _, _)
LowerBytes(cs, i, keep, acc) ==
  IF i > Len(cs) THEN acc
  ELSE LowerBytes(cs, i + 1, keep, acc \o (IF ~cs[i].ok /\ keep THEN cs[i].b ELSE Encode(ToLo(cs[i].c))))
\* an invalid byte may stay or be replaced by U+FFFD
Snakes(s) == LET cs == Chars(TLCEval(SnakeFrom(s, 1, FALSE, <<>>))) IN {LowerBytes(cs, 1, TRUE, <<>>), LowerBytes(cs, 1, FALSE, <<>>)}

\* CamelString
Letter(b) == AsciiLower(b) \/ AsciiUpper(b)
Up(b) == IF AsciiLower(b) THEN b - 32 ELSE b
RECURSIVE CamelFrom(_, _, _, _)
CamelFrom(s, i, seen, acc) ==  \* seen: a letter occurred
  IF i > Len(s) THEN acc
  ELSE IF ~seen /\ Letter(s[i]) THEN CamelFrom(s, i + 1, TRUE, Append(acc, Up(s[i])))
  ELSE IF seen /\ s[i] = Underscore /\ i < Len(s) /\ AsciiLower(s[i + 1]) THEN CamelFrom(s, i + 2, TRUE, Append(acc, Up(s[i + 1])))
  ELSE CamelFrom(s, i + 1, seen, Append(acc, s[i]))
Camel(s) == CamelFrom(s, 1, FALSE, <<>>)

\* LintCamelString, over code points
Initialisms == {
  <<65, 67, 76>>, <<65, 80, 73>>, <<65, 83, 67, 73, 73>>, <<67, 80, 85>>, <<67, 83, 83>>, <<68, 78, 83>>, <<69, 79, 70>>,
  <<71, 85, 73, 68>>, <<72, 84, 77, 76>>, <<72, 84, 84, 80>>, <<72, 84, 84, 80, 83>>, <<73, 68>>, <<73, 80>>, <<74, 83, 79, 78>>,
  <<76, 72, 83>>, <<81, 80, 83>>, <<82, 65, 77>>, <<82, 72, 83>>, <<82, 80, 67>>, <<83, 76, 65>>, <<83, 77, 84, 80>>, <<83, 81, 76>>,
  <<83, 83, 72>>, <<84, 67, 80>>, <<84, 76, 83>>, <<84, 84, 76>>, <<85, 68, 80>>, <<85, 73>>, <<85, 73, 68>>, <<85, 85, 73, 68>>,
  <<85, 82, 73>>, <<85, 82, 76>>, <<85, 84, 70, 56>>, <<86, 77>>, <<88, 77, 76>>, <<88, 77, 80, 80>>, <<88, 83, 82, 70>>, <<88, 83, 83>>}
\* the first position from i on that is not an underscore
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ s[i] = Underscore THEN Skip(s, i + 1) ELSE i
\* the words: each ends at the end, in front of underscores, or where a lower case letter meets something
\* else; underscores between words vanish, but one between two digits starts the next word
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(s, i, word, acc) ==
  IF i > Len(s) THEN (IF word = <<>> THEN acc ELSE Append(acc, word))
  ELSE LET w == TLCEval(Append(word, s[i]))
           n == Skip(s, i + 1)
       IN IF i = Len(s) THEN Append(acc, w)
          ELSE IF s[i + 1] = Underscore
               THEN IF n <= Len(s) /\ DigitC(s[i]) /\ DigitC(s[n]) THEN WordsFrom(s, n, <<Underscore>>, Append(acc, w))
                    ELSE WordsFrom(s, n, <<>>, Append(acc, w))
          ELSE IF IsLo(s[i]) /\ ~IsLo(s[i + 1]) THEN WordsFrom(s, i + 1, <<>>, Append(acc, w))
          ELSE WordsFrom(s, i + 1, w, acc)
UpAll(w) == [i \in 1..Len(w) |-> ToUp(w[i])]
Word(w, first) ==
  LET u == TLCEval(UpAll(w)) IN
  IF u \in Initialisms THEN u
  ELSE IF ~first /\ LowerAll(w) = w THEN [w EXCEPT ![1] = ToUp(@)]
  ELSE w
RECURSIVE JoinWords(_, _, _)
JoinWords(ws, i, acc) == IF i > Len(ws) THEN acc ELSE JoinWords(ws, i + 1, acc \o Word(ws[i], i = 1))
Lint(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET n == Skip(cs, 1) IN
       IF n > Len(cs) THEN <<Underscore>>
       ELSE LET s == TLCEval([SubSeq(cs, n, Len(cs)) EXCEPT ![1] = ToUp(@)]) IN JoinWords(TLCEval(WordsFrom(s, 1, <<>>, <<>>)), 1, <<>>)

------------------------------------------------------------------------------
\* Numbers below 2^31 in base b; -1: none
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
RECURSIVE Value(_, _, _, _, _)
Value(s, i, j, b, v) ==
  IF i > j THEN v
  ELSE IF DigitVal(s[i]) >= b THEN -1
  ELSE IF v > (2147483647 - DigitVal(s[i])) \div b THEN -1
  ELSE Value(s, i + 1, j, b, (v * b) + DigitVal(s[i]))
Alnum(c) == DigitVal(c) < 36
RECURSIVE RunAlnum(_, _)
RunAlnum(s, i) == IF i <= Len(s) /\ Alnum(s[i]) THEN RunAlnum(s, i + 1) ELSE i
RECURSIVE RunSemi(_, _)
RunSemi(s, i) == IF i <= Len(s) /\ s[i] = 59 THEN RunSemi(s, i + 1) ELSE i
RECURSIVE HtmlFrom(_, _, _, _)
HtmlFrom(s, b, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF IsPrefixAt(<<38, 35>>, s, i) /\ RunAlnum(s, i + 2) > i + 2
       THEN LET e == RunAlnum(s, i + 2)
                n == RunSemi(s, e)
                v == Value(s, i + 2, e - 1, b, 0)
            IN HtmlFrom(s, b, n, acc \o (IF v < 0 THEN SubSeq(s, i, n - 1) ELSE Encode(v)))
  ELSE HtmlFrom(s, b, i + 1, Append(acc, s[i]))
Html(s, b) == HtmlFrom(s, b, 1, <<>>)

\* the longest number from position i: at most m digits, and less than 2^31
RECURSIVE Longest(_, _, _, _)
Longest(s, i, n, b) == IF n = 0 THEN 0 ELSE IF (i + n) - 1 <= Len(s) /\ Value(s, i, (i + n) - 1, b, 0) >= 0 THEN n ELSE Longest(s, i, n - 1, b)
RECURSIVE CodeFrom(_, _, _, _)
CodeFrom(s, b, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF IsPrefixAt(<<92, 117>>, s, i)
       THEN LET n == Longest(s, i + 2, IF b = 16 THEN 4 ELSE 21, b) IN
            IF n = 0 THEN CodeFrom(s, b, i + 2, acc \o <<92, 117>>)
            ELSE CodeFrom(s, b, (i + 2) + n, acc \o Encode(Value(s, i + 2, (i + 1) + n, b, 0)))
  ELSE CodeFrom(s, b, i + 1, Append(acc, s[i]))
CodePoint(s, b) == CodeFrom(s, b, 1, <<>>)

------------------------------------------------------------------------------
\* r is what the function e.op (with the other arguments of e) makes of s
Makes(e, s, r) ==
  CASE e.op = "json" -> JsonOf(s, r, e.html = 1)
    [] e.op = "indent" -> r = Indented(s, e.pre)
    [] e.op = "space" -> r = Normal(s)
    [] e.op = "snake" -> r \in Snakes(s)
    [] e.op = "camel" -> r = Camel(s)
    [] e.op = "lint" -> r = EncodeAll(Lint(Codes(s)))
    [] e.op = "html" -> r = Html(s, e.base)
    [] e.op = "code" -> r = CodePoint(s, e.base)

\* Very long texts are given in parts, each with what the function makes of the part alone.  If the parts
\* meet in such a way that none of them matters to the next, the whole is made of what is made of the parts.
RECURSIVE Flat(_, _, _)
Flat(ps, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ps[i] ELSE LET m == (i + j) \div 2 IN Flat(ps, i, m) \o Flat(ps, m + 1, j)
Plain == {32, 120}  \* space, x
Apart(op, s) ==  \* s may be a part
  /\ s # <<>>
  /\ CASE op = "json" -> s[1] \in Plain /\ s[Len(s)] \in Plain
       [] op = "indent" -> s[Len(s)] = 10
       [] op = "space" -> s[1] = 120 /\ s[Len(s)] = 120
       [] op = "snake" -> AsciiLower(s[1]) /\ AsciiLower(s[Len(s)])
       [] op \in {"camel", "lint"} -> AsciiUpper(s[1]) /\ AsciiLower(s[Len(s)])
       [] op \in {"html", "code"} -> s[1] = 32 /\ s[Len(s)] = 32
\* what is made of the parts, put together
Whole(op, rs) ==
  IF op = "json" THEN (<<34>> \o Flat([i \in 1..Len(rs) |-> SubSeq(rs[i], 2, Len(rs[i]) - 1)], 1, Len(rs))) \o <<34>>
  ELSE Flat(rs, 1, Len(rs))

TextPost(st, e) ==
  IF /\ e.p = 0
     /\ IF "parts" \in DOMAIN e
        THEN /\ \A i \in 1..Len(e.parts) : Apart(e.op, e.parts[i][1]) /\ Makes(e, e.parts[i][1], e.parts[i][2])
             /\ e.res = Whole(e.op, [i \in 1..Len(e.parts) |-> e.parts[i][2]])
        ELSE Makes(e, e.s, e.res)
  THEN {0} ELSE {}
=============================================================================
