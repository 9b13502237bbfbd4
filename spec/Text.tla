-------------------------------- MODULE Text --------------------------------
(* Strings: decimal numbers, Spine versions (C19) and tags in names (C20).    *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits == {DigitSeq[i] : i \in 1..10}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Blanks == {" ", "\t", "\n", "\r"}
WordChars == Digits \cup Lower \cup Upper \cup {"_"}
TagNameChars == WordChars \cup {"-"}
TagValueChars == WordChars \cup {"."} \cup Blanks
(* what ends a tag's name and its value; any other character is a letter, in whatever script *)
Punctuation == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "/", ":", ";", "<", "=", ">", "?", "@",
                "[", "\\", "]", "^", "`", "{", "|", "}", "~"}
TagNameStops == Punctuation \cup {"."} \cup Blanks
TagValueStops == Punctuation \cup {"-"}
DigitVal(c) == (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1

(* first position >= i whose character is not in C (Len+1 if there is none) *)
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in C THEN Skip(s, i + 1, C) ELSE i
RECURSIVE SkipTo(_, _, _)
SkipTo(s, i, C) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in C THEN i ELSE SkipTo(s, i + 1, C)
RECURSIVE SkipBack(_, _, _)
SkipBack(s, i, C) == IF i < 1 THEN 0 ELSE IF Ch(s, i) \in C THEN SkipBack(s, i - 1, C) ELSE i
Strip(s) == LET a == Skip(s, 1, Blanks)  b == SkipBack(s, Len(s), Blanks)
            IN IF a > b THEN "" ELSE SubSeq(s, a, b)
At(s, i, c) == i <= Len(s) /\ Ch(s, i) = c
AllIn(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C

RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
IsNat(s) == Len(s) >= 1 /\ AllIn(s, Digits)

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* ---------------------------- rationals -------------------------------- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(n, d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
RatMul(x, y) ==          \* cross-reduced first, to keep the numbers small
  LET a == Gcd(x[1], y[2])  b == Gcd(y[1], x[2]) IN
  IF x[1] = 0 \/ y[1] = 0 THEN <<0, 1>>
  ELSE Rat((x[1] \div a) * (y[1] \div b), (x[2] \div b) * (y[2] \div a))
One == <<1, 1>>

(* decimal number: digits [. digits], digits ., . digits, optional e<digits> *)
SplitAt(s, c) == LET i == CHOOSE k \in 1..(Len(s) + 1) :
                              /\ (k = Len(s) + 1 \/ Ch(s, k) = c)
                              /\ \A j \in 1..(k - 1) : Ch(s, j) # c
                 IN [found |-> i <= Len(s), before |-> SubSeq(s, 1, i - 1), after |-> SubSeq(s, i + 1, Len(s))]
MantissaOk(m) ==
  LET p == SplitAt(m, ".") IN
  IF p.found THEN /\ AllIn(p.before, Digits) /\ AllIn(p.after, Digits)
                  /\ Len(p.before) + Len(p.after) >= 1
  ELSE IsNat(m)
MantissaVal(m) == LET p == SplitAt(m, ".") IN
  Rat(NatOf(p.before \o p.after), Pow(10, Len(p.after)))
IsNumber(s) ==
  LET e == SplitAt(s, "e") IN
  IF e.found THEN MantissaOk(e.before) /\ IsNat(e.after) ELSE MantissaOk(s)
NumberVal(s) ==
  LET e == SplitAt(s, "e") IN
  IF e.found THEN RatMul(MantissaVal(e.before), <<Pow(10, NatOf(e.after)), 1>>) ELSE MantissaVal(s)

(* ------------------------------ tags (C20) ------------------------------ *)
(* the tag starting at i, if there is one *)
TagAt(s, i) ==
  LET n1 == Skip(s, i + 1, Blanks)
      n2 == SkipTo(s, n1, TagNameStops)
      c  == Skip(s, n2, Blanks)
      v1 == c + 1
      v2 == SkipTo(s, v1, TagValueStops)
  IN [ok |-> At(s, i, "[") /\ n2 > n1 /\ At(s, c, ":") /\ v2 > v1 /\ At(s, v2, "]"),
      name |-> SubSeq(s, n1, n2 - 1), value |-> Strip(SubSeq(s, v1, v2 - 1)), end |-> v2]
RECURSIVE TagsFrom(_, _)
TagsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) # "[" THEN TagsFrom(s, i + 1)
  ELSE LET t == TagAt(s, i) IN
       IF t.ok THEN <<t>> \o TagsFrom(s, t.end + 1) ELSE TagsFrom(s, i + 1)
Tags(s) == TagsFrom(s, 1)

SupportedTags == {"scale"}
TagsRefused(s) ==
  LET ts == Tags(s) IN
  \/ \E i \in 1..Len(ts) : ts[i].name \notin SupportedTags
  \/ \E i, j \in 1..Len(ts) : i # j /\ ts[i].name = ts[j].name
  \/ \E i \in 1..Len(ts) : ~IsNumber(ts[i].value)
TagValues(s) == LET ts == Tags(s) IN
  [n \in {ts[i].name : i \in 1..Len(ts)} |->
     NumberVal(ts[CHOOSE i \in 1..Len(ts) : ts[i].name = n].value)]
ScaleInName(s) == LET v == TagValues(s) IN IF "scale" \in DOMAIN v THEN v["scale"] ELSE One

(* ---------------------------- versions (C19) ----------------------------- *)
RECURSIVE SplitAll(_, _)
SplitAll(s, c) == LET p == SplitAt(s, c) IN
  IF p.found THEN <<p.before>> \o SplitAll(p.after, c) ELSE <<s>>
IsVersion(s) == LET p == SplitAll(s, ".") IN
  Len(p) \in {2, 3} /\ \A i \in 1..Len(p) : IsNat(p[i])
Version(s) == LET p == SplitAll(s, ".") IN
  <<NatOf(p[1]), NatOf(p[2]), IF Len(p) = 3 THEN NatOf(p[3]) ELSE 0>>
VerLess(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
=============================================================================
