------------------------------- MODULE MCText -------------------------------
(* Enumerates every string built from at most N tokens (and every version      *)
(* triple of small numbers) and checks that the definitions are what they      *)
(* should be: an order, a parser that finds exactly the bracketed groups.      *)
EXTENDS Text, TLC, Json

CONSTANTS Tokens, N, Kind, Emit
VARIABLE w            \* sequence of tokens

RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN "" ELSE Head(t) \o Cat(Tail(t))
Str == Cat(w)

Init == w = <<>>
Next == Len(w) < N /\ \E t \in Tokens : w' = Append(w, t)
Spec == Init /\ [][Next]_w

Show == Emit => PrintT("@@CASE " \o ToJson([s |-> Str]))

(* ------------------------------- tags ----------------------------------- *)
ASSUME TagNameStops \cap TagNameChars = {} /\ TagValueStops \cap TagValueChars = {}
Opens(s) == {i \in 1..Len(s) : Ch(s, i) = "["}
TagsOk ==
  Kind = "tags" =>
    LET s == Str  ts == Tags(s) IN
    /\ Len(ts) <= Cardinality(Opens(s))
    /\ \A i \in 1..Len(ts) : /\ ts[i].name # "" /\ AllIn(ts[i].name, TagNameChars)
                             /\ AllIn(ts[i].value, TagValueChars)
                             /\ Ch(s, ts[i].end) = "]"
    (* declaratively: i..j is a group iff its inside is blanks name blanks : value *)
    /\ {ts[i].end : i \in 1..Len(ts)} =
       {j \in 1..Len(s) : \E i \in 1..j : /\ Ch(s, i) = "[" /\ Ch(s, j) = "]"
           /\ \E c \in i..j : /\ Ch(s, c) = ":"
                /\ LET n == Strip(SubSeq(s, i + 1, c - 1))  v == SubSeq(s, c + 1, j - 1)
                   IN n # "" /\ AllIn(n, TagNameChars) /\ v # "" /\ AllIn(v, TagValueChars)}

(* ------------------------------ versions -------------------------------- *)
Sample == {<<0,0,0>>, <<3,7,93>>, <<3,8,0>>, <<3,8,59>>, <<3,10,0>>, <<4,0,1>>, <<3,8,1000>>, <<10,0,0>>}
VersionOk ==
  (Kind = "versions" /\ IsVersion(Str)) =>
    LET v == Version(Str) IN
    /\ ~VerLess(v, v)
    /\ \A a \in Sample : /\ (VerLess(v, a) \/ VerLess(a, v) \/ a = v)
                         /\ ~(VerLess(v, a) /\ VerLess(a, v))
    /\ \A a, b \in Sample : VerLess(v, a) /\ VerLess(a, b) => VerLess(v, b)
=============================================================================
