-------------------------------- MODULE MCBatch --------------------------------
(* Every history of up to Depth requests on the families of MCEditor: what comes    *)
(* out is what the amount says, however it was asked for.                            *)
EXTENDS MCEditor, Batch
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Alphabet ==
  LET A == Listed(AnimSet(doc0))  S == SkinSeq(doc0) IN
  {Req("erase_anims", n, strict, safe, TRUE) : n \in {<<A[1]>>, <<A[Len(A)]>>, A, <<A[1], A[1]>>}, strict \in BOOLEAN, safe \in BOOLEAN}
  \cup {Req("erase_anims", <<"nope", A[1]>>, FALSE, TRUE, TRUE)}
  \cup {Req("erase_skins", n, TRUE, safe, TRUE) : n \in {<<S[1]>>, <<S[Len(S)]>>, Rev(S), S}, safe \in BOOLEAN}
  \cup {Clean, Reload, ScaleBy(N2, Nm(3)), ScaleBy(Half, Nm(-1)), ScaleWrong}
BInit == Init
BNext == /\ Len(hist) < Depth
         /\ \E o \in Alphabet :
              /\ InDomain(doc0, Append(hist, o))
              /\ hist' = Append(hist, o)
              /\ doc' = Outcome(doc, o).doc
              /\ UNCHANGED <<doc0, bad, effects>>
BSpec == BInit /\ [][BNext]_vars

(* one way of asking for an amount *)
Canonical(a) ==
  (IF a.an = {} THEN <<>> ELSE <<Req("erase_anims", Listed(a.an), TRUE, TRUE, TRUE)>>)
  \o (IF a.sk = {} THEN <<>> ELSE <<Req("erase_skins", Listed(a.sk), TRUE, TRUE, TRUE)>>)
  \o (IF a.x = N1 /\ a.y = N1 THEN <<>> ELSE <<ScaleBy(a.x, a.y)>>)
  \o (IF a.cl THEN <<Clean>> ELSE <<>>)
OnlyTheAmountMatters == Play(doc0, hist) = Play(doc0, Canonical(Amount(doc0, hist)))
PlayIsTheMachine == Play(doc0, hist).doc = doc
BShow == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([doc |-> doc0, ops |-> hist, amount |-> Amount(doc0, hist)]))
================================================================================
