------------------------------- MODULE Replicas -------------------------------
(* Editors working side by side (C31).  What an editor answers is a function of its *)
(* document and the requests it has had: not of other editors of the process, of     *)
(* the order in which they take turns, or of the process.                            *)
EXTENDS Sequences, TLC
VARIABLES past,   \* editor -> its document followed by its requests
          said    \* history -> what was answered after it
rvars == <<past, said>>

Add(f, k, v) == (k :> v) @@ f
Open(e, d) == past' = Add(past, e, <<d>>)
Asks(e, o) == past' = [past EXCEPT ![e] = Append(@, o)]
Agrees(h, a) == h \in DOMAIN said => said[h] = a
Notes(h, a) == said' = IF h \in DOMAIN said THEN said ELSE Add(said, h, a)
=============================================================================
