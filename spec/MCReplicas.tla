------------------------------ MODULE MCReplicas ------------------------------
(* Every schedule of three editors, two of them on the same document.               *)
EXTENDS MCEditor, Replicas
TheTurns == <<2, 2, 1>>
CONSTANT Turns      \* editor -> number of requests

VARIABLES docs, sched, agree
all == <<doc0, doc, hist, past, bad, effects, hist, said, docs, sched, agree>>

Editors == DOMAIN Turns
TheDocs == <<HistDoc1(0), HistDoc1(0), HistDoc3(0)>>
DocName == <<"d1", "d1", "d3">>
Table(e) ==
  IF e = 3 THEN <<Clean, Req("erase_anims", <<"a1">>, TRUE, FALSE, TRUE), Req("erase_skins", <<"s2">>, TRUE, FALSE, TRUE)>>
  ELSE <<Req("erase_anims", <<"a1">>, TRUE, FALSE, TRUE), Req("erase_skins", <<"s1">>, TRUE, TRUE, TRUE), Clean,
         Req("erase_anims", <<"a1", "nope">>, TRUE, FALSE, TRUE), ScaleBy(N2, Nm(3))>>
RInit ==
  /\ doc0 = 0 /\ doc = 0 /\ hist = <<>> /\ bad = {} /\ effects = {}
  /\ past = [e \in Editors |-> <<DocName[e]>>] /\ said = Empty
  /\ docs = [e \in Editors |-> TheDocs[e]] /\ sched = <<>> /\ agree = TRUE
RNext ==
  \E e \in Editors : /\ Len(past[e]) <= Turns[e]
    /\ \E k \in 1..Len(Table(e)) :
         LET r == Outcome(docs[e], Table(e)[k])  h == Append(past[e], k) IN
         /\ Asks(e, k)
         /\ agree' = Agrees(h, r) /\ Notes(h, r)
         /\ docs' = [docs EXCEPT ![e] = r.doc]
         /\ sched' = Append(sched, <<e, k>>)
         /\ UNCHANGED <<doc0, doc, hist, bad, effects>>
RSpec == RInit /\ [][RNext]_all
OneAnswerPerHistory == agree
OwnDocument == \A e \in Editors : LET h == past[e] IN (Len(h) > 1 /\ h \in DOMAIN said) => said[h].doc = docs[e]
TotalTurns == 5
ShowSched == (Emit /\ Len(sched) = TotalTurns) =>
  PrintT("@@CASE " \o ToJson([docs |-> TheDocs, table |-> [e \in Editors |-> Table(e)], sched |-> sched]))
=============================================================================
