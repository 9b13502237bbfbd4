---------------------------- MODULE ReplicasTrace ----------------------------
(* Validation of sessions in which the same histories are played several times: side  *)
(* by side or alone, in another order, in processes with another hash seed.           *)
EXTENDS Replicas, Json, IOUtils, Naturals

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, nt
vars == <<past, said, l, bad, nt>>
Clause(name, holds) == IF holds THEN {} ELSE {name}

History(e) == IF e.e = "open" THEN <<e.d>> ELSE Append(past[e.ed], e.o)
Differs(e) ==
  LET h == History(e) IN
  IF h \notin DOMAIN said THEN {} ELSE
  LET a == said[h]  b == e.a IN
  Clause("same_outcome", a.out = b.out) \cup Clause("same_document", a.doc = b.doc) \cup Clause("same_file", a.file = b.file)
  \cup Clause("same_image_references", a.imgs = b.imgs) \cup Clause("same_report", a.rep = b.rep)
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

Init == past = <<>> /\ said = <<>> /\ l = 1 /\ bad = <<>> /\ nt = <<0, 0>>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ l' = l + 1
     /\ IF e.e = "reset" THEN past' = <<>> /\ said' = <<>> /\ UNCHANGED <<bad, nt>>
        ELSE LET v == Differs(e)  again == History(e) \in DOMAIN said IN
             /\ IF e.e = "open" THEN Open(e.ed, e.d) ELSE Asks(e.ed, e.o)
             /\ Notes(History(e), e.a)
             /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
             /\ nt' = <<nt[1] + 1, nt[2] + (IF again /\ e.e = "do" THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<past, said, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
