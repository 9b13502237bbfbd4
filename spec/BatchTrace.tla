------------------------------- MODULE BatchTrace -------------------------------
(* Sessions in which one document is taken through several histories, each in an     *)
(* editor of its own; recorded are the requests, whether the domain's names were      *)
(* there, and digests of what came out.  Equal amounts have equal results.           *)
EXTENDS Batch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES names, said, l, bad, nt
tvars == <<names, said, l, bad, nt>>

RangeOf(s) == Range(s)
Dom(e) == [anims |-> [n \in RangeOf(names.anims) |-> 0], skins |-> [i \in 1..Len(names.skins) |-> [n |-> names.skins[i]]],
           bones |-> IF names.rooted THEN <<[n |-> "root"]>> ELSE <<>>]
Differs(e) ==
  LET d == Dom(e)  a == Amount(d, e.ops) IN
  IF a \notin DOMAIN said THEN {} ELSE
  LET x == said[a]  y == e.a IN
  Clause("same_document_however_asked", x.doc = y.doc) \cup Clause("same_images_however_asked", x.imgs = y.imgs)
  \cup Clause("same_slots_reported", x.rs = y.rs) \cup Clause("same_attachments_reported", x.ra = y.ra)
  \cup Clause("same_images_reported", x.ri = y.ri)
RefusedExactly(e) ==
  LET d == Dom(e) IN
  Clause("refused_exactly", \A i \in 1..Len(e.ops) :
     (e.outs[i] # "ok") = (LET o == e.ops[i]  p == Amount(d, SubSeq(e.ops, 1, i - 1)) IN
        CASE o.op = "erase_anims" -> ~o.islist \/ (o.strict /\ ~(Range(o.names) \subseteq RangeOf(names.anims) \ p.an))
          [] o.op = "erase_skins" -> ~o.islist \/ ~(Range(o.names) \subseteq RangeOf(names.skins) \ p.sk)
          [] o.op = "scale" -> ~o.islist \/ ~names.rooted
          [] OTHER -> FALSE))
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

TInit == names = [anims |-> <<>>, skins |-> <<>>, rooted |-> TRUE] /\ said = <<>> /\ l = 1 /\ bad = <<>> /\ nt = <<0, 0>>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ l' = l + 1
     /\ IF e.e = "reset"
        THEN /\ names' = [anims |-> e.anims, skins |-> e.skins, rooted |-> e.rooted] /\ said' = <<>> /\ nt' = nt
             /\ bad' = IF e.out = "ok" \/ Len(bad) > 30 THEN bad ELSE Append(bad, [line |-> l, clauses |-> <<"document_not_loaded">>])
        ELSE IF ~InDomain(Dom(e), e.ops) THEN UNCHANGED <<names, said, bad, nt>>
        ELSE LET v == Differs(e) \cup RefusedExactly(e)  a == Amount(Dom(e), e.ops) IN
             /\ said' = IF a \in DOMAIN said THEN said ELSE (a :> e.a) @@ said
             /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
             /\ nt' = <<nt[1] + 1, nt[2] + (IF a \in DOMAIN said /\ (a.an # {} \/ a.sk # {}) THEN 1 ELSE 0)>>
             /\ UNCHANGED names
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<names, said, bad, nt>>
Next == Step \/ Verdict
Spec == TInit /\ [][Next]_tvars
================================================================================
