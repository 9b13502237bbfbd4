----------------------------- MODULE EditorTrace -----------------------------
(* Validation of sessions recorded from the real editor.  A "reset" event loads  *)
(* a document; every other event is a request with its result.                   *)
EXTENDS SpineEditor, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES doc, imgs, l, bad, nt
vars == <<doc, imgs, l, bad, nt>>

NoDoc == [bones |-> <<>>, slots |-> <<>>, skins |-> <<>>, anims |-> <<>>]
Init == doc = NoDoc /\ imgs = <<>> /\ l = 1 /\ bad = <<>> /\ nt = <<0, 0, 0>>

LoadClauses(e) ==
  CASE e.out # "ok" -> {"document_not_loaded"}
    [] Prop = "C13" -> C13of(e.doc, e.imgs)
    [] Prop = "C14" -> C14of(e.doc, e.imgs)
    [] Prop = "C29" -> IF Consistent(e.doc) THEN C29of(e.doc, e.q) ELSE {}
    [] OTHER -> {}

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

Result(e) == [out |-> e.out, doc |-> e.doc, rs |-> e.rs, ra |-> e.ra, ri |-> e.ri, imgs |-> e.imgs,
              retsame |-> e.retsame, imgsame |-> e.imgs = imgs, shadowsame |-> e.shadowsame, twin |-> e.twin, q |-> e.q]

(* the specification speaks about consistent documents; a session that left them  *)
(* (which C09 reports) is not judged further                                      *)
Judged(e) == Consistent(doc)

Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ l' = l + 1
     /\ doc' = e.doc /\ imgs' = e.imgs
     /\ IF e.e = "reset"
        THEN LET v == LoadClauses(e) IN
             /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
             /\ nt' = [nt EXCEPT ![3] = @ + (IF e.out = "ok" /\ Consistent(e.doc) THEN 1 ELSE 0)]
        ELSE IF ~Judged(e) THEN UNCHANGED <<bad, nt>>
        ELSE LET r == Result(e)  v == Violated(Prop, doc, e.o, r) IN
             /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
             /\ nt' = IF ~Relevant(Prop, doc, e.o) THEN nt
                      ELSE <<nt[1] + 1, nt[2] + (IF Nontrivial(Prop, doc, e.o, r) THEN 1 ELSE 0), nt[3]>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1],
                                    nontrivial |-> nt[2], consistent |-> nt[3]]))
  /\ l' = l + 1 /\ UNCHANGED <<doc, imgs, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
