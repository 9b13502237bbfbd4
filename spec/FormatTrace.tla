----------------------------- MODULE FormatTrace -----------------------------
(* Validation of documents loaded and saved by the real code.  Events:            *)
(*  load: in, out, doc (saved), again (saved, loaded and saved)                    *)
(*  down: in, out, ver, before, after (saved before and after the down-level pass) *)
EXTENDS Format, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, bad, nt
vars == <<l, bad, nt>>
Range(q) == {q[i] : i \in DOMAIN q}
Clause(name, holds) == IF holds THEN {} ELSE {name}

C01(e) ==
  IF e.op # "load" \/ ~MustBeAccepted(e.in) THEN {}
  ELSE Clause("accepted", e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
             Clause("meaning_preserved", Canon(e.doc) = Canon(e.in))
             \cup Clause("saved_document_loads_to_the_same", Canon(e.again) = Canon(e.in)))
C02(e) ==
  IF e.op # "load" THEN {}
  ELSE Clause("refused", MustBeRefused(e.in) => e.out = "err")
       \cup Clause("nothing_dropped_silently", (e.out = "ok" /\ Unmodelled(e.in)) => Canon(e.doc) = Canon(e.in))
       \cup Clause("accepted_or_refused", e.out \in {"ok", "err"})
C28(e) ==
  IF e.op # "down" THEN {}
  ELSE Clause("accepted", e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
             Clause("exactly_the_unsupported_attributes", Canon(e.after) = Canon(DownLevel(e.before, e.ver)))
             \cup Clause("none_left", VerLess(Version(e.ver), V38) =>
                    \A p \in DOMAIN e.after : HasCurve(e.after[p].k) => DOMAIN e.after[p].a \cap CurveAttrs = {}))
(* edit: in, out, doc (saved after the edits); boxes: the containers of in and of doc that are *)
(* not objects, without the lists of offsets of draw order keys                               *)
C35(e) ==
  IF e.op \notin {"load", "edit"} \/ e.out # "ok" \/ ~Modern(e.in) THEN {}
  ELSE Clause("nothing_superfluous", Compact(e.doc))
       \cup (IF e.op = "load" THEN
                Clause("nothing_added", NothingAdded(e.in, e.doc))
                \cup Clause("no_container_added", Range(e.boxes[2]) \subseteq Range(e.boxes[1]))
             ELSE {})
Check(e) == CASE Prop = "C35" -> C35(e) [] Prop = "C01" -> C01(e) [] Prop = "C02" -> C02(e) [] Prop = "C28" -> C28(e)
Relevant(e) == CASE Prop = "C35" -> e.out = "ok" /\ Modern(e.in) [] Prop = "C01" -> e.op = "load" /\ MustBeAccepted(e.in)
                 [] Prop = "C02" -> e.op = "load" /\ (MustBeRefused(e.in) \/ Unmodelled(e.in))
                 [] Prop = "C28" -> e.op = "down"
NonTrivial(e) == CASE Prop = "C35" -> ~Compact(e.in) \/ e.op = "edit" [] Prop = "C01" -> \E p \in DOMAIN e.in : DOMAIN e.in[p].a # DOMAIN CanonObj(e.in[p]).a
                   [] Prop = "C02" -> TRUE
                   [] Prop = "C28" -> e.out = "ok" /\ Canon(e.after) # Canon(e.before)

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Init == l = 1 /\ bad = <<>> /\ nt = <<0, 0>>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]  v == Check(e)  r == Relevant(e) IN
     /\ l' = l + 1
     /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
     /\ nt' = <<nt[1] + (IF r THEN 1 ELSE 0), nt[2] + (IF r /\ NonTrivial(e) THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
