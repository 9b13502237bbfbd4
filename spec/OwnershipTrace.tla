----------------------------- MODULE OwnershipTrace -----------------------------
(* Validation of histories on real objects.  After every step the trace holds the      *)
(* digest of every object: documents the caller holds, and [doc, img] of the editors.   *)
(* "alone" is the state of an editor with the same history whose data nobody else ever   *)
(* held.                                                                                *)
EXTENDS Ownership, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, val, bad, nt
vars == <<l, val, bad, nt>>
Clause(name, holds) == IF holds THEN {} ELSE {name}

(* docs: document -> digest; eds: editor -> [doc, img] *)
Touched(e) == CASE e.op = "load" -> {e.o} [] e.op = "hand" -> {e.p} [] e.op = "mutate" -> {e.o} [] OTHER -> {e.o, e.p}
Shown(e) == [x \in DOMAIN e.docs \cup DOMAIN e.eds |-> IF x \in DOMAIN e.docs THEN e.docs[x] ELSE e.eds[x]]
Expected(e) ==
  CASE e.op = "load" -> Loaded(val, e.o, e.alone)
    [] e.op = "hand" -> HandedOut(val, e.p, e.o)
    [] e.op = "mutate" -> Mutated(val, e.o, e.docs[e.o])
    [] OTHER -> LET w == Edited(val, e.o, e.alone) IN IF e.p = "" THEN w ELSE HandedOut(w, e.p, e.o)
Clauses(e) ==
  LET x == Expected(e)  y == Shown(e) IN
  Clause("nothing_else_changes", Others(y, Touched(e)) = Others(x, Touched(e)))
  \cup Clause("editor_as_if_alone", (e.op \notin {"hand", "mutate"}) => y[e.o] = x[e.o])
  \cup Clause("handed_out_is_the_document", (e.op \notin {"load", "mutate"} /\ e.p # "") => y[e.p] = x[e.p])
  \cup Clause("same_answer_as_if_alone", e.out = e.aout)

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Init == l = 1 /\ bad = <<>> /\ nt = <<0, 0>> /\ val = <<>>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.e = "reset" THEN val' = Shown(e) /\ UNCHANGED <<bad, nt>> /\ l' = l + 1
     ELSE LET v == Clauses(e) IN
       /\ l' = l + 1
       /\ val' = Shown(e)
       /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
       /\ nt' = <<nt[1] + 1, nt[2] + (IF Cardinality(DOMAIN val) > 1 /\ e.op # "hand" THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<val, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
================================================================================
