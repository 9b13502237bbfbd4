---------------------------- MODULE DocGraphTrace ----------------------------
(* Validation of graphs recorded from the real parser, one document per event.   *)
EXTENDS DocGraph, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, nt
vars == <<l, bad, nt>>

Clause(name, holds) == IF holds THEN {} ELSE {name}
EdgeSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
C27(e) ==
  Clause("graph_built", e.out = "ok")
  \cup (IF e.out # "ok" THEN {} ELSE
        Clause("one_node_per_element", e.nodes = GNodes(e.doc))
        \cup Clause("exactly_these_edges", EdgeSet(e.ch) = GEdges(e.doc))
        \cup Clause("edges_seen_from_both_ends", EdgeSet(e.ch) = EdgeSet(e.pa))
        \cup Clause("bones_read_back", e.back.bones = e.want.bones)
        \cup Clause("slots_read_back", e.back.slots = e.want.slots)
        \cup Clause("ik_read_back", e.back.ik = e.want.ik))

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Init == l = 1 /\ bad = <<>> /\ nt = <<0, 0>>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]  v == C27(e) IN
     /\ l' = l + 1
     /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
     /\ nt' = <<nt[1] + 1, nt[2] + (IF Given(e.doc) # {} THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
