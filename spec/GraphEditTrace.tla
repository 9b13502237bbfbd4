---------------------------- MODULE GraphEditTrace ----------------------------
(* Validation of work recorded on the graphs of documents: every event carries the   *)
(* graph, what was read back from it, and the graph built again from that.            *)
EXTENDS GraphEdit, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES doc, l, bad, nt
vars == <<nodes, edges, doc, l, bad, nt>>

Clause(name, holds) == IF holds THEN {} ELSE {name}
EdgeSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Content(s) == [i \in 1..Len(s) |-> <<s[i].n, s[i].x>>]
Back(b, d) == /\ Content(b.bones) = Content(d.bones)
              /\ Content(b.slots) = Content(d.slots)
              /\ Content(b.iks) = Content(d.iks)
AskedExactly(e, ns, es) ==
  \A i \in 1..Len(e.asked) : LET q == e.asked[i] IN
    /\ SetOf(q.heads) = HeadsOf(ns, es, q.ty) /\ NoRepeat(q.heads)
    /\ SetOf(q.leafs) = LeafsOf(ns, es, q.ty, {}) /\ NoRepeat(q.leafs)

After(e) == IF e.e = "reset" THEN [ns |-> GNodes(e.doc), es |-> GEdges(e.doc), out |-> "ok"]
            ELSE IF ~CanDo(nodes, e.o) THEN [ns |-> nodes, es |-> edges, out |-> "err"]
            ELSE LET g == Goes(nodes, edges, e.o) IN
                 [ns |-> RemoveNodes(nodes, g), es |-> RemoveEdgesOf(edges, g), out |-> "ok"]
TheDoc(e) == IF e.e = "reset" THEN e.doc ELSE doc
C30(e) ==
  LET a == After(e)  d == Left(TheDoc(e), a.ns) IN
  Clause("outcome", e.out = a.out)
  \cup (IF e.out # "ok" \/ a.out # "ok" THEN {} ELSE
    Clause("exactly_these_nodes_left", e.nodes = a.ns)
    \cup Clause("exactly_these_edges_left", EdgeSet(e.ch) = a.es /\ EdgeSet(e.pa) = a.es)
    \cup Clause("reported_exactly", e.e = "reset" \/ (SetOf(e.ret) = DOMAIN nodes \ DOMAIN a.ns /\ NoRepeat(e.ret)))
    \cup Clause("read_back", Back(e.back, d))
    \cup Clause("read_back_as_text", Back(e.text, d))
    \cup Clause("built_again_from_file", e.built.out = "ok" /\ e.built.nodes = BuiltNodes(d) /\ EdgeSet(e.built.ch) = BuiltEdges(d))
    \cup Clause("heads_and_leafs_of_a_type", AskedExactly(e, a.ns, a.es))
    \cup Clause("reading_changes_nothing", e.pure))

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Init == nodes = EmptyFn /\ edges = {} /\ doc = [bones |-> <<>>, slots |-> <<>>, skins |-> <<>>, iks |-> <<>>] /\ l = 1 /\ bad = <<>> /\ nt = <<0, 0>>
(* a request that must be refused may have done part of its work: the session ends *)
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]  v == C30(e) IN
     /\ l' = l + 1 /\ doc' = TheDoc(e)
     /\ nodes' = e.nodes /\ edges' = EdgeSet(e.ch)
     /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
     /\ nt' = <<nt[1] + 1, nt[2] + (IF e.e # "reset" /\ e.ret # <<>> THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<nodes, edges, doc, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
