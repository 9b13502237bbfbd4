----------------------------- MODULE GraphTrace -----------------------------
(* Validation of traces recorded from the real DAGraph / SpineGraphContainer. *)
(* Every event carries the graph observed after the call: its node types, its  *)
(* edges seen from the parents (ch) and from the children (pa).                *)
EXTENDS Graph, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, forb, bad, nt
vars == <<nodes, edges, l, forb, bad, nt>>

EdgeSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Obs(e) == [ns |-> e.obs.nodes, ch |-> EdgeSet(e.obs.ch), pa |-> EdgeSet(e.obs.pa)]

(* -------- what the specification says the call does -------- *)
Accepts(e) ==
  CASE e.e = "add_node"    -> e.idok /\ (e.gen \/ CanAddNode(nodes, e.id))
    [] e.e = "add_edge"    -> e.idok /\ CanAddEdge(nodes, forb, e.p, e.c)
    [] e.e = "remove_edge" -> e.idok /\ CanRemoveEdge(edges, e.p, e.c)
    [] e.e = "remove_node" -> e.idok /\ CanRemoveNode(nodes, e.id)
    [] OTHER -> TRUE

IsUpdate(e) == e.e \in {"add_node", "add_edge", "remove_edge", "remove_node"}

(* removing an edge that is not there may be refused or not; it changes nothing *)
OutcomeOk(e) == \/ (e.out = "ok") = Accepts(e)
                \/ e.e = "remove_edge" /\ ~Accepts(e)

SpecNodes(e) ==
  IF ~Accepts(e) THEN nodes
  ELSE CASE e.e = "add_node" -> AfterAddNode(nodes, IF e.gen THEN e.ret ELSE e.id, e.ty)
         [] e.e = "remove_node" -> Without(nodes, {e.id})
         [] OTHER -> nodes
SpecEdges(e) ==
  IF ~Accepts(e) THEN edges
  ELSE CASE e.e = "add_edge" -> edges \cup {<<e.p, e.c>>}
         [] e.e = "remove_edge" -> edges \ {<<e.p, e.c>>}
         [] e.e = "remove_node" -> AfterRemoveNodeEdges(edges, e.id)
         [] OTHER -> edges

Clause(name, holds) == IF holds THEN {} ELSE {name}
Unchanged(e) == Obs(e).ns = nodes /\ Obs(e).ch = edges /\ Obs(e).pa = edges

C21(e) ==
  CASE e.e = "reset" ->
         Clause("built_as_asked", Obs(e).ns = e.nodes /\ Obs(e).ch = EdgeSet(e.edges))
         \cup Clause("parent_iff_child", Obs(e).ch = Obs(e).pa)
    [] IsUpdate(e) ->
         Clause("outcome", OutcomeOk(e))
         \cup Clause("generated_id_is_new", (e.e = "add_node" /\ e.gen /\ e.out = "ok") => e.ret \notin Ids(nodes))
         \cup Clause("nodes", Obs(e).ns = SpecNodes(e))
         \cup Clause("edges", Obs(e).ch = SpecEdges(e))
         \cup Clause("parent_iff_child", Obs(e).ch = Obs(e).pa)
         \cup Clause("well_formed", WellFormed(Obs(e).ns, Obs(e).ch, forb))
         \cup Clause("counts", e.obs.counts)
    [] OTHER -> {}
C21nt(e) == IsUpdate(e) /\ (edges # {} \/ ~Accepts(e))

C22(e) ==
  IF e.e \notin {"heads", "tails"} THEN {}
  ELSE LET want == IF e.e = "heads" THEN Heads(nodes, edges) ELSE Tails(nodes, edges) IN
       Clause("no_crash", e.out = "ok")
       \cup (IF e.out = "ok" THEN Clause(e.e \o "_exact", Range(e.ret) = want)
                                  \cup Clause(e.e \o "_once", NoRepeat(e.ret))
             ELSE {})
       \cup Clause("unchanged", Unchanged(e))
C22nt(e) == e.e \in {"heads", "tails"} /\ edges # {}

C23(e) ==
  IF e.e # "validate" THEN {}
  ELSE Clause("no_crash", e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
             Clause("circular_iff_cycle", (e.circ # <<>>) = Cyclic(nodes, edges))
             \cup Clause("reported_lead_to_cycle", \A n \in Range(e.circ) :
                             n \in Ids(nodes) /\ LeadsToCycle(nodes, edges, n))
             \cup Clause("unconnected_exact", Range(e.unc) = Unconnected(nodes, edges) /\ NoRepeat(e.unc))
             \cup Clause("nothing_else_reported", e.other = 0))
       \cup Clause("unchanged", Unchanged(e))
C23nt(e) == e.e = "validate" /\ (Cyclic(nodes, edges) \/ edges # {})

C24(e) ==
  IF e.e # "paths" THEN {}
  ELSE LET ok == Valid(nodes, edges) /\ e.a \in Ids(nodes) /\ e.b \in Ids(nodes) IN
       Clause("refused_iff_invalid", (e.out = "ok") = ok)
       \cup (IF e.out # "ok" \/ ~ok THEN {} ELSE
             Clause("paths_exact", Range(e.ret) = Paths(edges, e.a, e.b, e.k))
             \cup Clause("each_once", NoRepeat(e.ret)))
       \cup Clause("unchanged", Unchanged(e))
C24nt(e) == e.e = "paths" /\ e.out = "ok" /\ Len(e.ret) > 0 /\ e.a # e.b

C25(e) ==
  IF e.e # "order" \/ Cyclic(nodes, edges) THEN {}
  ELSE Clause("no_crash", e.out = "ok")
       \cup (IF e.out # "ok" THEN {} ELSE
             Clause("every_node_once", NoRepeat(e.ret) /\ Range(e.ret) = Ids(nodes))
             \cup Clause("parents_first", ExecutionOrder(nodes, edges, e.ret)))
       \cup Clause("unchanged", Unchanged(e))
C25nt(e) == e.e = "order" /\ ~Cyclic(nodes, edges) /\ edges # {}

(* prune: ty, dir, bases (id -> base id); remove_ids: ids *)
C26(e) ==
  CASE e.e = "prune" ->
         LET P == Pruned(nodes, edges, e.ty, e.dir, Range(e.keep)) IN
         Clause("no_crash", e.out = "ok")
         \cup Clause("removed_exactly_peelable", Obs(e).ns = RemoveNodes(nodes, P))
         \cup Clause("edges_of_the_rest_kept", Obs(e).ch = RemoveEdgesOf(edges, P) /\ Obs(e).pa = Obs(e).ch)
         \cup (IF e.out # "ok" THEN {} ELSE
               Clause("reported_each_once", Len(e.ret) = Cardinality(P) /\ NoRepeat(e.ret))
               \cup Clause("reported_exact", Range(e.ret) = {e.bases[n] : n \in {x \in P : x \in DOMAIN e.bases}}))
    [] e.e = "remove_ids" ->
         LET P == Range(e.ids) IN
         Clause("no_crash", e.out = "ok")
         \cup Clause("exactly_these_disappear", Obs(e).ns = RemoveNodes(nodes, P))
         \cup Clause("edges_of_the_rest_kept", Obs(e).ch = RemoveEdgesOf(edges, P) /\ Obs(e).pa = Obs(e).ch)
    [] OTHER -> {}
C26nt(e) == \/ e.e = "prune" /\ Pruned(nodes, edges, e.ty, e.dir, Range(e.keep)) # {}
            \/ e.e = "remove_ids" /\ e.ids # <<>>

Violated(e) ==
  CASE Prop = "C21" -> C21(e) [] Prop = "C22" -> C22(e) [] Prop = "C23" -> C23(e)
    [] Prop = "C24" -> C24(e) [] Prop = "C25" -> C25(e) [] Prop = "C26" -> C26(e)
Nontrivial(e) ==
  CASE Prop = "C21" -> C21nt(e) [] Prop = "C22" -> C22nt(e) [] Prop = "C23" -> C23nt(e)
    [] Prop = "C24" -> C24nt(e) [] Prop = "C25" -> C25nt(e) [] Prop = "C26" -> C26nt(e)
Relevant(e) ==
  CASE Prop = "C21" -> e.e = "reset" \/ IsUpdate(e)
    [] Prop = "C22" -> e.e \in {"heads", "tails"}
    [] Prop = "C23" -> e.e = "validate" [] Prop = "C24" -> e.e = "paths"
    [] Prop = "C25" -> e.e = "order" [] Prop = "C26" -> e.e \in {"prune", "remove_ids"}

Init == /\ nodes = EmptyFn /\ edges = {} /\ forb = EmptyFn
        /\ l = 1 /\ bad = <<>> /\ nt = <<0, 0>>

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         v == Violated(e)
     IN /\ l' = l + 1
        /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
        /\ nt' = <<nt[1] + (IF Relevant(e) THEN 1 ELSE 0), nt[2] + (IF Nontrivial(e) THEN 1 ELSE 0)>>
        /\ nodes' = e.obs.nodes          \* continue from what was observed
        /\ edges' = EdgeSet(e.obs.ch)
        /\ forb' = IF e.e = "reset" THEN e.forbid ELSE forb

Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1
  /\ UNCHANGED <<nodes, edges, forb, bad, nt>>

Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
