----------------------------- MODULE NodeStoreTrace ----------------------------
(* Validation of what several real graphs hold after every request (C34).           *)
EXTENDS NodeStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sorts, gs, bad, nt
vars == <<nodes, edges, l, sorts, gs, bad, nt>>

Clause(name, holds) == IF holds THEN {} ELSE {name}
EdgeSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
(* a graph as it was observed: its nodes (a node that has changed its id or is not in its place is marked in its data) *)
Seen(x) == [ns |-> x.ns, es |-> EdgeSet(x.es)]
Observed(e) == [n \in DOMAIN sorts |-> Seen(e.obs[n])]

Judge(e) ==
  CASE e.e = "reset" -> Clause("graphs_start_empty", \A n \in DOMAIN e.sorts : Seen(e.obs[n]) = EmptyGraph)
    [] e.e = "request" ->
         LET o == e.o  n == e.g  s == sorts[n]  ok == May(s, gs[n], o) IN
         Clause("refused_iff_it_must_be", (e.out = "ok") = ok \/ (o.op = "unlink" /\ ~ok))
         \cup Clause("generated_id_is_new", (ok /\ o.op = "add" /\ o.gen) => e.ret \notin DOMAIN gs[n].ns)
         \cup Clause("gives_back_the_node_itself", (ok /\ e.out = "ok") => e.itself)
         \cup Clause("holds_what_was_put_in", Observed(e)[n].ns = After(s, gs[n], o, e.ret).ns)
         \cup Clause("edges_as_asked", Observed(e)[n].es = After(s, gs[n], o, e.ret).es)
         \cup Clause("other_graphs_untouched", \A m \in DOMAIN sorts \ {n} : Observed(e)[m] = gs[m])
         \cup Clause("data_given_untouched", e.intact)
    [] e.e = "get" ->
         Clause("found_iff_there", e.out = "ok" /\ e.found = (e.id \in DOMAIN gs[e.g].ns))
         \cup Clause("finds_the_node_put_in", e.found => e.itself)
         \cup Clause("asking_changes_nothing", Observed(e) = gs /\ e.intact)
    [] e.e = "same" ->
         Clause("equal_iff_same_id", e.out = "ok" /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b))
         \cup Clause("equal_nodes_hash_alike", e.a = e.b => e.hash)
         \cup Clause("found_in_a_set_iff_equal", e.inset = (e.a = e.b))
    [] OTHER -> {"unknown_event"}
Telling(e) == e.e # "reset" /\ \E n \in DOMAIN gs : gs[n].es # {}

Init == /\ nodes = EmptyFn /\ edges = {} /\ l = 1 /\ sorts = EmptyFn /\ gs = EmptyFn /\ bad = <<>> /\ nt = <<0, 0>>
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
Step ==
  /\ l <= Len(Trace) /\ UNCHANGED gvars
  /\ LET e == Trace[l]  v == Judge(e) IN
     /\ l' = l + 1
     /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> Listed(v)])
     /\ nt' = <<nt[1] + (IF e.e = "reset" THEN 0 ELSE 1), nt[2] + (IF Telling(e) THEN 1 ELSE 0)>>
     /\ sorts' = IF e.e = "reset" THEN e.sorts ELSE sorts
     /\ gs' = [n \in DOMAIN sorts' |-> Seen(e.obs[n])]
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<nodes, edges, sorts, gs, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
================================================================================
