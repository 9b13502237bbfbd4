------------------------------ MODULE MCGraph ------------------------------
(* The graph as a state machine, explored exhaustively for few nodes.  Every *)
(* transition (accepted or rejected) is printed, to be replayed in the code. *)
EXTENDS Graph, Json, IOUtils

CONSTANTS NodeIds, Types, Emit
VARIABLE lastOp
vars == <<nodes, edges, lastOp>>

(* type B accepts no child of type A; INPUT_ROOT accepts anything *)
Forbid == [B |-> <<"A">>]

Init == nodes = EmptyFn /\ edges = {} /\ lastOp = [op |-> "init", acc |-> TRUE]

Rejected(o) == lastOp' = o @@ [acc |-> FALSE] /\ UNCHANGED gvars

AddNode(id, ty) ==
  LET o == [op |-> "add_node", id |-> id, ty |-> ty] IN
  IF CanAddNode(nodes, id)
  THEN nodes' = AfterAddNode(nodes, id, ty) /\ UNCHANGED edges /\ lastOp' = o @@ [acc |-> TRUE]
  ELSE Rejected(o)

AddEdge(p, c) ==
  LET o == [op |-> "add_edge", p |-> p, c |-> c] IN
  IF CanAddEdge(nodes, Forbid, p, c)
  THEN edges' = edges \cup {<<p, c>>} /\ UNCHANGED nodes /\ lastOp' = o @@ [acc |-> TRUE]
  ELSE Rejected(o)

RemoveEdge(p, c) ==
  LET o == [op |-> "remove_edge", p |-> p, c |-> c] IN
  IF CanRemoveEdge(edges, p, c)
  THEN edges' = edges \ {<<p, c>>} /\ UNCHANGED nodes /\ lastOp' = o @@ [acc |-> TRUE]
  ELSE Rejected(o)

RemoveNode(id) ==
  LET o == [op |-> "remove_node", id |-> id] IN
  IF CanRemoveNode(nodes, id)
  THEN /\ nodes' = Without(nodes, {id}) /\ edges' = AfterRemoveNodeEdges(edges, id)
       /\ lastOp' = o @@ [acc |-> TRUE]
  ELSE Rejected(o)

Record == Emit => PrintT("@@CASE " \o ToJson([nodes |-> nodes, edges |-> edges, op |-> lastOp',
                                              nodes2 |-> nodes', edges2 |-> edges']))

Next == /\ \/ \E id \in NodeIds, ty \in Types : AddNode(id, ty)
           \/ \E p, c \in NodeIds : AddEdge(p, c) \/ RemoveEdge(p, c)
           \/ \E id \in NodeIds : RemoveNode(id)
        /\ Record

Spec == Init /\ [][Next]_vars
View == gvars

(* All graphs of a fixed set of nodes, as initial states (no steps): the     *)
(* inputs of the queries.  Shape "dag": acyclic ones, "valid": valid ones.   *)
CONSTANT Shape
NoStep == FALSE /\ UNCHANGED vars
InitShapes ==
  /\ nodes \in [NodeIds -> Types]
  /\ edges \in SUBSET {e \in NodeIds \X NodeIds : e[1] # e[2]}
  /\ CASE Shape = "dag" -> ~Cyclic(nodes, edges)
       [] Shape = "valid" -> Valid(nodes, edges)
       [] OTHER -> TRUE
  /\ lastOp = [op |-> "init", acc |-> TRUE]
SpecShapes == InitShapes /\ [][NoStep]_vars
ShowShape == Emit => PrintT("@@CASE " \o ToJson([nodes |-> nodes, edges |-> edges]))

(* ---------------------- what the model must satisfy ---------------------- *)
Structure == WellFormed(nodes, edges, Forbid)
ParentIffChild == \A a, b \in Ids(nodes) : a \in Parents(edges, b) <=> b \in Children(edges, a)
RejectedChangesNothing == [][~lastOp'.acc => UNCHANGED gvars]_vars
OnlyRemovalsRemove ==
  [][edges' \subseteq edges \/ lastOp'.op = "add_edge"]_vars

(* queries agree with each other *)
HeadsOrCycle == Ids(nodes) # {} => (Heads(nodes, edges) # {} \/ Cyclic(nodes, edges))
CycleHasNoOrder ==
  LET Seqs == {s \in [1..Cardinality(Ids(nodes)) -> Ids(nodes)] : NoRepeat(s)}
  IN (\E s \in Seqs : ExecutionOrder(nodes, edges, s)) <=> ~Cyclic(nodes, edges)
PathsSound ==
  \A a, b \in Ids(nodes) : (b \in ReachFrom(edges, a) \cup {a}) <=> Paths(edges, a, b, 20) # {}
PruneFixpoint ==
  \A ty \in Types, dir \in {"heads", "leafs"}, K \in {{}} \cup {{n} : n \in Ids(nodes)} :
    LET P == Pruned(nodes, edges, ty, dir, K) IN
    /\ \A n \in P : nodes[n] = ty /\ n \notin K
    /\ Prunable(RemoveNodes(nodes, P), RemoveEdgesOf(edges, P), ty, dir, K) = {}
    /\ \A n \in P : IF dir = "heads" THEN Parents(edges, n) \subseteq P ELSE Children(edges, n) \subseteq P
=============================================================================
