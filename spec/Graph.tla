------------------------------- MODULE Graph -------------------------------
(* Directed graph of typed nodes: state, operations and their outcome, and *)
(* the declarative meaning of every query of the graph (C21..C25).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES nodes,   \* function: id of an existing node -> its type
          edges    \* set of <<parent, child>>

gvars == <<nodes, edges>>

Ids(ns) == DOMAIN ns
EmptyFn == <<>>
Put(f, k, v) == (k :> v) @@ f
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]

(* ------------------------- operations ---------------------------------- *)
(* An operation is accepted exactly when its CanX predicate holds;          *)
(* otherwise it is rejected and must leave the graph as it is.              *)

CanAddNode(ns, id) == id \notin Ids(ns)
AfterAddNode(ns, id, ty) == Put(ns, id, ty)

(* forbid: function type -> sequence of types its children cannot have      *)
Forbidden(forbid, ty) ==
  IF ty \in DOMAIN forbid THEN {forbid[ty][i] : i \in 1..Len(forbid[ty])} ELSE {}

CanAddEdge(ns, forbid, p, c) ==
  /\ p \in Ids(ns) /\ c \in Ids(ns) /\ p # c
  /\ ns[c] \notin Forbidden(forbid, ns[p])

CanRemoveEdge(es, p, c) == <<p, c>> \in es
CanRemoveNode(ns, id) == id \in Ids(ns)
AfterRemoveNodeEdges(es, id) == {e \in es : e[1] # id /\ e[2] # id}

(* ------------------------- structure (C21) ----------------------------- *)
WellFormed(ns, es, forbid) ==
  \A e \in es : /\ e[1] \in Ids(ns) /\ e[2] \in Ids(ns) /\ e[1] # e[2]
                /\ ns[e[2]] \notin Forbidden(forbid, ns[e[1]])

(* ------------------------- queries ------------------------------------- *)
Children(es, n) == {e[2] : e \in {x \in es : x[1] = n}}
Parents(es, n)  == {e[1] : e \in {x \in es : x[2] = n}}

Heads(ns, es) == {n \in Ids(ns) : Parents(es, n) = {}}
Tails(ns, es) == {n \in Ids(ns) : Children(es, n) = {}}

RECURSIVE Closure(_, _)
Closure(es, S) ==      \* S and everything reachable from it
  LET T == S \cup UNION {Children(es, n) : n \in S}
  IN IF T = S THEN S ELSE Closure(es, T)

ReachFrom(es, n) == Closure(es, Children(es, n))
OnCycle(ns, es) == {n \in Ids(ns) : n \in ReachFrom(es, n)}
Cyclic(ns, es) == OnCycle(ns, es) # {}
LeadsToCycle(ns, es, n) == (ReachFrom(es, n) \cup {n}) \cap OnCycle(ns, es) # {}

InputRoot == "INPUT_ROOT_NODE_TYPE"
Unconnected(ns, es) == {n \in Heads(ns, es) : ns[n] # InputRoot}
Valid(ns, es) == ~Cyclic(ns, es) /\ Unconnected(ns, es) = {}

RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(es, path, b, k) ==   \* simple extensions of path to b, at most k nodes in total
  LET a == path[Len(path)] IN
  IF a = b THEN {path}
  ELSE IF Len(path) >= k THEN {}
  ELSE UNION {PathsFrom(es, Append(path, c), b, k) :
              c \in {x \in Children(es, a) : \A i \in 1..Len(path) : path[i] # x}}
Paths(es, a, b, k) == IF k < 1 THEN {} ELSE PathsFrom(es, <<a>>, b, k)

Range(s) == {s[i] : i \in 1..Len(s)}
NoRepeat(s) == Cardinality(Range(s)) = Len(s)

ExecutionOrder(ns, es, s) ==
  /\ NoRepeat(s) /\ Range(s) = Ids(ns)
  /\ \A i \in 1..Len(s) : \A p \in Parents(es, s[i]) : \E j \in 1..(i-1) : s[j] = p

(* ------------------------- pruning (C26) -------------------------------- *)
(* K: the nodes that have to be kept *)
Prunable(ns, es, ty, dir, K) ==
  {n \in Ids(ns) \ K : /\ ns[n] = ty
                   /\ IF dir = "heads" THEN Parents(es, n) = {} ELSE Children(es, n) = {}}
RemoveNodes(ns, S) == Without(ns, S)
RemoveEdgesOf(es, S) == {e \in es : e[1] \notin S /\ e[2] \notin S}

RECURSIVE Pruned(_, _, _, _, _)
Pruned(ns, es, ty, dir, K) ==     \* ids removed by peeling until nothing can be peeled
  LET P == Prunable(ns, es, ty, dir, K)
  IN IF P = {} THEN {}
     ELSE P \cup Pruned(RemoveNodes(ns, P), RemoveEdgesOf(es, P), ty, dir, K)
=============================================================================
