------------------------------ MODULE MCGraphEdit ------------------------------
(* Histories of requests on the graphs of small documents.                         *)
EXTENDS GraphEdit, Json
CONSTANTS Depth, Rich, Emit
VARIABLES doc, hist
vars == <<nodes, edges, doc, hist>>

Att(p) == [p |-> p, m |-> ""]
Empty == <<>>
Given2 == [{"a", "a_SLOT"} -> SUBSET (IF Rich THEN {"a", "a_SLOT", "x"} ELSE {"a", "x"})]
SkinsOf(f, g) ==
  <<[n |-> "default", at |-> [s \in {t \in DOMAIN f : f[t] # {}} |-> [k \in f[s] |-> Att("")]]],
    [n |-> "s1", at |-> IF g = {} THEN Empty ELSE "a" :> [k \in g |-> Att("pic")]]>>
IkOpts == {<<>>, <<[n |-> "a", b |-> <<"a">>, t |-> "root"]>>,
           <<[n |-> "k", b |-> <<"a">>, t |-> "a_SLOT"], [n |-> "a", b |-> <<"a_SLOT">>, t |-> "root"]>>}
Init ==
  /\ \E f \in Given2, g \in SUBSET {"x", "a_SLOT"}, ik \in IkOpts, p \in {"root", "a"} :
       doc = [bones |-> <<[n |-> "root", p |-> ""], [n |-> "a", p |-> "root"], [n |-> "a_SLOT", p |-> p]>>,
              slots |-> <<[n |-> "a", b |-> "a"], [n |-> "a_SLOT", b |-> "root"]>>,
              skins |-> SkinsOf(f, g), iks |-> ik]
  /\ nodes = GNodes(doc) /\ edges = GEdges(doc) /\ hist = <<>>

Bases == <<"a", "a_SLOT", "x">>
One(o, i) == [op |-> o, ty |-> "", ids |-> <<Bases[i]>>, keep |-> <<>>]
Prune(o, ty, keep) == [op |-> o, ty |-> ty, ids |-> <<>>, keep |-> keep]
Types == {"BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"}
Requests == {One("slots", i) : i \in 1..2} \cup {One("atts", i) : i \in 1..3}
            \cup {[One("slots", 1) EXCEPT !.ids = <<"a_SLOT", "a">>]}
            \cup {Prune("heads", ty, <<>>) : ty \in Types} \cup {Prune("leafs", ty, <<>>) : ty \in Types}
            \cup {Prune("leafs", "SLOT", <<"a">>), Prune("leafs", "BONE", <<"a_SLOT">>)}
Next ==
  /\ Len(hist) < Depth
  /\ \E o \in Requests :
       /\ CanDo(nodes, o)
       /\ LET g == Goes(nodes, edges, o) IN
          /\ nodes' = RemoveNodes(nodes, g) /\ edges' = RemoveEdgesOf(edges, g)
       /\ hist' = Append(hist, o) /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars

(* building again what was read back gives the edges that are left between bones,    *)
(* slots and IK constraints                                                           *)
Skeleton(ns) == {n \in DOMAIN ns : ns[n] \in {"BONE", "SLOT", "IK"}}
Between(es, N) == {e \in es : e[1] \in N /\ e[2] \in N}
RoundTrip ==
  LET d == Left(doc, nodes) IN
  /\ Skeleton(BuiltNodes(d)) = Skeleton(nodes)
  /\ Between(BuiltEdges(d), Skeleton(nodes)) = Between(edges, Skeleton(nodes))
(* reading back twice, and from the graph built again, gives the same *)
Stable == LET d == Left(doc, nodes) IN Left(d, BuiltNodes(d)) = d
Pruned1 == hist # <<>> =>
  LET o == hist[Len(hist)] IN
  CASE o.op = "heads" -> HeadsOf(nodes, edges, o.ty) = {}
    [] o.op = "leafs" -> LeafsOf(nodes, edges, o.ty, GIds(o.keep, o.ty)) = {}
    [] OTHER -> GIds(o.ids, IF o.op = "slots" THEN "SLOT" ELSE "ATTACHMENT") \cap DOMAIN nodes = {}
(* nothing but what was asked goes, and ids to keep stay *)
OnlyAsked == [][LET o == hist'[Len(hist')]  g == DOMAIN nodes \ DOMAIN nodes' IN
                /\ \A n \in g : nodes[n] = (CASE o.op = "slots" -> "SLOT" [] o.op = "atts" -> "ATTACHMENT" [] OTHER -> o.ty)
                /\ g \cap GIds(o.keep, o.ty) = {}]_vars
NoDangling == \A e \in edges : e[1] \in DOMAIN nodes /\ e[2] \in DOMAIN nodes
(* cleaning: a slot that leaf pruning takes is one no skin gives any remaining attachment *)
CleaningTakesEmptySlots ==
  (hist # <<>> /\ hist[Len(hist)] = Prune("leafs", "SLOT", <<>>) /\ Len(hist) = 1) =>
    {GId(doc.slots[i].n, "SLOT") : i \in {j \in 1..Len(doc.slots) : \E x \in Given(doc) : x[1] = doc.slots[j].n}}
      = {n \in DOMAIN nodes : nodes[n] = "SLOT"}
Show == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([doc |-> doc, ops |-> hist]))
=============================================================================
