------------------------------ MODULE MCDocGraph ------------------------------
(* Every small document over names that look like ids of the graph; checks that  *)
(* the graph has the shape the edits rely on, and prints the documents.          *)
EXTENDS DocGraph, Json

CONSTANTS NSlots, Emit
VARIABLES bones, slots, skins, iks
vars == <<bones, slots, skins, iks>>
D == [bones |-> bones, slots |-> slots, skins |-> skins, iks |-> iks]

NamesOf == <<"a", "a_SLOT", "a_BONE">>
AttNames == {"a", "a_SLOT", "a_IMAGE"}
Opts == {[p |-> "", m |-> ""], [p |-> "a", m |-> "b"], [p |-> "", m |-> "a_SLOT"]}
Empty == <<>>
(* parents come before children *)
Init ==
  /\ \E p \in {"root", "a"} :
       bones = <<[n |-> "root", p |-> ""], [n |-> "a", p |-> "root"], [n |-> "a_BONE", p |-> p]>>
  /\ \E n \in [1..NSlots -> {"root", "a_BONE"}] : slots = [i \in 1..NSlots |-> [n |-> NamesOf[i], b |-> n[i]]]
  /\ \E f \in [1..NSlots -> (SUBSET AttNames)], g \in SUBSET AttNames, o \in Opts, q \in Opts :
       skins = <<[n |-> "default", at |-> [s \in {slots[i].n : i \in {j \in 1..NSlots : f[j] # {}}} |->
                    [k \in f[CHOOSE i \in 1..NSlots : slots[i].n = s] |-> o]]],
                 [n |-> "s1", at |-> IF g = {} THEN Empty ELSE "a" :> [k \in g |-> q]]>>
  /\ iks \in {<<>>, <<[n |-> "a", b |-> <<"a">>, t |-> "a_BONE"]>>,
              <<[n |-> "a_BONE", b |-> <<"a", "a_BONE">>, t |-> "root"], [n |-> "a", b |-> <<"a_BONE">>, t |-> "a"]>>}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Allowed == {<<"BONE", "BONE">>, <<"BONE", "SLOT">>, <<"BONE", "IK">>, <<"SLOT", "ATTACHMENT">>, <<"ATTACHMENT", "IMAGE">>, <<"IK", "BONE">>}
TypesOfEdges == LET n == GNodes(D) IN \A e \in GEdges(D) : e[1] \in DOMAIN n /\ e[2] \in DOMAIN n /\ <<n[e[1]], n[e[2]]>> \in Allowed
OneNodeEach ==
  LET n == GNodes(D) IN
  /\ Cardinality({x \in DOMAIN n : n[x] = "BONE"}) = Len(bones)
  /\ Cardinality({x \in DOMAIN n : n[x] = "SLOT"}) = Len(slots)
  /\ Cardinality({x \in DOMAIN n : n[x] = "IK"}) = Len(iks)
  /\ Cardinality({x \in DOMAIN n : n[x] = "ATTACHMENT"}) = Cardinality({x[2] : x \in Given(D)})
  /\ Cardinality({x \in DOMAIN n : n[x] = "IMAGE"}) = Cardinality({x[3] : x \in Given(D)})
LeafSlotsAreEmptySlots ==
  \A i \in 1..Len(slots) : (\A e \in GEdges(D) : e[1] # GId(slots[i].n, "SLOT"))
                           <=> (\A j \in 1..Len(skins) : slots[i].n \notin DOMAIN skins[j].at)
Show == Emit => PrintT("@@CASE " \o ToJson(D))
=============================================================================
