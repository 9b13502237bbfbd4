------------------------------- MODULE NodeStore -------------------------------
(* What graphs hold (C34): several graphs side by side; every node with the data,   *)
(* the type and the public id it was given; the kinds of children a kind of node of *)
(* an animation can have.  A graph of sort "plain" takes any type, one of sort      *)
(* "spine" the node types of an animation only.                                     *)
EXTENDS Graph

Sorts == {"plain", "spine"}
SpineTypes == {"BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"}
AllNodeTypes == SpineTypes \cup {"PATH", "DEFAULT"}
NotUnder(ty) ==
  CASE ty = "BONE" -> {"ATTACHMENT"}
    [] ty = "SLOT" -> {"BONE", "PATH", "IK"}
    [] ty = "IK" -> {"PATH", "IK", "ATTACHMENT", "IMAGE"}
    [] ty = "ATTACHMENT" -> {"PATH", "IK", "ATTACHMENT", "BONE"}
    [] ty = "IMAGE" -> AllNodeTypes
    [] OTHER -> {}

EmptyGraph == [ns |-> EmptyFn, es |-> {}]
Node(id, ty, d, pub) == [ty |-> ty, d |-> d, pub |-> IF pub = "" THEN id ELSE pub]

(* graph g of sort s *)
MayAdd(s, g, o) == (o.gen \/ (o.idok /\ o.id \notin DOMAIN g.ns)) /\ (s = "spine" => o.ty \in SpineTypes)
MayLink(s, g, o) ==
  /\ o.idok /\ o.id \in DOMAIN g.ns /\ o.c \in DOMAIN g.ns /\ o.id # o.c
  /\ s = "spine" => g.ns[o.c].ty \notin NotUnder(g.ns[o.id].ty)
May(s, g, o) ==
  CASE o.op = "add" -> MayAdd(s, g, o)
    [] o.op = "link" -> MayLink(s, g, o)
    [] o.op = "unlink" -> o.idok /\ <<o.id, o.c>> \in g.es
    [] o.op = "remove" -> o.idok /\ o.id \in DOMAIN g.ns
    [] OTHER -> TRUE
(* id: the one asked for, or the one that was generated *)
After(s, g, o, id) ==
  IF ~May(s, g, o) THEN g
  ELSE CASE o.op = "add" -> [g EXCEPT !.ns = Put(@, id, Node(id, o.ty, o.d, o.pub))]
         [] o.op = "link" -> [g EXCEPT !.es = @ \cup {<<o.id, o.c>>}]
         [] o.op = "unlink" -> [g EXCEPT !.es = @ \ {<<o.id, o.c>>}]
         [] o.op = "remove" -> [ns |-> Without(g.ns, {o.id}), es |-> AfterRemoveNodeEdges(g.es, o.id)]
         [] OTHER -> g
================================================================================
