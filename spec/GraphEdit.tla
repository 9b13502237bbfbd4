------------------------------- MODULE GraphEdit -------------------------------
(* Working on the graph of a document (C30): removing slots and attachments by     *)
(* id, pruning heads and leaves of one type (some ids excepted), asking for heads   *)
(* and leaves of one type, reading the graph back as bones, slots and IK             *)
(* constraints, and building it again from what was read back.                       *)
(* The document d is as in DocGraph; its bones, slots and iks may have more fields,  *)
(* which stand for their content.                                                    *)
EXTENDS DocGraph, Graph

(* a request: [op |-> "slots", ids] [op |-> "atts", ids]                             *)
(*            [op |-> "heads", ty, keep |-> <<>>] [op |-> "leafs", ty, keep]          *)
HeadsOf(ns, es, ty) == {n \in Heads(ns, es) : ns[n] = ty}
LeafsOf(ns, es, ty, K) == {n \in Tails(ns, es) \ K : ns[n] = ty}
RECURSIVE Peeled(_, _, _, _, _)
Peeled(ns, es, dir, ty, K) ==
  LET P == IF dir = "heads" THEN HeadsOf(ns, es, ty) ELSE LeafsOf(ns, es, ty, K) IN
  IF P = {} THEN {} ELSE P \cup Peeled(RemoveNodes(ns, P), RemoveEdgesOf(es, P), dir, ty, K)

GIds(bases, ty) == {GId(b, ty) : b \in SetOf(bases)}
Goes(ns, es, o) ==
  CASE o.op = "slots" -> GIds(o.ids, "SLOT")
    [] o.op = "atts" -> GIds(o.ids, "ATTACHMENT")
    [] OTHER -> Peeled(ns, es, o.op, o.ty, GIds(o.keep, o.ty))
CanDo(ns, o) ==
  CASE o.op = "slots" -> GIds(o.ids, "SLOT") \subseteq DOMAIN ns /\ NoRepeat(o.ids)
    [] o.op = "atts" -> GIds(o.ids, "ATTACHMENT") \subseteq DOMAIN ns /\ NoRepeat(o.ids)
    [] OTHER -> TRUE

(* what is left of the document *)
Left(d, ns) ==
  LET In(ty, x) == GId(x.n, ty) \in DOMAIN ns IN
  [d EXCEPT !.bones = SelectSeq(d.bones, LAMBDA x : In("BONE", x)),
            !.slots = SelectSeq(d.slots, LAMBDA x : In("SLOT", x)),
            !.iks = SelectSeq(d.iks, LAMBDA x : In("IK", x))]
(* the graph of what is left: bones and slots may have lost their parent *)
BuiltNodes(d) == GNodes(d)
BuiltEdges(d) == {e \in GEdges(d) : e[1] \in DOMAIN GNodes(d) /\ e[2] \in DOMAIN GNodes(d)}
=============================================================================
