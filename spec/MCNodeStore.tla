------------------------------ MODULE MCNodeStore ------------------------------
(* Every transition of two graphs side by side.                                     *)
EXTENDS NodeStore, Json

CONSTANTS NodeIds, Types, Datas, Pubs, Emit
VARIABLES gs, op        \* op: the last request, [g |-> graph it went to, acc |-> accepted] @@ request
vars == <<nodes, edges, gs, op>>

Names == {"g", "h"}
SortOf(n) == IF n = "g" THEN "plain" ELSE "spine"
Requests ==
  [op : {"add"}, id : NodeIds, c : {""}, gen : {FALSE}, idok : {TRUE}, ty : Types, d : Datas, pub : Pubs]
  \cup [op : {"link", "unlink"}, id : NodeIds, c : NodeIds, gen : {FALSE}, idok : {TRUE}, ty : {""}, d : {""}, pub : {""}]
  \cup [op : {"remove"}, id : NodeIds, c : {""}, gen : {FALSE}, idok : {TRUE}, ty : {""}, d : {""}, pub : {""}]

Init == /\ nodes = EmptyFn /\ edges = {}
        /\ gs = [n \in Names |-> EmptyGraph] /\ op = [g |-> "", acc |-> TRUE]
Next == /\ UNCHANGED gvars
        /\ \E n \in Names, o \in Requests :
             /\ gs' = [gs EXCEPT ![n] = After(SortOf(n), @, o, o.id)]
             /\ op' = o @@ [g |-> n, acc |-> May(SortOf(n), gs[n], o)]
             /\ Emit => PrintT("@@CASE " \o ToJson([g |-> gs["g"], h |-> gs["h"], op |-> op']))
Spec == Init /\ [][Next]_vars
View == gs

(* ------------------------------------ laws ------------------------------------ *)
EdgesJoinNodes == \A n \in Names : \A e \in gs[n].es : e[1] \in DOMAIN gs[n].ns /\ e[2] \in DOMAIN gs[n].ns /\ e[1] # e[2]
TypesRespected == \A e \in gs["h"].es : gs["h"].ns[e[2]].ty \notin NotUnder(gs["h"].ns[e[1]].ty)
OnlyKnownTypes == \A i \in DOMAIN gs["h"].ns : gs["h"].ns[i].ty \in SpineTypes
OthersUntouched == [][\A n \in Names : n # op'.g => gs'[n] = gs[n]]_vars
RejectedChangesNothing == [][~op'.acc => gs' = gs]_vars
NodesNeverChange == [][\A n \in Names : \A i \in DOMAIN gs[n].ns \cap DOMAIN gs'[n].ns : gs[n].ns[i] = gs'[n].ns[i]]_vars
NewNodesAreBare == [][\A n \in Names : \A i \in DOMAIN gs'[n].ns \ DOMAIN gs[n].ns : \A e \in gs'[n].es : i \notin {e[1], e[2]}]_vars
================================================================================
