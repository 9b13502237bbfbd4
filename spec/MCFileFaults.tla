------------------------------ MODULE MCFileFaults ------------------------------
(* Every history of Depth steps of saves, loads and obstacles.                      *)
EXTENDS FileFaults, Json
CONSTANTS Depth, Emit
VARIABLES st, hist, out
vars == <<st, hist, out>>

Paths == {"f", "d/f", "d"}
Above(p) == IF p = "d/f" THEN {"d"} ELSE {}
Below(p) == {q \in Paths : p \in Above(q)}
Eds == {"A", "B"}
MaxVersion == 1
Doc(v) == [doc |-> "doc" \o ToString(v), img |-> "img" \o ToString(v)]
Init == /\ st = [files |-> <<>>, dirs |-> {}, saved |-> <<>>, eds |-> ("A" :> Doc(0)), known |-> <<>>]
        /\ hist = <<>> /\ out = "ok"
H(op, e, p) == hist' = Append(hist, [op |-> op, e |-> e, p |-> p])
Save(op, e, p) ==
  IF Blocked(st, p, Above(p)) THEN out' = "err" /\ st' = st
  ELSE out' = "ok" /\ st' = Saved(st, e, p, Above(p), op)
DoSave == \E op \in {"doc", "img"}, e \in DOMAIN st.eds, p \in Paths : Save(op, e, p) /\ H(op, e, p)
(* no room: refused, with a torn file, or nothing changed but folders *)
DoCut == \E op \in {"doc", "img"}, e \in DOMAIN st.eds, p \in Paths :
           /\ H("cut" \o op, e, p)
           /\ IF Blocked(st, p, Above(p)) THEN out' = "err" /\ st' = st
              ELSE \/ out' = "err" /\ \E s \in {st, [st EXCEPT !.dirs = @ \cup Above(p)], Put(st, p, Above(p), "torn")} : st' = s
                   \/ out' = "ok" /\ st' = Saved(st, e, p, Above(p), op)
DoLoad == \E e \in Eds, p \in Paths :
            /\ H("load", e, p)
            /\ IF Known(st, p) THEN out' = "ok" /\ st' = LoadKnown(st, e, p) ELSE out' = "err" /\ st' = st
DoEdit == \E e \in DOMAIN st.eds : st.eds[e] = Doc(0) /\ st' = Edit(st, e, Doc(1)) /\ out' = "ok" /\ H("edit", e, "")
DoMkDir == \E p \in Paths : ~Blocked(st, p, Above(p)) /\ p \notin DOMAIN st.files /\ st' = MkDir(st, p, Above(p)) /\ out' = "ok" /\ H("mkdir", "", p)
DoJunk == \E p \in {"f", "d"} : ~Blocked(st, p, Above(p)) /\ st' = Put(st, p, Above(p), "junk") /\ out' = "ok" /\ H("junk", "", p)
DoRemove == \E p \in Paths :
              /\ p \in DOMAIN st.files \/ (p \in st.dirs /\ \A q \in Below(p) : q \notin DOMAIN st.files /\ q \notin st.dirs)
              /\ st' = Remove(st, p) /\ out' = "ok" /\ H("rm", "", p)
Next == Len(hist) < Depth /\ (DoSave \/ DoCut \/ DoLoad \/ DoEdit \/ DoMkDir \/ DoJunk \/ DoRemove)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
Op == IF hist = <<>> THEN "" ELSE Last.op
(* a save that is not refused is complete *)
NeverSilentlyIncomplete ==
  (Op \in {"doc", "img", "cutdoc", "cutimg"} /\ out = "ok") =>
    st.files[Last.p] = (IF Op \in {"img", "cutimg"} THEN st.eds[Last.e].img ELSE st.eds[Last.e].doc)
(* nothing that is no complete document ever becomes an editor *)
NeverHalfBelieved == \A e \in DOMAIN st.eds : \E v \in 0..MaxVersion : st.eds[e] = Doc(v)
TreeIsATree == \A p \in DOMAIN st.files : p \notin st.dirs /\ Above(p) \subseteq st.dirs
(* a refusal harms no editor and no other file *)
RefusalsDoNoHarm == [][out' = "err" =>
  /\ st'.eds = st.eds /\ st'.known = st.known
  /\ LET h == hist'[Len(hist')] IN
       /\ Drop(st'.files, {h.p}) = Drop(st.files, {h.p})
       /\ h.op \notin {"cutdoc", "cutimg"} => st' = st]_vars
(* once the obstacle is gone the save succeeds *)
ObstaclesPass == \A p \in Paths : (p \in st.dirs /\ Below(p) \cap (DOMAIN st.files \cup st.dirs) = {} /\ \A a \in Above(p) : a \notin DOMAIN st.files)
                                   => CanWrite(Remove(st, p), p, Above(p))
Show == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson(hist))
================================================================================
