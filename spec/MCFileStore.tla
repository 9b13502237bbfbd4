------------------------------ MODULE MCFileStore ------------------------------
(* Every history of Depth steps over two editors and nested and bare paths.        *)
EXTENDS FileStore, Json
CONSTANTS Depth, Emit
VARIABLES st, hist
vars == <<st, hist>>

Paths == {"f", "g", "d/f", "d/e/f", "d/e"}
Above(p) == CASE p \in {"f", "g"} -> {} [] p \in {"d/f", "d/e"} -> {"d"} [] p = "d/e/f" -> {"d", "d/e"}
Eds == {"A", "B"}
MaxVersion == 2
Doc(v) == [doc |-> "doc" \o ToString(v), img |-> "img" \o ToString(v)]
VersionOf(s) == CHOOSE v \in 0..MaxVersion : Doc(v) = s

Init == /\ st = [files |-> <<>>, dirs |-> {}, saved |-> <<>>, eds |-> ("A" :> Doc(0))]
        /\ hist = <<>>
H(op, e, p) == hist' = Append(hist, [op |-> op, e |-> e, p |-> p])
DoSave == \E e \in DOMAIN st.eds, p \in Paths : CanWrite(st, p, Above(p)) /\ st' = SaveDoc(st, e, p, Above(p)) /\ H("doc", e, p)
DoImgs == \E e \in DOMAIN st.eds, p \in Paths : CanWrite(st, p, Above(p)) /\ st' = SaveImgs(st, e, p, Above(p)) /\ H("img", e, p)
DoLoad == \E e \in Eds, p \in Paths : CanLoad(st, p) /\ st' = Load(st, e, p) /\ H("load", e, p)
DoEdit == \E e \in DOMAIN st.eds : VersionOf(st.eds[e]) < MaxVersion /\ st' = Edit(st, e, Doc(VersionOf(st.eds[e]) + 1)) /\ H("edit", e, "")
DoJunk == \E p \in {"f", "d/f"} : CanWrite(st, p, Above(p)) /\ st' = Foreign(st, p, Above(p), "junk") /\ H("junk", "", p)
Next == Len(hist) < Depth /\ (DoSave \/ DoImgs \/ DoLoad \/ DoEdit \/ DoJunk)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties -------------------------------- *)
TreeIsATree == /\ \A p \in DOMAIN st.files : p \notin st.dirs /\ Above(p) \subseteq st.dirs
               /\ DOMAIN st.saved \subseteq DOMAIN st.files
LastWriter(p) == LET W == {i \in 1..Len(hist) : hist[i].p = p /\ hist[i].op \in {"doc", "img", "junk"}}
                 IN IF W = {} THEN 0 ELSE CHOOSE i \in W : \A j \in W : j <= i
FileHoldsWhatWasWrittenLast ==
  \A p \in Paths : LET i == LastWriter(p) IN
    /\ (i = 0) = (p \notin DOMAIN st.files)
    /\ i # 0 => CASE hist[i].op = "junk" -> st.files[p] = "junk"
                  [] hist[i].op = "doc" -> st.files[p] = st.saved[p].doc
                  [] hist[i].op = "img" -> \E v \in 0..MaxVersion : st.files[p] = Doc(v).img
(* loading and saving again does not change the file, and gives the editor back *)
ReloadIsIdentity ==
  \A p \in DOMAIN st.saved, e \in Eds :
    LET s == Load(st, e, p) IN
      /\ s.eds[e] = st.saved[p]
      /\ SaveDoc(s, e, p, Above(p)).files = st.files
      /\ \A q \in DOMAIN st.saved \ {p} : Load(s, e, q).eds[e] = Load(st, e, q).eds[e]
EditsDoNotTouchFiles == \A e \in DOMAIN st.eds : Edit(st, e, Doc(0)).files = st.files
Show == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson(hist))
================================================================================
