------------------------------- MODULE FileTrace -------------------------------
(* Validation of saving and loading observed on a real folder.  After every step     *)
(* the trace holds the whole folder (digest of the content of every file as a JSON     *)
(* value, or of its bytes if it is none), and the digests of the document and the      *)
(* image references of every editor.                                                   *)
EXTENDS FileStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, nt
vars == <<l, st, bad, nt>>
Clause(name, holds) == IF holds THEN {} ELSE {name}
RangeOf(s) == {s[i] : i \in 1..Len(s)}

Expected(e) ==
  CASE e.op = "doc" -> SaveDoc(st, e.ed, e.path, RangeOf(e.above))
    [] e.op = "img" -> SaveImgs(st, e.ed, e.path, RangeOf(e.above))
    [] e.op = "load" -> Load(st, e.ed, e.path)
    [] e.op = "edit" -> Edit(st, e.ed, e.eds[e.ed])
    [] e.op = "junk" -> Foreign(st, e.path, RangeOf(e.above), e.content)
Observed(e, x) == [files |-> e.files, dirs |-> RangeOf(e.dirs), saved |-> x.saved, eds |-> e.eds]
Writes(e) == e.op \in {"doc", "img"}
C03(e) ==
  LET x == Expected(e) IN
  Clause("succeeds", e.out = "ok")
  \cup Clause("file_is_there", Writes(e) => e.path \in DOMAIN e.files)
  \cup Clause("file_holds_the_document", (Writes(e) /\ e.path \in DOMAIN e.files) => e.files[e.path] = x.files[e.path])
  \cup Clause("no_other_file_touched", Drop(e.files, {e.path}) = Drop(x.files, {e.path}))
  \cup Clause("no_other_folder", RangeOf(e.dirs) = x.dirs)
  \cup Clause("loaded_editor_is_the_saved_one", (e.op = "load" /\ e.out = "ok") => e.eds[e.ed] = x.eds[e.ed])
  \cup Clause("editors_unchanged", Drop(e.eds, {e.ed}) = Drop(x.eds, {e.ed}) /\ (Writes(e) => e.eds[e.ed] = x.eds[e.ed]))

Start(e) == [files |-> e.files, dirs |-> RangeOf(e.dirs), saved |-> <<>>, eds |-> e.eds]
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Init == l = 1 /\ bad = <<>> /\ nt = <<0, 0>> /\ st = [files |-> <<>>, dirs |-> {}, saved |-> <<>>, eds |-> <<>>]
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.e = "reset" THEN st' = Start(e) /\ UNCHANGED <<bad, nt>> /\ l' = l + 1
     ELSE LET v == C03(e)  x == Expected(e) IN
       /\ l' = l + 1
       /\ st' = Observed(e, x)
       /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
       /\ nt' = <<nt[1] + 1, nt[2] + (IF e.op = "load" \/ (Writes(e) /\ (e.path \in DOMAIN st.files \/ e.above # <<>>)) THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<st, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
================================================================================
