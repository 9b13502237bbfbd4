----------------------------- MODULE FileFaultTrace -----------------------------
(* Validation of saving and loading under faults, observed on a real folder.         *)
EXTENDS FileFaults, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, nt
vars == <<l, st, bad, nt>>
Clause(name, holds) == IF holds THEN {} ELSE {name}
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Seen(e) == [files |-> e.files, dirs |-> RangeOf(e.dirs), eds |-> e.eds, saved |-> <<>>, known |-> st.known]
Same(a, b) == a.files = b.files /\ a.dirs = b.dirs /\ a.eds = b.eds

Kind(e) == IF e.op \in {"img", "cutimg"} THEN "img" ELSE "doc"
Saves(e) == e.op \in {"doc", "img", "cutdoc", "cutimg"}
Cut(e) == e.op \in {"cutdoc", "cutimg"}
SaveClauses(e) ==
  LET above == RangeOf(e.above)  s == Seen(e)  x == Saved(st, e.ed, e.path, above, Kind(e)) IN
  IF Blocked(st, e.path, above)
  THEN Clause("blocked_save_is_reported", e.out = "err")
       \cup Clause("blocked_save_changes_nothing", LeftBlocked(st, above, s))
  ELSE IF e.out = "ok"
  THEN Clause("save_is_complete", e.path \in DOMAIN e.files /\ e.files[e.path] = x.files[e.path])
       \cup Clause("save_touches_nothing_else", Drop(e.files, {e.path}) = Drop(x.files, {e.path}) /\ s.dirs = x.dirs /\ s.eds = x.eds)
  ELSE IF Cut(e)
  THEN Clause("failed_save_is_reported", e.out = "err")
       \cup Clause("failed_save_touches_nothing_else", LeftTorn(st, e.ed, e.path, above, Kind(e), s))
  ELSE {"save_refused"}
LoadClauses(e) ==
  LET s == Seen(e) IN
  IF Known(st, e.path)
  THEN Clause("load_refused", e.out = "ok")
       \cup Clause("load_gives_what_was_saved", e.out = "ok" => Same(s, LoadKnown(st, e.ed, e.path)))
  ELSE Clause("bad_file_is_reported", e.out = "err") \cup Clause("bad_load_changes_nothing", Same(s, st))
C32(e) ==
  CASE Saves(e) -> SaveClauses(e)
    [] e.op = "load" -> LoadClauses(e)
    [] OTHER -> {}
After(e) == LET s == Seen(e) IN IF e.op \in {"doc", "cutdoc"} /\ e.out = "ok" /\ e.ed \in DOMAIN s.eds THEN Learn(s, e.ed) ELSE s
Hard(e) == Cut(e) \/ (Saves(e) /\ Blocked(st, e.path, RangeOf(e.above))) \/ (e.op = "load" /\ ~Known(st, e.path))

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Blank == [files |-> <<>>, dirs |-> {}, saved |-> <<>>, eds |-> <<>>, known |-> <<>>]
Init == l = 1 /\ bad = <<>> /\ nt = <<0, 0>> /\ st = Blank
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.e = "reset" THEN st' = [Blank EXCEPT !.files = e.files, !.dirs = RangeOf(e.dirs), !.eds = e.eds] /\ UNCHANGED <<bad, nt>> /\ l' = l + 1
     ELSE LET v == C32(e) IN
       /\ l' = l + 1
       /\ st' = After(e)
       /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
       /\ nt' = <<nt[1] + (IF Saves(e) \/ e.op = "load" THEN 1 ELSE 0), nt[2] + (IF Hard(e) THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<st, bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
================================================================================
