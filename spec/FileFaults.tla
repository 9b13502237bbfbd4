------------------------------- MODULE FileFaults -------------------------------
(* Saving and loading when something is in the way (C32): a folder where a file     *)
(* should be, a file where a folder should be, no room for the whole file, nothing   *)
(* or something else to load.  Extends the files and editors of FileStore.           *)
(* What a file holds decides what loading it does: known maps the content of every    *)
(* document saved so far to the editor state it was the document of.                 *)
EXTENDS FileStore

Blocked(st, p, above) == ~CanWrite(st, p, above)
Known(st, p) == p \in DOMAIN st.files /\ st.files[p] \in DOMAIN st.known
ContentOf(st, e, op) == IF op = "img" THEN st.eds[e].img ELSE st.eds[e].doc
Learn(st, e) == [st EXCEPT !.known = (st.eds[e].doc :> st.eds[e]) @@ @]
(* a save that succeeds *)
Saved(st, e, p, above, op) == LET s == Put(st, p, above, ContentOf(st, e, op)) IN
                              IF op = "doc" THEN Learn(s, e) ELSE s
(* what may be left of a save that is refused: nothing, if it was blocked ... *)
LeftBlocked(st, above, s2) ==
  /\ s2.eds = st.eds /\ s2.files = st.files
  /\ st.dirs \subseteq s2.dirs /\ s2.dirs \subseteq (st.dirs \cup above)
(* ... and if there was no room, at most a torn file in its place (or what was     *)
(* there before, or what should be there now)                                      *)
LeftTorn(st, e, p, above, op, s2) ==
  /\ s2.eds = st.eds
  /\ Drop(s2.files, {p}) = Drop(st.files, {p})
  /\ st.dirs \subseteq s2.dirs /\ s2.dirs \subseteq (st.dirs \cup above)
(* files removed and folders made by somebody else *)
MkDir(st, p, above) == [st EXCEPT !.dirs = @ \cup above \cup {p}]
Remove(st, p) == [st EXCEPT !.files = Drop(@, {p}), !.dirs = @ \ {p}]
LoadKnown(st, e, p) == [st EXCEPT !.eds = (e :> st.known[st.files[p]]) @@ @]
================================================================================
