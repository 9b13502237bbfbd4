------------------------------- MODULE FileStore -------------------------------
(* Editors and the files they are saved to and loaded from (C03).                   *)
(* st: files  path -> content (a document, image references, or something else)      *)
(*     dirs   the folders there are                                                  *)
(*     saved  path -> editor state [doc, img] that was written there by to_json      *)
(*     eds    editor -> [doc, img], its document and image references                *)
(* Paths are texts; Above(p) is the set of folders on the way to p.                  *)
EXTENDS TLC, Integers, Sequences, FiniteSets

Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
CanWrite(st, p, above) == p \notin st.dirs /\ \A a \in above : a \notin DOMAIN st.files
CanLoad(st, p) == p \in DOMAIN st.saved
Put(st, p, above, content) == [st EXCEPT !.files = (p :> content) @@ @, !.dirs = @ \cup above]

(* to_json: the file holds the document, whatever was there before *)
SaveDoc(st, e, p, above) == [Put(st, p, above, st.eds[e].doc) EXCEPT !.saved = (p :> st.eds[e]) @@ @]
(* save_images_json *)
SaveImgs(st, e, p, above) == [Put(st, p, above, st.eds[e].img) EXCEPT !.saved = Drop(@, {p})]
(* from_json_file: an editor like the one that was saved *)
Load(st, e, p) == [st EXCEPT !.eds = (e :> st.saved[p]) @@ @]
(* any editing: concerns one editor and no file *)
Edit(st, e, new) == [st EXCEPT !.eds = (e :> new) @@ @]
(* somebody else writes a file *)
Foreign(st, p, above, content) == [Put(st, p, above, content) EXCEPT !.saved = Drop(@, {p})]
================================================================================
