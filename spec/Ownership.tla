------------------------------- MODULE Ownership -------------------------------
(* Who owns which data (C04).  Objects are the documents callers hold (their inputs   *)
(* and the documents editors handed out) and the editors; val maps every object to    *)
(* its value.  Every action changes one object or creates one, whatever is done to     *)
(* the others.                                                                         *)
EXTENDS TLC, Integers, Sequences, FiniteSets

Loaded(val, e, v) == (e :> v) @@ val           \* a new editor; v is what its input means
HandedOut(val, h, e) == (h :> val[e].doc) @@ val   \* to_json_data
Edited(val, e, v) == (e :> v) @@ val           \* an edit of editor e
Mutated(val, h, v) == (h :> v) @@ val          \* the caller changes a document it holds
Others(val, S) == [x \in DOMAIN val \ S |-> val[x]]
================================================================================
