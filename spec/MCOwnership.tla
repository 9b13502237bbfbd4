------------------------------ MODULE MCOwnership ------------------------------
(* Histories over one input, up to two editors and the documents they hand out.      *)
(* NoInterference: the value of an editor is determined by the input at the time it   *)
(* was loaded and by its own edits alone, whatever else happened.                     *)
EXTENDS Ownership, Json
CONSTANTS Depth, Emit
VARIABLES val, hist
vars == <<val, hist>>

Editors == {"A", "B"}
Handed == {"h1", "h2", "h3"}
Docs == {"in"} \cup Handed
NextHanded == CHOOSE h \in Handed : h \notin DOMAIN val /\ \A g \in Handed \ DOMAIN val : h = g \/ h = "h1" \/ (h = "h2" /\ g = "h3")
CanHand == \E h \in Handed : h \notin DOMAIN val
State(d, n) == [doc |-> d, img |-> "img(" \o d \o ")"]
Apply(d, op) == d \o "." \o op
H(op, o, p) == hist' = Append(hist, [op |-> op, o |-> o, p |-> p])

Init == val = ("in" :> "i") /\ hist = <<>>
DoLoad == \E e \in Editors, d \in Docs : d \in DOMAIN val /\ ("B" = e => "A" \in DOMAIN val) /\ d # "h3"
            /\ val' = Loaded(val, e, State(val[d], 0)) /\ H("load", e, d)
DoHand == \E e \in Editors : e \in DOMAIN val /\ CanHand /\ val' = HandedOut(val, NextHanded, e) /\ H("hand", e, NextHanded)
DoEdit == \E e \in Editors, op \in {"anims", "skins", "clean", "scale"} :
            /\ e \in DOMAIN val
            /\ LET v == State(Apply(val[e].doc, op), 0)  w == Edited(val, e, v) IN
               IF op = "anims" /\ CanHand       \* its result is a document as well
               THEN val' = HandedOut(w, NextHanded, e) /\ H(op, e, NextHanded)
               ELSE val' = w /\ H(op, e, "")
DoMutate == \E d \in Docs : d \in DOMAIN val /\ val' = Mutated(val, d, val[d] \o "!") /\ H("mutate", d, "")
Next == Len(hist) < Depth /\ (DoLoad \/ DoHand \/ DoEdit \/ DoMutate)
Spec == Init /\ [][Next]_vars

(* -------------------------------- properties -------------------------------- *)
RECURSIVE ValueAt(_, _)          \* of object o after the first n steps, looking only at what concerns it
ValueAt(o, n) ==
  IF n = 0 THEN (IF o = "in" THEN "i" ELSE "none")
  ELSE LET h == hist[n] IN
       CASE o \in Editors /\ h.o = o /\ h.op = "load" -> ValueAt(h.p, n - 1)
         [] o \in Editors /\ h.o = o /\ h.op \in {"anims", "skins", "clean", "scale"} -> Apply(ValueAt(o, n - 1), h.op)
         [] o \in Handed /\ h.p = o /\ h.op = "hand" -> ValueAt(h.o, n - 1)
         [] o \in Handed /\ h.p = o /\ h.op = "anims" -> Apply(ValueAt(h.o, n - 1), "anims")
         [] o \in Docs /\ h.o = o /\ h.op = "mutate" -> ValueAt(o, n - 1) \o "!"
         [] OTHER -> ValueAt(o, n - 1)
NoInterference == \A o \in DOMAIN val : (IF o \in Editors THEN val[o].doc ELSE val[o]) = ValueAt(o, Len(hist))
FrameHolds == [][ \A o \in DOMAIN val : (LET h == hist'[Len(hist')] IN o \notin {h.o, h.p} \/ (h.op \in {"load", "hand"} /\ o # (IF h.op = "load" THEN h.o ELSE h.p)))
                     => val'[o] = val[o] ]_vars
Interesting == \E i, j \in 1..Len(hist) : i < j /\ (hist[i].op \in {"mutate"} \/ hist[j].op = "mutate" \/ hist[i].op = "hand")
Show == (Emit /\ Len(hist) = Depth /\ Interesting) => PrintT("@@CASE " \o ToJson(hist))
================================================================================
