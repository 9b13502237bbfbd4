------------------------------- MODULE DocGraph -------------------------------
(* The graph that mirrors a document (C27).                                      *)
(* A document here: bones [n, p], slots [n, b], skins [n, at] as in SpineDoc,     *)
(* iks : Seq of [n, b : Seq of bones, t target].                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetOf(s) == {s[i] : i \in 1..Len(s)}
GId(base, ty) == base \o "_" \o ty
ShownImage(a, key) == IF a.p # "" THEN a.p ELSE IF a.m # "" THEN a.m ELSE key

(* <<slot, key, image>> of every attachment any skin gives to an existing slot *)
Given(d) == UNION {UNION {{<<s, k, ShownImage(d.skins[i].at[s][k], k)>> : k \in DOMAIN d.skins[i].at[s]}
                          : s \in DOMAIN d.skins[i].at \cap {d.slots[j].n : j \in 1..Len(d.slots)}} : i \in 1..Len(d.skins)}
BoneNames(d) == {d.bones[i].n : i \in 1..Len(d.bones)}
GNodes(d) ==
  LET B == {GId(n, "BONE") : n \in BoneNames(d)}
      S == {GId(d.slots[i].n, "SLOT") : i \in 1..Len(d.slots)}
      K == {GId(d.iks[i].n, "IK") : i \in 1..Len(d.iks)}
      A == {GId(x[2], "ATTACHMENT") : x \in Given(d)}
      I == {GId(x[3], "IMAGE") : x \in Given(d)}
  IN [n \in B \cup S \cup K \cup A \cup I |->
        IF n \in B THEN "BONE" ELSE IF n \in S THEN "SLOT" ELSE IF n \in K THEN "IK" ELSE IF n \in A THEN "ATTACHMENT" ELSE "IMAGE"]
GEdges(d) ==
  {<<GId(d.bones[i].p, "BONE"), GId(d.bones[i].n, "BONE")>> : i \in {j \in 1..Len(d.bones) : d.bones[j].p # ""}}
  \cup {<<GId(d.slots[i].b, "BONE"), GId(d.slots[i].n, "SLOT")>> : i \in 1..Len(d.slots)}
  \cup {<<GId(x[1], "SLOT"), GId(x[2], "ATTACHMENT")>> : x \in Given(d)}
  \cup {<<GId(x[2], "ATTACHMENT"), GId(x[3], "IMAGE")>> : x \in Given(d)}
  \cup {<<GId(d.iks[i].t, "BONE"), GId(d.iks[i].n, "IK")>> : i \in {j \in 1..Len(d.iks) : d.iks[j].t # ""}}
  \cup UNION {{<<GId(d.iks[i].n, "IK"), GId(b, "BONE")>> : b \in SetOf(d.iks[i].b)} : i \in 1..Len(d.iks)}
=============================================================================
