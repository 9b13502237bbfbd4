------------------------------- MODULE MCEditor -------------------------------
(* The editor's state machine on families of small documents.  TLC checks that   *)
(* Outcome (what the editor does) satisfies every clause of every property on    *)
(* every document and request of the family, and prints them (with Emit) to be   *)
(* replayed by the real editor.                                                   *)
EXTENDS SpineEditor, Json

CONSTANTS Fam, Big, Depth, Emit

VARIABLES doc0, doc, hist, bad, effects
vars == <<doc0, doc, hist, bad, effects>>

N1 == [i |-> 1, e |-> 0, b |-> ""]
Nm(k) == [i |-> k, e |-> 0, b |-> ""]       \* odd numbers and 0
N2 == [i |-> 1, e |-> 1, b |-> ""]
Half == [i |-> 1, e |-> -1, b |-> ""]
Bone(n, p, m) == [n |-> n, p |-> p, m |-> m, sx |-> N1, sy |-> N1, r |-> "1"]
Slot(n, b, a, c) == [n |-> n, b |-> b, a |-> a, c |-> c, d |-> "", bl |-> ""]
Plain(k) == [k |-> k, p |-> "", m |-> "", c |-> "", w |-> "", h |-> "", par |-> "", sk |-> "",
             g |-> IF k = "mesh" THEN "1" ELSE ""]
Region == Plain("region")   Mesh == Plain("mesh")   PathAtt == Plain("path")
Link(par, sk) == [Plain("linkedmesh") EXCEPT !.par = par, !.sk = sk]
Anim(sl, dr, df) == [sl |-> sl, dr |-> dr, df |-> df, r |-> "1"]
Empty == <<>>          \* the function without arguments is the empty sequence
Doc(bones, slots, skins, anims) ==
  [bones |-> bones, slots |-> slots, skins |-> skins, anims |-> anims,
   ikr |-> <<>>, trr |-> <<>>, par |-> <<>>, ik |-> "", tr |-> "", pa |-> "", ev |-> "1", sk |-> "", dir |-> "./images/"]
Root == Bone("root", "", "normal")
KeyAt(n, t0) == [n |-> n, t0 |-> t0, r |-> ""]
Line(a, nc) == [a |-> a, nc |-> nc, r |-> ""]
WithPath(d, targets) == [d EXCEPT !.par = [i \in 1..Len(targets) |-> [b |-> <<"root">>, t |-> targets[i]]]]

None == "none"
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
NotEmpty(s, m) == IF m = Empty THEN Empty ELSE s :> m

(* The families have a dummy argument so that TLC evaluates only the one it needs. *)

(* ---------------------- visibility: what cleaning removes ---------------------- *)
E0 == <<KeyAt("", TRUE)>>   E1 == <<KeyAt("", FALSE)>>   Y0 == <<KeyAt("y", TRUE)>>   Y1 == <<KeyAt("y", FALSE)>>
X1 == <<KeyAt("x", FALSE)>>
With(a, nc) == [use |-> "timeline", tl |-> Line(a, nc)]
NoTimeline == [use |-> None, tl |-> Line(<<>>, 0)]
NoAnimation == [use |-> "no animation", tl |-> Line(<<>>, 0)]
Lines1(u) == {NoTimeline, With(E0, 0), With(E0, 1), With(E1, 0), With(Y1, 0), With(<<>>, 1), With(E0 \o Y1, 0), With(Y0, 0), With(X1, 0)}
          \cup (IF Big THEN {With(E0 \o E1, 0), With(E1, 1), With(Y0 \o E1, 0), With(Y0 \o X1, 1)} ELSE {})
Lines2(u) == {NoAnimation, NoTimeline, With(E0, 0), With(Y1, 0)} \cup (IF Big THEN {With(<<>>, 1)} ELSE {})
TimelineOf(l) == IF l.use = "timeline" THEN "p" :> l.tl ELSE Empty
AttOpts == {None, "region", "mesh"}
OptAtt(k, kind) == IF kind = None THEN Empty ELSE k :> Plain(kind)
VisDoc(a, c, extra, l1, l2, x, y, s1, other, target) ==
  LET p == [n |-> "p", b |-> "b", a |-> a, c |-> c, d |-> IF extra = "dark" THEN "112233" ELSE "",
            bl |-> IF extra = "blend" THEN "additive" ELSE ""]
      hasq == other # None
      q == Slot("q", "root", IF other = "uses x" THEN "x" ELSE "y", IF other = "uses x" THEN "" ELSE "ffffff00")
      pat == Join(OptAtt("x", x), OptAtt("y", y))
      qat == IF ~hasq THEN Empty ELSE IF other = "uses x" THEN "x" :> Region ELSE ("x" :> Mesh) @@ ("y" :> Region)
      at == Join(NotEmpty("p", pat), NotEmpty("q", qat))
      at1 == IF s1 THEN "p" :> ("x" :> Mesh) ELSE Empty
      df == Join(IF x = "mesh" THEN "default" :> ("p" :> ("x" :> "1")) ELSE Empty,
                 IF s1 THEN "s1" :> ("p" :> ("x" :> "2")) ELSE Empty)
      dr == IF hasq THEN <<[t |-> "0", of |-> <<[s |-> "p", o |-> 1]>>]>> ELSE <<>>
      anims == ("a1" :> Anim(TimelineOf(l1), dr, df))
               @@ (IF l2.use = "no animation" THEN Empty ELSE "a2" :> Anim(TimelineOf(l2), <<>>, Empty))
      d == Doc(<<Root, Bone("b", "root", "normal")>>, <<p>> \o (IF hasq THEN <<q>> ELSE <<>>),
               <<[n |-> "default", at |-> at], [n |-> "s1", at |-> at1]>>, anims)
  IN WithPath(d, IF target = None THEN <<>> ELSE IF target = "q" /\ ~hasq THEN <<>> ELSE <<target>>)
VisDocs(u) == {VisDoc(a, c, extra, l1, l2, x, y, s1, other, target) :
  a \in {"", "x"}, c \in {"", "ffffff00"} \cup (IF Big THEN {"ffffffff"} ELSE {}),
  extra \in {"", "dark"} \cup (IF Big THEN {"blend"} ELSE {}), l1 \in Lines1(u), l2 \in Lines2(u),
  x \in AttOpts, y \in AttOpts, s1 \in (IF Big THEN BOOLEAN ELSE {FALSE}),
  other \in {None, "uses x", "hidden mesh x"}, target \in {None} \cup (IF Big THEN {"p", "q"} ELSE {})}

(* ------------------------------- draw order ------------------------------------- *)
Slots_n == IF Big THEN 5 ELSE 4
SlotNames == SubSeq(<<"s1", "s2", "s3", "s4", "s5">>, 1, Slots_n)
RECURSIVE SubSeqs(_)
SubSeqs(s) == IF s = <<>> THEN {<<>>}
              ELSE LET r == SubSeqs(Tail(s)) IN r \cup {<<Head(s)>> \o t : t \in r}
KeysOf(moved) == {k \in [1..Len(moved) -> (1 - Slots_n)..(Slots_n - 1)] :
                    DOWellFormed(SlotNames, [i \in 1..Len(moved) |-> [s |-> moved[i], o |-> k[i]]])}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
DrawDoc(moved, hidden) ==
  LET offs == Listed(KeysOf(moved)) IN
  Doc(<<Root>>, [i \in 1..Slots_n |-> Slot(SlotNames[i], "root", "x", IF SlotNames[i] \in hidden THEN "ffffff00" ELSE "")],
      <<[n |-> "default", at |-> [s \in Range(SlotNames) |-> "x" :> Region]]>>,
      "a1" :> Anim(Empty, [k \in 1..Len(offs) |-> [t |-> "1", of |-> [i \in 1..Len(moved) |-> [s |-> moved[i], o |-> offs[k][i]]]]], Empty))
DrawDocs(u) == {DrawDoc(m, h) : m \in SubSeqs(SlotNames), h \in SUBSET Range(SlotNames)}

(* ------------------------- linked meshes between skins --------------------------- *)
LinkNames == <<"default", "s1", "s2">>
LinkOpts == [mesh : BOOLEAN, link : {None, "", "default", "s1", "s2"}]
LinkDoc(f, deform) ==
  LET SkinAt(i) == Join(IF f[i].mesh THEN "m" :> [Mesh EXCEPT !.g = SubSeq("123", i, i), !.p = IF i = 1 THEN "pic" ELSE ""] ELSE Empty,
                    IF f[i].link = None THEN Empty
                    ELSE SubSeq("lno", i, i) :> [Link("m", f[i].link) EXCEPT !.m = IF i = 2 THEN "own" ELSE "",
                                                 !.w = IF i = 3 THEN "7" ELSE "", !.c = IF i = 2 THEN "ff0000ff" ELSE ""])
  IN Doc(<<Root>>, <<Slot("p", "root", "m", "")>>,
         [i \in 1..3 |-> [n |-> LinkNames[i], at |-> NotEmpty("p", SkinAt(i))]],
         "a1" :> Anim("p" :> Line(<<KeyAt("l", TRUE), KeyAt("n", FALSE), KeyAt("o", FALSE)>>, 0), <<>>,
                      IF ~deform THEN Empty
                      ELSE [s \in {LinkNames[i] : i \in {j \in 1..3 : f[j].mesh}} |-> "p" :> ("m" :> "1")]))
LinkDocs(u) == {d \in {LinkDoc(f, df) : f \in [1..3 -> LinkOpts], df \in (IF Big THEN BOOLEAN ELSE {TRUE})} : Consistent(d)}

(* ------------------------------ image references --------------------------------- *)
ImgSeq == <<Plain("none"), Region, [Region EXCEPT !.p = "i"], [Mesh EXCEPT !.m = "i"], PathAtt,
            [Mesh EXCEPT !.p = "i", !.m = "j"], [PathAtt EXCEPT !.m = "i"]>>
ImgIdx == 1..(IF Big THEN 7 ELSE 5)
OptAt(k, i) == IF i = 1 THEN Empty ELSE k :> ImgSeq[i]
ImgDoc(a, b, c, e, dir) ==
  [Doc(<<Root>>, <<Slot("p", "root", "i", ""), Slot("q[scale:2]", "root", "k", "")>>,
      <<[n |-> "default", at |-> Join(NotEmpty("p", OptAt("i", a)), NotEmpty("q[scale:2]", OptAt("k", b)))],
        [n |-> "s1", at |-> Join(NotEmpty("p", OptAt("k", c)), NotEmpty("q[scale:2]", OptAt("i", e)))]>>,
      "a1" :> Anim("p" :> Line(<<KeyAt("k", FALSE)>>, 0), <<>>, Empty)) EXCEPT !.dir = dir]
ImgDocs(u) == {ImgDoc(a, b, c, e, dir) : a \in ImgIdx, b \in ImgIdx, c \in ImgIdx, e \in ImgIdx,
             dir \in {"./images/", "pics"} \cup (IF Big THEN {"", "/abs/"} ELSE {})}

(* ----------------------------- scale tags in names ------------------------------- *)
TagBones(i) == IF i = 1 THEN {"b", "b[scale:2]", "[ scale : 0.5 ]b"} ELSE {"c", "c[scale:0.5]c", "c[scale:4]"}
TagSlots(i) == IF i = 1 THEN {"p", "p[scale:2]"} ELSE {"q", "q[scale:0.25]", "q[scale:1]"}
TagDoc(b, c, cp, p, q, pb, qb, same) ==
  LET BN(k) == CASE k = 1 -> "root" [] k = 2 -> b [] k = 3 -> c IN
  Doc(<<Root, Bone(b, "root", "normal"), Bone(c, BN(cp), "normal")>>,
      <<Slot(p, BN(pb), "i", ""), Slot(q, BN(qb), "i", IF same THEN "" ELSE "ffffff00")>>,
      <<[n |-> "default", at |-> (p :> ("i" :> Region)) @@ (q :> ((IF same THEN "i" ELSE "j") :> Mesh))]>>,
      "a1" :> Anim(Empty, <<>>, Empty))
TagDocs(u) == {TagDoc(b, c, cp, p, q, pb, qb, same) : b \in TagBones(1), c \in TagBones(2), cp \in {1, 2},
             p \in TagSlots(1), q \in TagSlots(2), pb \in 1..3, qb \in 1..3, same \in BOOLEAN}

(* ------------------------------- scaling of bones -------------------------------- *)
Modes == {"normal", "onlyTranslation", "noRotationOrReflection", "noScale", "noScaleOrReflection"}
ScaleBoneDoc(m1, m2, m3, p3, own) ==
  Doc(<<[Bone("root", "", m1) EXCEPT !.sx = IF own THEN N2 ELSE N1], Bone("b", "root", m2),
        [Bone("c", p3, m3) EXCEPT !.sy = IF own THEN Nm(-3) ELSE N1]>>,
      <<Slot("p", "c", "x", ""), Slot("q", "b", "x", "ffffff00")>>,
      <<[n |-> "default", at |-> ("p" :> ("x" :> Region)) @@ ("q" :> ("x" :> Region))], [n |-> "s1", at |-> Empty]>>,
      ("a1" :> Anim(Empty, <<>>, Empty)) @@ ("a2" :> Anim(Empty, <<>>, Empty)))
RootlessDoc(m1, m2) ==
  Doc(<<Bone("base", "", m1), Bone("b", "base", m2)>>, <<Slot("p", "b", "", "")>>, <<[n |-> "default", at |-> Empty], [n |-> "s1", at |-> Empty]>>,
      ("a1" :> Anim(Empty, <<>>, Empty)) @@ ("a2" :> Anim(Empty, <<>>, Empty)))
ScaleDocs(u) == {ScaleBoneDoc(m1, m2, m3, p3, own) : m1 \in Modes, m2 \in Modes, m3 \in Modes, p3 \in {"root", "b"}, own \in BOOLEAN}
                \cup {RootlessDoc(m1, m2) : m1 \in Modes, m2 \in Modes}

(* --------------------------- histories of requests -------------------------------- *)
HistDoc1(u) ==
  LET mesh2 == [Mesh EXCEPT !.g = "2"] IN
  WithPath(Doc(<<Root, Bone("b", "root", "noScale"), Bone("c[scale:2]", "b", "normal")>>,
    <<Slot("p", "b", "x", ""), Slot("q", "c[scale:2]", "y", "ffffff00"), Slot("r", "root", "", ""), Slot("t", "root", "x", "ffffff00"),
      Slot("u", "c[scale:2]", "x", "ffffff00")>>,
    <<[n |-> "default", at |-> ("p" :> (("x" :> Region) @@ ("m" :> Mesh))) @@ ("q" :> (("y" :> Region) @@ ("l" :> Link("m", "s1")) @@ ("m" :> mesh2)))
                               @@ ("t" :> ("z" :> PathAtt)) @@ ("u" :> ("x" :> [Region EXCEPT !.p = "pic"]))],
      [n |-> "s1", at |-> ("p" :> ("m" :> mesh2)) @@ ("q" :> ("m" :> mesh2)) @@ ("r" :> ("y" :> [Region EXCEPT !.m = "pic"]))],
      [n |-> "s2", at |-> ("p" :> ("l" :> Link("m", ""))) @@ ("r" :> ("w" :> Region))]>>,
    ("a1" :> Anim(("q" :> Line(<<KeyAt("l", FALSE)>>, 1)) @@ ("r" :> Line(<<KeyAt("y", FALSE)>>, 0)),
                  <<[t |-> "0", of |-> <<>>], [t |-> "0.5", of |-> <<[s |-> "p", o |-> 3], [s |-> "r", o |-> -2]>>]>>,
                  ("default" :> ("p" :> ("m" :> "1"))) @@ ("s1" :> ("p" :> ("m" :> "1")))))
    @@ ("a2" :> Anim(("p" :> Line(<<KeyAt("", TRUE)>>, 0)) @@ ("u" :> Line(<<>>, 2)), <<[t |-> "1", of |-> <<[s |-> "q", o |-> -1]>>]>>,
                     "s2" :> ("p" :> ("l" :> "1"))))
    @@ ("a3" :> Anim("p" :> Line(<<KeyAt("m", TRUE)>>, 0), <<>>, Empty))), <<"t">>)
(* names that look like the graph's own ids *)
HistDoc2(u) ==
  Doc(<<Root, Bone("b_SLOT", "root", "normal"), Bone("b", "b_SLOT", "onlyTranslation")>>,
    <<Slot("b", "b", "b_SLOT", ""), Slot("b_SLOT", "b", "b_ATTACHMENT", "ffffff00"), Slot("b_SLOT_SLOT", "b_SLOT", "b", "ffffff00")>>,
    <<[n |-> "default", at |-> ("b" :> (("b_SLOT" :> Region) @@ ("b" :> Mesh))) @@ ("b_SLOT" :> ("b_ATTACHMENT" :> Region))],
      [n |-> "b", at |-> ("b_SLOT_SLOT" :> (("b" :> Region) @@ ("b_ATTACHMENT_ATTACHMENT" :> Mesh)))]>>,
    ("b" :> Anim("b_SLOT" :> Line(<<>>, 1), <<[t |-> "1", of |-> <<[s |-> "b", o |-> 2]>>]>>, "default" :> ("b" :> ("b" :> "1"))))
    @@ ("b_SLOT" :> Anim("b" :> Line(<<KeyAt("", TRUE)>>, 0), <<>>, Empty)))
(* everything can be erased *)
HistDoc3(u) ==
  Doc(<<Root>>, <<Slot("p", "root", "x", "ffffff00"), Slot("q", "root", "", "")>>,
    <<[n |-> "s1", at |-> "p" :> ("x" :> Region)], [n |-> "default", at |-> "q" :> (("l" :> Link("x", "s2")))],
      [n |-> "s2", at |-> "q" :> ("x" :> [Mesh EXCEPT !.p = "x"])]>>,
    ("a1" :> Anim("p" :> Line(<<>>, 1), <<[t |-> "1", of |-> <<[s |-> "p", o |-> 1]>>]>>, Empty))
    @@ ("a2" :> Anim("q" :> Line(<<KeyAt("l", FALSE)>>, 0), <<[t |-> "1", of |-> <<[s |-> "q", o |-> -1]>>]>>, Empty)))
HistDocs(u) == {HistDoc1(u), HistDoc2(u), HistDoc3(u), RootlessDoc("normal", "noScale"), RootlessDoc("onlyTranslation", "noScaleOrReflection")}

Docs(u) == CASE Fam = "vis" -> VisDocs(u) [] Fam = "draw" -> DrawDocs(u) [] Fam = "links" -> LinkDocs(u) [] Fam = "imgs" -> ImgDocs(u)
          [] Fam = "tags" -> TagDocs(u) [] Fam = "scale" -> ScaleDocs(u) [] Fam = "hist" -> HistDocs(u)

(* --------------------------------- requests -------------------------------------- *)
Req(op, names, strict, safe, islist) ==
  [op |-> op, names |-> names, strict |-> strict, safe |-> safe, islist |-> islist, x |-> N1, y |-> N1]
ScaleBy(x, y) == [Req("scale", <<>>, TRUE, FALSE, TRUE) EXCEPT !.x = x, !.y = y]
ScaleWrong == [ScaleBy(N2, Nm(3)) EXCEPT !.islist = FALSE]      \* by something that is not a number
Clean == Req("clean", <<>>, TRUE, FALSE, TRUE)
Reload == Req("reload", <<>>, TRUE, FALSE, TRUE)
Pick(s) == {t \in SubSeqs(s) : t # <<>>}
Requests(d) ==
  CASE Fam \in {"vis", "draw"} -> {Clean}
    [] Fam = "links" -> {Req("erase_skins", n, TRUE, safe, TRUE) : n \in Pick(LinkNames) \cup {<<"s1", "default">>, <<"s2", "s1", "s1">>}, safe \in BOOLEAN}
    [] Fam = "imgs" -> {Req("erase_skins", n, TRUE, safe, TRUE) : n \in Pick(<<"default", "s1">>), safe \in BOOLEAN}
    [] Fam = "tags" -> {Clean}
    [] Fam = "scale" -> {ScaleBy(N2, Nm(3)), ScaleBy(Nm(-1), N1), ScaleBy(Half, Nm(5)), ScaleWrong, Clean, Reload,
                         Req("erase_anims", <<"a1">>, FALSE, FALSE, TRUE), Req("erase_skins", <<"s1">>, TRUE, FALSE, TRUE)}
    [] Fam = "hist" ->
         LET A == Listed(AnimSet(doc0))  S == SkinSeq(doc0) IN
         {Req("erase_anims", n, strict, safe, TRUE) :
            n \in {<<A[1]>>, <<A[2]>>, A, <<>>, <<"nope">>, <<A[1], "nope">>, <<"nope", A[2]>>}, strict \in BOOLEAN, safe \in BOOLEAN}
         \cup {Req("erase_anims", <<A[1]>>, TRUE, FALSE, FALSE)}
         \cup {Req("erase_skins", n, TRUE, safe, TRUE) :
            n \in {<<S[1]>>, <<S[2]>>, <<S[2], S[1]>>, S, <<>>, <<"nope">>, <<S[1], "nope">>, <<S[2], S[2]>>}, safe \in BOOLEAN}
         \cup {Req("erase_skins", <<>>, TRUE, FALSE, FALSE), Clean, Reload, ScaleBy(N2, Nm(3)), ScaleBy(Half, Nm(-1)), ScaleWrong}

(* -------------------------------- the machine ------------------------------------- *)
RefsOf(d) == [i \in Images(d) |->
  LET s == CHOOSE x \in ImageScales(d, i) : TRUE IN
  [p |-> ImagePath(d.dir, i), has |-> s # One, n |-> s[1], d |-> s[2]]]
(* the queries, by their definitions one slot at a time *)
Answers(d) ==
  LET SlotsWith(T(_)) == Listed({d.slots[i].n : i \in {j \in 1..Len(d.slots) : T(d.slots[j])}}) IN
  [out |-> "ok", asked |-> <<"az", "np", "us", "sc">>, az |-> SlotsWith(AlphaZero), np |-> SlotsWith(NoSetup),
   us |-> SlotsWith(LAMBDA s : NeverShown(d, s) /\ s.n \notin PathTargets(d)),
   ua |-> Listed({k \in AttNames(d) : ~NameIsKept(d, k)}),
   sc |-> [s \in (IF Rooted(d) THEN SlotSet(d) ELSE {}) |-> LET x == SlotScale(d, s) IN [n |-> x[1], d |-> x[2]]],
   slots |-> SlotSeq(d), bones |-> Names(d.bones), skins |-> SkinSeq(d), scr |-> IF Rooted(d) THEN <<>> ELSE SlotSeq(d), full |-> TRUE, imgs |-> TRUE, ver |-> TRUE, pure |-> TRUE]
Result(d, o) ==
  LET r == Outcome(d, o) IN
  [out |-> r.out, doc |-> r.doc, rs |-> Listed(r.rs), ra |-> Listed(r.ra), ri |-> Listed(r.ri), imgs |-> RefsOf(r.doc),
   retsame |-> TRUE, imgsame |-> TRUE, shadowsame |-> TRUE,
   q |-> Answers(r.doc), twin |-> [doc |-> TRUE, imgs |-> TRUE, rep |-> TRUE, out |-> TRUE]]
AllProps == {"C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C29"}

Init == /\ doc0 \in Docs(0) /\ doc = doc0 /\ hist = <<>> /\ bad = {} /\ effects = {}
Next == /\ Len(hist) < Depth
        /\ \E o \in Requests(doc0) :
             LET r == Result(doc, o) IN
             /\ hist' = Append(hist, o)
             /\ doc' = r.doc
             /\ bad' = UNION {{<<P, c>> : c \in Violated(P, doc, o, r)} : P \in AllProps}
             /\ effects' = {P \in AllProps : Relevant(P, doc, o) /\ Nontrivial(P, doc, o, r)}
             /\ UNCHANGED doc0
Spec == Init /\ [][Next]_vars

DocsAreConsistent == hist = <<>> => Consistent(doc0)
StaysConsistent == Consistent(doc)
PropertiesHold == bad = {}
Show == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([doc |-> doc0, ops |-> hist]))
================================================================================
