------------------------------- MODULE SpineDoc -------------------------------
(* Abstract Spine documents and the meaning of every edit of the library.       *)
(*                                                                               *)
(* A document d is a record                                                      *)
(*   bones : Seq of [n name, p parent, m inheritance mode, sx, sy, r rest]        *)
(*   slots : Seq of [n name, b bone, a setup attachment, c color, d dark, bl]     *)
(*   skins : Seq of [n name, at : slot -> key -> attachment]                      *)
(*     attachment = [k kind, p path, m name, c color, w, h, par parent, sk skin,  *)
(*                   g everything else]                                           *)
(*   anims : name -> [sl : slot -> [a : Seq of [n, t0, r], nc, r],                *)
(*                    dr : Seq of [t, of : Seq of [s, o]],                        *)
(*                    df : skin -> slot -> key -> content, r rest]                *)
(*   ikr, trr, par : Seq of [b : Seq of bones, t target] (constraint references)  *)
(*   ik, tr, pa, ev, sk : the whole content of these sections, opaque             *)
(*   dir : images folder                                                          *)
(* "" stands for an absent string; nc is the number of color keys of a timeline.  *)
EXTENDS Text, DrawOrder, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
NoRepeat(s) == Cardinality(Range(s)) = Len(s)
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Names(s) == [i \in 1..Len(s) |-> s[i].n]
SlotSeq(d) == Names(d.slots)
SlotSet(d) == Range(SlotSeq(d))
BoneSet(d) == Range(Names(d.bones))
SkinSeq(d) == Names(d.skins)
SkinSet(d) == Range(SkinSeq(d))
AnimSet(d) == DOMAIN d.anims
SlotOf(d, n) == d.slots[IndexIn(SlotSeq(d), n)]
BoneOf(d, n) == d.bones[IndexIn(Names(d.bones), n)]
SkinOf(d, n) == d.skins[IndexIn(SkinSeq(d), n)]
PathTargets(d) == {d.par[i].t : i \in 1..Len(d.par)}

(* every attachment of every skin, as <<index of skin, slot, key>> *)
Entries(d) == UNION {UNION {{<<i, s, k>> : k \in DOMAIN d.skins[i].at[s]} : s \in DOMAIN d.skins[i].at} : i \in 1..Len(d.skins)}
Att(d, x) == d.skins[x[1]].at[x[2]][x[3]]
AttNames(d) == {x[3] : x \in Entries(d)}
SkinMap(at, keep(_, _)) ==      \* keeps the entries (slot, key) of a skin, and no empty slot
  LET S == {s \in DOMAIN at : \E k \in DOMAIN at[s] : keep(s, k)} IN
  [s \in S |-> [k \in {x \in DOMAIN at[s] : keep(s, x)} |-> at[s][k]]]
DeformMap(df, keep(_, _, _)) ==
  LET KS(sk, s) == {k \in DOMAIN df[sk][s] : keep(sk, s, k)}
      SS(sk) == {s \in DOMAIN df[sk] : KS(sk, s) # {}}
  IN [sk \in {x \in DOMAIN df : SS(x) # {}} |-> [s \in SS(sk) |-> [k \in KS(sk, s) |-> df[sk][s][k]]]]

(* ------------------------------ consistency ------------------------------ *)
LinkedSkin(a) == IF a.sk = "" THEN "default" ELSE a.sk
LinkResolves(d, x) ==
  LET a == Att(d, x) IN
  a.k = "linkedmesh" =>
    /\ LinkedSkin(a) \in SkinSet(d)
    /\ LET at == SkinOf(d, LinkedSkin(a)).at IN
       x[2] \in DOMAIN at /\ a.par \in DOMAIN at[x[2]] /\ at[x[2]][a.par].k = "mesh"
ConstraintOk(c, bones, targets) == (\A i \in 1..Len(c.b) : c.b[i] \in bones) /\ c.t \in targets
RefsOk(d) == [
  slot_bone |-> \A i \in 1..Len(d.slots) : d.slots[i].b \in BoneSet(d),
  bone_parent |-> \A i \in 1..Len(d.bones) : d.bones[i].p = "" \/ d.bones[i].p \in BoneSet(d),
  ik |-> \A i \in 1..Len(d.ikr) : ConstraintOk(d.ikr[i], BoneSet(d), BoneSet(d)),
  transform |-> \A i \in 1..Len(d.trr) : ConstraintOk(d.trr[i], BoneSet(d), BoneSet(d)),
  path |-> \A i \in 1..Len(d.par) : ConstraintOk(d.par[i], BoneSet(d), SlotSet(d)),
  skin_slot |-> \A x \in Entries(d) : x[2] \in SlotSet(d),
  linked_mesh |-> \A x \in Entries(d) : LinkResolves(d, x),
  timeline_slot |-> \A an \in AnimSet(d) : DOMAIN d.anims[an].sl \subseteq SlotSet(d),
  draw_order_slot |-> \A an \in AnimSet(d) : \A i \in 1..Len(d.anims[an].dr) :
                        \A j \in 1..Len(d.anims[an].dr[i].of) : d.anims[an].dr[i].of[j].s \in SlotSet(d),
  deform_target |-> \A an \in AnimSet(d) : LET df == d.anims[an].df IN
                      \A sk \in DOMAIN df : /\ sk \in SkinSet(d)
                         /\ \A s \in DOMAIN df[sk] : \A k \in DOMAIN df[sk][s] :
                              s \in DOMAIN SkinOf(d, sk).at /\ k \in DOMAIN SkinOf(d, sk).at[s]]
BadRefs(d) == LET r == RefsOk(d) IN {f \in DOMAIN r : ~r[f]}
(* every bone hangs from the bone called root; a document whose root has another name can show nothing, as the scales of
   its images are not defined, and cannot be scaled *)
Rooted(d) == "root" \in BoneSet(d)
RECURSIVE ReachesRoot(_, _, _)
ReachesRoot(d, b, n) == b = "root" \/ (~Rooted(d) /\ b \in BoneSet(d) /\ BoneOf(d, b).p = "")
                        \/ (n > 0 /\ b \in BoneSet(d) /\ ReachesRoot(d, BoneOf(d, b).p, n - 1))
BoneTree(d) == /\ NoRepeat(Names(d.bones))
               /\ \A i \in 1..Len(d.bones) : ReachesRoot(d, d.bones[i].n, Len(d.bones))
               /\ Rooted(d) \/ \A i \in 1..Len(d.skins) : DOMAIN d.skins[i].at = {}
DrawKeysOk(d) == \A an \in AnimSet(d) : \A i \in 1..Len(d.anims[an].dr) :
                   DOWellFormed(SlotSeq(d), d.anims[an].dr[i].of)
Consistent(d) == /\ BadRefs(d) = {} /\ BoneTree(d) /\ DrawKeysOk(d)
                 /\ NoRepeat(SlotSeq(d)) /\ NoRepeat(SkinSeq(d))

(* ------------------------------- visibility ------------------------------- *)
AlphaZero(s) == s.c # "" /\ SubSeq(s.c, Len(s.c) - 1, Len(s.c)) = "00"
NoSetup(s) == s.a = "" /\ s.c = "" /\ s.d = "" /\ s.bl = ""
DefaultVisible(s) == ~AlphaZero(s) /\ ~NoSetup(s)
KeyNames(tl) == {tl.a[i].n : i \in 1..Len(tl.a)} \ {""}
SetupName(s) == IF s.a = "" THEN {} ELSE {s.a}
SingleEmptyKey(tl) == Len(tl.a) = 1 /\ tl.a[1].n = "" /\ tl.a[1].t0 /\ tl.nc = 0
TimelineHidden(s, tl) == \/ SingleEmptyKey(tl)
                         \/ AlphaZero(s) /\ tl.nc = 0
                         \/ NoSetup(s) /\ KeyNames(tl) = {}
HiddenIn(d, an, s) ==        \* slot record s never shows anything in animation an
  IF s.n \in DOMAIN d.anims[an].sl THEN TimelineHidden(s, d.anims[an].sl[s.n]) ELSE ~DefaultVisible(s)
UsedBy(d, an, s) ==          \* attachment names slot s uses in animation an
  IF HiddenIn(d, an, s) THEN {}
  ELSE SetupName(s) \cup (IF s.n \in DOMAIN d.anims[an].sl THEN KeyNames(d.anims[an].sl[s.n]) ELSE {})

(* What slot s can display in animation an.  A key at time 0 replaces the setup  *)
(* attachment from the first frame on.                                           *)
Displayable(d, an, s) ==
  LET has == s.n \in DOMAIN d.anims[an].sl
      tl == IF has THEN d.anims[an].sl[s.n] ELSE [a |-> <<>>, nc |-> 0, r |-> ""]
      visible == ~AlphaZero(s) \/ tl.nc > 0
      fromStart == \E i \in 1..Len(tl.a) : tl.a[i].t0
  IN IF ~visible THEN {} ELSE KeyNames(tl) \cup (IF fromStart THEN {} ELSE SetupName(s))

(* ------------------------- cleaning, as an algorithm ----------------------- *)
UsedNames(d) == UNION {UsedBy(d, an, d.slots[i]) : an \in AnimSet(d), i \in 1..Len(d.slots)}
InvisibleSlots(d) ==
  {d.slots[i].n : i \in {j \in 1..Len(d.slots) : \A an \in AnimSet(d) : HiddenIn(d, an, d.slots[j])}} \ PathTargets(d)
UnusedNames(d) ==
  LET used == UsedNames(d)  inv == InvisibleSlots(d)  tg == PathTargets(d) IN
  {k \in AttNames(d) : /\ k \notin used
                       /\ \A x \in Entries(d) : x[3] = k =>
                            x[2] \notin tg /\ ~(Att(d, x).k = "mesh" /\ x[2] \notin inv)}
EmptySlots(d, gone, names) ==    \* slots no skin gives an attachment any more
  {s \in SlotSet(d) \ (gone \cup PathTargets(d)) : \A x \in Entries(d) : x[2] = s => x[3] \in names}

(* a setup attachment that exists nowhere any more is unset *)
Unset(s, A) == IF s.a \in A THEN [s EXCEPT !.a = ""] ELSE s
RemoveFrom(d, S, A) ==           \* without the slots S and the attachment names A
  [d EXCEPT
    !.slots = LET left == SelectSeq(d.slots, LAMBDA s : s.n \notin S) IN
              [i \in 1..Len(left) |-> Unset(left[i], A)],
    !.skins = [i \in 1..Len(d.skins) |->
                [d.skins[i] EXCEPT !.at = SkinMap(@, LAMBDA s, k : s \notin S /\ k \notin A)]],
    !.anims = [an \in AnimSet(d) |->
                [d.anims[an] EXCEPT
                   !.sl = Without(@, S),
                   !.dr = [i \in 1..Len(@) |-> [@[i] EXCEPT !.of = DOAfterRemoval(SlotSeq(d), @, S)]],
                   !.df = DeformMap(@, LAMBDA sk, s, k : s \notin S /\ (k \notin A \/ sk \notin SkinSet(d)))]]]
CleanResult(d) ==
  LET inv == InvisibleSlots(d)
      names == UnusedNames(d)
      gone == inv \cup EmptySlots(d, inv, names)
  IN [doc |-> RemoveFrom(d, gone, names), slots |-> gone, atts |-> names]

(* -------------------------------- erasing --------------------------------- *)
EraseAnimsRaw(d, names) == [d EXCEPT !.anims = Without(@, names)]

Materialise(d, skin, i, s, k) ==   \* attachment (i, s, k) once skin is gone
  LET a == d.skins[i].at[s][k]
      src == SkinOf(d, skin).at
  IN IF a.k = "linkedmesh" /\ LinkedSkin(a) = skin /\ s \in DOMAIN src /\ a.par \in DOMAIN src[s]
     THEN LET m == src[s][a.par] IN
          [m EXCEPT !.p = a.p, !.m = a.m, !.c = a.c, !.w = a.w, !.h = a.h]
     ELSE a
EraseSkinRaw(d, skin) ==
  IF skin \notin SkinSet(d) THEN d ELSE
  LET j == IndexIn(SkinSeq(d), skin)
      new == [i \in 1..Len(d.skins) |->
               [d.skins[i] EXCEPT !.at = [s \in DOMAIN @ |-> [k \in DOMAIN @[s] |-> Materialise(d, skin, i, s, k)]]]]
  IN [d EXCEPT !.skins = SubSeq(new, 1, j - 1) \o SubSeq(new, j + 1, Len(new)),
               !.anims = [an \in AnimSet(d) |-> [d.anims[an] EXCEPT !.df = Without(@, {skin})]]]
RECURSIVE EraseSkinsRaw(_, _)
EraseSkinsRaw(d, names) == IF names = <<>> THEN d ELSE EraseSkinsRaw(EraseSkinRaw(d, Head(names)), Tail(names))

(* --------------------------------- images ---------------------------------- *)
ImageKinds == {"region", "mesh", "linkedmesh"}
ImageOf(a, key) == IF a.p # "" THEN a.p ELSE IF a.m # "" THEN a.m ELSE key
ImageEntries(d) == {x \in Entries(d) : Att(d, x).k \in ImageKinds}
Images(d) == {ImageOf(Att(d, x), x[3]) : x \in ImageEntries(d)}
ImagePath(dir, img) ==
  IF Ch(img, 1) = "/" THEN img
  ELSE IF dir = "" \/ Ch(dir, Len(dir)) = "/" THEN dir \o img ELSE dir \o "/" \o img
RECURSIVE BoneScale(_, _, _)
BoneScale(d, b, n) == IF b = "root" \/ n = 0 THEN One
                      ELSE RatMul(ScaleInName(b), BoneScale(d, BoneOf(d, b).p, n - 1))
SlotScale(d, s) == RatMul(ScaleInName(s), BoneScale(d, SlotOf(d, s).b, Len(d.bones)))
RECURSIVE BoneNamesRefused(_, _, _)
BoneNamesRefused(d, b, n) == b # "root" /\ n > 0 /\ (TagsRefused(b) \/ BoneNamesRefused(d, BoneOf(d, b).p, n - 1))
SlotScaleRefused(d, s) == ~Rooted(d) \/ TagsRefused(s) \/ BoneNamesRefused(d, SlotOf(d, s).b, Len(d.bones))
ImageScales(d, img) == {SlotScale(d, x[2]) : x \in {y \in ImageEntries(d) : ImageOf(Att(d, y), y[3]) = img}}
ImagesOfSkins(d, names) == {ImageOf(Att(d, x), x[3]) : x \in {y \in ImageEntries(d) : d.skins[y[1]].n \in names}}

(* --------------------------------- scaling --------------------------------- *)
(* numbers: value = i * 2^e, or sign i times the mantissa named b times 2^e       *)
NumMul(x, y) == IF x.i = 0 \/ y.i = 0 THEN [i |-> 0, e |-> 0, b |-> ""]
                ELSE [i |-> x.i * y.i, e |-> x.e + y.e, b |-> x.b \o y.b]
KeepsOwnScale == {"noScale", "noScaleOrReflection", "onlyTranslation"}
Scaled(b) == b.n = "root" \/ b.m \in KeepsOwnScale
ScaleDoc(d, x, y) ==
  [d EXCEPT !.bones = [i \in 1..Len(@) |->
      IF Scaled(@[i]) THEN [@[i] EXCEPT !.sx = NumMul(@, x), !.sy = NumMul(@, y)] ELSE @[i]]]
=============================================================================
