----------------------------- MODULE SpineEditor -----------------------------
(* The editor as a state machine: the requests a user can make, what each one   *)
(* does (Outcome), and the properties every step has to satisfy (Clauses).      *)
(* The same Clauses are checked by TLC on the model (MCEditor) and on every step *)
(* recorded from the real editor (EditorTrace).                                  *)
EXTENDS SpineDoc

(* A request o:                                                                  *)
(*  [op |-> "erase_anims", names, strict, safe, islist]                           *)
(*  [op |-> "erase_skins", names, safe, islist]   [op |-> "clean"]                *)
(*  [op |-> "scale", x, y, islist]                [op |-> "reload"] save and load *)
(* islist: the arguments are of the right type (a list of names; two numbers)      *)
(* A result r: [out |-> "ok" or another word, doc |-> the document afterwards,    *)
(*  rs, ra, ri |-> slots, attachments and images reported,                        *)
(*  imgs |-> image references: image -> [p path, has, n, d]]                      *)

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE <<Head(s)>> \o Dedup(SelectSeq(Tail(s), LAMBDA x : x # Head(s)))

Rejects(d, o) ==
  CASE o.op = "erase_anims" -> ~o.islist \/ (o.strict /\ \E n \in Range(o.names) : n \notin AnimSet(d))
    [] o.op = "erase_skins" -> ~o.islist \/ \E n \in Range(o.names) : n \notin SkinSet(d)
    [] o.op = "scale" -> ~o.islist \/ ~Rooted(d)
    [] OTHER -> FALSE
Erases(o) == o.op \in {"erase_anims", "erase_skins"}
Cleans(o) == o.op = "clean" \/ (Erases(o) /\ ~o.safe)

(* what the request itself asks for, before any cleaning *)
Asked(d, o) ==
  CASE o.op = "erase_anims" -> EraseAnimsRaw(d, Range(o.names))
    [] o.op = "erase_skins" -> EraseSkinsRaw(d, Dedup(o.names))
    [] o.op = "scale" -> ScaleDoc(d, o.x, o.y)
    [] OTHER -> d

ImagesFreed(d, o) == IF o.op # "erase_skins" THEN {}
                     ELSE ImagesOfSkins(d, Range(o.names)) \ Images(Asked(d, o))

Outcome(d, o) ==
  IF Rejects(d, o) THEN [out |-> "err", doc |-> d, rs |-> {}, ra |-> {}, ri |-> {}]
  ELSE LET b == Asked(d, o) IN
       IF Cleans(o) THEN LET c == CleanResult(b) IN
            [out |-> "ok", doc |-> c.doc, rs |-> c.slots, ra |-> c.atts, ri |-> ImagesFreed(d, o)]
       ELSE [out |-> "ok", doc |-> b, rs |-> {}, ra |-> {}, ri |-> ImagesFreed(d, o)]

(* ------------------------------- clauses ---------------------------------- *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
(* an accepted request has to succeed *)
Fails(d, o, r) == ~Rejects(d, o) /\ r.out # "ok"
Done(d, o, r) == ~Rejects(d, o) /\ r.out = "ok"

C05(d, o, r) ==
  IF o.op # "erase_anims" THEN {}
  ELSE Clause("refused_iff_it_must_be", (r.out = "ok") = ~Rejects(d, o))
       \cup (IF r.out # "ok" THEN {}
             ELSE Clause("exactly_the_others_left", AnimSet(r.doc) = AnimSet(d) \ Range(o.names))
                  \cup Clause("returns_current_document", r.retsame))

C06(d, o, r) ==
  (IF (Erases(o) \/ o.op = "scale") /\ r.out # "ok"
   THEN Clause("document_unchanged", r.doc = d) \cup Clause("images_unchanged", r.imgsame)
   ELSE {})
  \cup Clause("as_if_never_requested", r.shadowsame)

C07(d, o, r) ==
  IF ~Cleans(o) \/ ~Done(d, o, r) THEN (IF Cleans(o) THEN Clause("request_failed", ~Fails(d, o, r)) ELSE {})
  ELSE LET b == Asked(d, o)  p == r.doc
           shown == UNION {UNION {{<<an, b.slots[i].n, x>> :
                                    x \in {y \in Entries(b) : y[2] = b.slots[i].n /\ y[3] \in Displayable(b, an, b.slots[i])}}
                                  : i \in 1..Len(b.slots)} : an \in AnimSet(b)}
           Kept(x) == \E j \in 1..Len(p.skins) :
                        /\ p.skins[j].n = b.skins[x[1]].n
                        /\ x[2] \in DOMAIN p.skins[j].at /\ x[3] \in DOMAIN p.skins[j].at[x[2]]
                        /\ p.skins[j].at[x[2]][x[3]] = Att(b, x)
           DeformOf(q, an, x) ==
             LET df == q.anims[an].df  sk == b.skins[x[1]].n IN
             IF sk \in DOMAIN df THEN (IF x[2] \in DOMAIN df[sk]
                THEN (IF x[3] \in DOMAIN df[sk][x[2]] THEN df[sk][x[2]][x[3]] ELSE "") ELSE "") ELSE ""
       IN Clause("visible_slot_kept", \A t \in shown : t[2] \in SlotSet(p) /\ SlotOf(p, t[2]) = SlotOf(b, t[2]))
          \cup Clause("shown_attachment_kept", \A t \in shown : Kept(t[3]))
          \cup Clause("its_timelines_kept", \A t \in shown :
                 /\ t[1] \in AnimSet(p)
                 /\ (t[2] \in DOMAIN b.anims[t[1]].sl) = (t[2] \in DOMAIN p.anims[t[1]].sl)
                 /\ t[2] \in DOMAIN b.anims[t[1]].sl => p.anims[t[1]].sl[t[2]] = b.anims[t[1]].sl[t[2]]
                 /\ DeformOf(p, t[1], t[3]) = DeformOf(b, t[1], t[3]))

(* the declarative form of what cleaning removes *)
NeverShown(b, s) == \A an \in AnimSet(b) : HiddenIn(b, an, s)
NameIsUsed(b, k) == \E an \in AnimSet(b), i \in 1..Len(b.slots) : k \in UsedBy(b, an, b.slots[i])
NameIsKept(b, k) == \/ NameIsUsed(b, k)
                    \/ \E x \in Entries(b) : /\ x[3] = k
                                             /\ \/ x[2] \in PathTargets(b)
                                                \/ Att(b, x).k = "mesh" /\ ~NeverShown(b, SlotOf(b, x[2]))
SlotIsKept(b, s) == \/ s.n \in PathTargets(b)
                    \/ /\ ~NeverShown(b, s)
                       /\ \E x \in Entries(b) : x[2] = s.n /\ NameIsKept(b, x[3])
C08(d, o, r) ==
  IF ~Cleans(o) \/ ~Done(d, o, r) THEN (IF Cleans(o) THEN Clause("request_failed", ~Fails(d, o, r)) ELSE {})
  ELSE LET b == Asked(d, o)  p == r.doc
           slots == {b.slots[i].n : i \in {j \in 1..Len(b.slots) : SlotIsKept(b, b.slots[j])}}
           names == {k \in AttNames(b) : NameIsKept(b, k)}
       IN Clause("slots_removed_exactly", SlotSet(p) = slots)
          \cup Clause("attachments_removed_exactly",
                 {<<b.skins[x[1]].n, x[2], x[3]>> : x \in {y \in Entries(b) : y[2] \in slots /\ y[3] \in names}} =
                 {<<p.skins[x[1]].n, x[2], x[3]>> : x \in Entries(p)})
          \cup Clause("reported_slots_exact", Range(r.rs) = SlotSet(b) \ SlotSet(p) /\ NoRepeat(r.rs))
          \cup Clause("reported_attachments_exact", Range(r.ra) = AttNames(b) \ names)
          \cup Clause("reported_attachments_gone", Range(r.ra) \cap AttNames(p) = {})

C09(d, o, r) ==
  IF Rejects(d, o) THEN {}
  ELSE Clause("request_failed", ~Fails(d, o, r)) \cup {"dangling_" \o f : f \in BadRefs(r.doc)}
       \cup Clause("setup_attachment_removed", Cleans(o) => \A i \in 1..Len(r.doc.slots) : r.doc.slots[i].a \notin Range(r.ra) \ {""})

C10(d, o, r) ==
  IF Rejects(d, o) THEN {}
  ELSE IF Fails(d, o, r) THEN {"request_failed"}
  ELSE LET b == Asked(d, o)  p == r.doc  left == SlotSet(p) IN
       UNION {LET k == b.anims[an].dr  m == p.anims[an].dr IN
              IF Len(k) # Len(m) THEN {"keys_kept"}
              ELSE UNION {Clause("key_time_kept", k[i].t = m[i].t)
                          \cup (IF ~DOWellFormed(SlotSeq(p), m[i].of) THEN {"offsets_well_formed"}
                                ELSE Clause("order_of_the_rest_kept",
                                       DOOrder(SlotSeq(p), m[i].of) =
                                         SelectSeq(DOOrder(SlotSeq(b), k[i].of), LAMBDA x : x \in left)))
                          : i \in 1..Len(k)}
              : an \in AnimSet(b) \cap AnimSet(p)}
       \cup Clause("animations_kept", AnimSet(b) \subseteq AnimSet(p))

DeformSkins(d) == {<<an, sk>> : an \in AnimSet(d), sk \in UNION {DOMAIN d.anims[a].df : a \in AnimSet(d)}}
HasDeform(d, an, sk) == an \in AnimSet(d) /\ sk \in DOMAIN d.anims[an].df
C11(d, o, r) ==
  IF o.op # "erase_skins" THEN {}
  ELSE IF Rejects(d, o) THEN Clause("refused_if_it_must_be", r.out # "ok")
  ELSE IF Fails(d, o, r) THEN {"request_failed"}
  ELSE LET b == Asked(d, o)  p == r.doc  gone == Range(o.names) IN
       Clause("exactly_the_others_left_in_order", SkinSeq(p) = SelectSeq(SkinSeq(d), LAMBDA n : n \notin gone))
       \cup Clause("deform_keys_of_erased_skins_gone", \A an \in AnimSet(p) : DOMAIN p.anims[an].df \cap gone = {})
       \cup Clause("other_deform_keys_stay",
              \A an \in AnimSet(d) : \A sk \in DOMAIN d.anims[an].df \ gone :
                \A s \in DOMAIN d.anims[an].df[sk] : \A k \in DOMAIN d.anims[an].df[sk][s] :
                  (\E i \in 1..Len(p.skins) : p.skins[i].n = sk /\ s \in DOMAIN p.skins[i].at /\ k \in DOMAIN p.skins[i].at[s])
                  => /\ HasDeform(p, an, sk) /\ s \in DOMAIN p.anims[an].df[sk]
                     /\ k \in DOMAIN p.anims[an].df[sk][s]
                     /\ p.anims[an].df[sk][s][k] = d.anims[an].df[sk][s][k])
       \cup Clause("images_reported_exact", Range(r.ri) = ImagesFreed(d, o))

Links(d, gone) == {x \in Entries(d) : Att(d, x).k = "linkedmesh" /\ d.skins[x[1]].n \notin gone}
C12(d, o, r) ==
  IF o.op # "erase_skins" \/ Rejects(d, o) THEN {}
  ELSE IF Fails(d, o, r) THEN {"request_failed"}
  ELSE LET b == Asked(d, o)  p == r.doc  gone == Range(o.names)
           Now(x) == SkinOf(p, d.skins[x[1]].n).at
           Still(x) == d.skins[x[1]].n \in SkinSet(p) /\ x[2] \in DOMAIN Now(x) /\ x[3] \in DOMAIN Now(x)[x[2]]
           Want(x) == SkinOf(b, d.skins[x[1]].n).at[x[2]][x[3]]
       IN Clause("linked_mesh_lost", o.safe => \A x \in Links(d, gone) : Still(x))
          \cup Clause("becomes_mesh_of_its_source", \A x \in Links(d, gone) :
                 (Still(x) /\ LinkedSkin(Att(d, x)) \in gone) => Now(x)[x[2]][x[3]] = Want(x))
          \cup Clause("other_linked_meshes_unchanged", \A x \in Links(d, gone) :
                 (Still(x) /\ LinkedSkin(Att(d, x)) \notin gone) => Now(x)[x[2]][x[3]] = Att(d, x))

(* the image references are judged by themselves, after every event *)
C13of(doc, imgs) ==
  Clause("images_used_exactly", DOMAIN imgs = Images(doc))
  \cup Clause("paths", \A i \in DOMAIN imgs : imgs[i].p = ImagePath(doc.dir, i))
C13(d, o, r) == IF Rejects(d, o) THEN {} ELSE Clause("request_failed", ~Fails(d, o, r)) \cup C13of(r.doc, r.imgs)
C14of(doc, imgs) ==
  Clause("scale_is_product_of_tags", \A i \in DOMAIN imgs \cap Images(doc) :
     LET sc == ImageScales(doc, i) IN
     IF imgs[i].has THEN <<imgs[i].n, imgs[i].d>> \in sc \ {One} ELSE One \in sc)
C14(d, o, r) == IF Rejects(d, o) THEN {} ELSE Clause("request_failed", ~Fails(d, o, r)) \cup C14of(r.doc, r.imgs)

C15(d, o, r) ==
  IF ~Erases(o) THEN {}
  ELSE IF ~o.safe \/ Rejects(d, o) THEN {}
  ELSE IF Fails(d, o, r) THEN {"request_failed"}
  ELSE Clause("only_what_was_asked", r.doc = Asked(d, o))
       \cup Clause("nothing_reported_as_cleaned", r.rs = <<>> /\ r.ra = <<>>)

BoneScales(d) == [i \in 1..Len(d.bones) |-> <<d.bones[i].n, d.bones[i].sx, d.bones[i].sy>>]
C16(d, o, r) ==
  IF o.op = "scale"
  THEN IF Rejects(d, o) THEN Clause("refused_if_impossible", r.out # "ok") \cup Clause("nothing_scaled_if_refused", BoneScales(r.doc) = BoneScales(d))
       ELSE IF r.out # "ok" THEN {"request_failed"}
       ELSE Clause("scales_exactly_once", BoneScales(r.doc) = BoneScales(Asked(d, o)))
            \cup Clause("nothing_else_changes", [r.doc EXCEPT !.bones = Asked(d, o).bones] = Asked(d, o)
                                                /\ \A i \in 1..Len(d.bones) : i \in 1..Len(r.doc.bones) /\
                                                   [r.doc.bones[i] EXCEPT !.sx = 0, !.sy = 0] = [d.bones[i] EXCEPT !.sx = 0, !.sy = 0])
  ELSE Clause("scale_survives", r.out = "ok" => BoneScales(r.doc) = BoneScales(d))

C17(d, o, r) == (IF o.op = "reload" THEN Clause("reload_keeps_document", r.out = "ok" /\ r.doc = d) ELSE {})
                \cup Clause("same_document_after_reload", r.twin.doc)
                \cup Clause("same_images_after_reload", r.twin.imgs)
                \cup Clause("same_report_after_reload", r.twin.rep)
                \cup Clause("same_outcome_after_reload", r.twin.out)

C18(d, o, r) ==
  IF o.op = "scale" \/ Rejects(d, o) THEN {}
  ELSE IF Fails(d, o, r) THEN {"request_failed"}
  ELSE LET b == Asked(d, o)  p == r.doc  left == SlotSet(p)
           KeyOf(q, x) == <<q.skins[x[1]].n, x[2], x[3]>>
           Has(q, sk, s, k) == sk \in SkinSet(q) /\ s \in DOMAIN SkinOf(q, sk).at /\ k \in DOMAIN SkinOf(q, sk).at[s]
       IN Clause("bones_unchanged", p.bones = b.bones)
          \cup Clause("ik_unchanged", p.ik = b.ik) \cup Clause("transform_unchanged", p.tr = b.tr)
          \cup Clause("path_unchanged", p.pa = b.pa) \cup Clause("events_unchanged", p.ev = b.ev)
          \cup Clause("skeleton_unchanged", p.sk = b.sk /\ p.dir = b.dir)
          \cup Clause("slots_keep_order_and_attributes",
                 LET k == SelectSeq(b.slots, LAMBDA s : s.n \in left) IN
                 Len(k) = Len(p.slots) /\ \A i \in 1..Len(k) :
                   p.slots[i] = k[i] \/ p.slots[i] = Unset(k[i], Range(r.ra) \ AttNames(p)))
          \cup Clause("skins_keep_order", SkinSeq(p) = SkinSeq(b))
          \cup Clause("attachments_unchanged",
                 \A x \in Entries(p) : Has(b, p.skins[x[1]].n, x[2], x[3])
                                       /\ SkinOf(b, p.skins[x[1]].n).at[x[2]][x[3]] = Att(p, x))
          \cup Clause("animations_unchanged", AnimSet(p) = AnimSet(b) /\ \A an \in AnimSet(b) : p.anims[an].r = b.anims[an].r)
          \cup (IF AnimSet(p) # AnimSet(b) THEN {} ELSE
                Clause("slot_timelines_unchanged", \A an \in AnimSet(b) :
                  p.anims[an].sl = [s \in DOMAIN b.anims[an].sl \cap left |-> b.anims[an].sl[s]])
                \cup Clause("deform_unchanged", \A an \in AnimSet(b) :
                  p.anims[an].df = DeformMap(b.anims[an].df, LAMBDA sk, s, k : Has(p, sk, s, k)))
                \cup Clause("draw_order_keys_unchanged", \A an \in AnimSet(b) :
                  LET k == b.anims[an].dr  m == p.anims[an].dr IN
                  Len(k) = Len(m) /\ \A i \in 1..Len(k) :
                    m[i].t = k[i].t /\ {m[i].of[j].s : j \in 1..Len(m[i].of)} \subseteq {k[i].of[j].s : j \in 1..Len(k[i].of)}))

(* Queries, asked on a document doc and answered q:                               *)
(* [az slots with alpha zero, np slots without setup pose, us, ua unused slots and  *)
(*  attachment names, sc : slot -> [n, d] its scale, scr refused, found, other: names looked up  *)
(*  that exist, or do not; pure, imgs, ver BOOLEAN, asked : the queries that exist] *)
C29of(doc, q) ==
  LET A(name) == name \in Range(q.asked) IN
  Clause("no_crash", q.out = "ok")
  \cup (IF q.out # "ok" THEN {} ELSE
    Clause("slots_with_alpha_zero", A("az") => Range(q.az) = {doc.slots[i].n : i \in {j \in 1..Len(doc.slots) : AlphaZero(doc.slots[j])}})
    \cup Clause("slots_without_setup_pose", A("np") => Range(q.np) = {doc.slots[i].n : i \in {j \in 1..Len(doc.slots) : NoSetup(doc.slots[j])}})
    \cup Clause("unused_slots", A("us") => Range(q.us) = InvisibleSlots(doc))
    \cup Clause("unused_attachments", A("us") => Range(q.ua) = UnusedNames(doc))
    \cup Clause("scale_of_slots", A("sc") => /\ DOMAIN q.sc = SlotSet(doc) \ Range(q.scr)
                                          /\ \A s \in DOMAIN q.sc : <<q.sc[s].n, q.sc[s].d>> = SlotScale(doc, s))
    \cup Clause("scale_refused_iff_tags_are", A("sc") => Range(q.scr) = {s \in SlotSet(doc) : SlotScaleRefused(doc, s)})
    \cup Clause("found_what_exists", Range(q.slots) = SlotSet(doc) /\ Range(q.bones) = BoneSet(doc) /\ Range(q.skins) = SkinSet(doc))
    \cup Clause("found_in_full", q.full)
    \cup Clause("images_are_current", q.imgs)
    \cup Clause("version", q.ver)
    \cup Clause("asking_changes_nothing", q.pure))
C29(d, o, r) == IF Rejects(d, o) THEN {} ELSE Clause("request_failed", ~Fails(d, o, r)) \cup C29of(r.doc, r.q)

Violated(P, d, o, r) ==
  CASE P = "C05" -> C05(d, o, r) [] P = "C06" -> C06(d, o, r) [] P = "C07" -> C07(d, o, r)
    [] P = "C08" -> C08(d, o, r) [] P = "C09" -> C09(d, o, r) [] P = "C10" -> C10(d, o, r)
    [] P = "C11" -> C11(d, o, r) [] P = "C12" -> C12(d, o, r) [] P = "C13" -> C13(d, o, r)
    [] P = "C14" -> C14(d, o, r) [] P = "C15" -> C15(d, o, r) [] P = "C16" -> C16(d, o, r)
    [] P = "C17" -> C17(d, o, r) [] P = "C18" -> C18(d, o, r)
    [] P = "C29" -> C29(d, o, r)

(* which steps say something about a property *)
Relevant(P, d, o) ==
  CASE P = "C05" -> o.op = "erase_anims" [] P = "C06" -> TRUE
    [] P \in {"C07", "C08"} -> Cleans(o) /\ ~Rejects(d, o)
    [] P \in {"C11", "C12"} -> o.op = "erase_skins"
    [] P = "C15" -> Erases(o) /\ o.safe /\ ~Rejects(d, o)
    [] OTHER -> ~Rejects(d, o)
Nontrivial(P, d, o, r) ==
  CASE P = "C05" -> Range(o.names) \cap AnimSet(d) # {} \/ Rejects(d, o)
    [] P = "C06" -> Rejects(d, o)
    [] P \in {"C07", "C08", "C09", "C18"} -> Cleans(o) /\ (r.rs # <<>> \/ r.ra # <<>>)
    [] P = "C10" -> r.rs # <<>> /\ \E an \in AnimSet(r.doc) : \E i \in 1..Len(r.doc.anims[an].dr) : r.doc.anims[an].dr[i].of # <<>>
    [] P = "C11" -> o.op = "erase_skins" /\ ~Rejects(d, o) /\ r.ri # <<>>
    [] P = "C12" -> o.op = "erase_skins" /\ ~Rejects(d, o) /\
                    \E x \in Links(d, Range(o.names)) : LinkedSkin(Att(d, x)) \in Range(o.names)
    [] P = "C13" -> r.doc # d [] P = "C14" -> \E i \in DOMAIN r.imgs : r.imgs[i].has
    [] P = "C15" -> r.doc # d [] P = "C16" -> o.op = "scale" \/ r.rs # <<>>
    [] P = "C17" -> r.doc # d
    [] P = "C29" -> r.doc # d /\ (r.q.az # <<>> \/ r.q.np # <<>> \/ r.q.us # <<>>)
=============================================================================
