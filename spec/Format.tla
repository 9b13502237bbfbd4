-------------------------------- MODULE Format --------------------------------
(* The Spine JSON format, as far as the library models it (C01, C02, C28).       *)
(* A document is flattened into objects: path -> [k kind, a attributes], where    *)
(* attribute values are canonical strings ("#1.5" numbers, "s:x" strings,         *)
(* "true"/"false", "null", "l:..." lists, "j:..." maps).  A modelled attribute     *)
(* that is null or an empty container means the same as an absent one.  The path  *)
(* holds the position in every list, so orders are part of the meaning.           *)
EXTENDS Text, TLC

A(t, d) == [t |-> t, d |-> d]        \* type, default ("" = none)
Num(d) == A("num", d)   Str(d) == A("str", d)   Bool(d) == A("bool", d)   Lst == A("list", "")
Merge(f, g) == f @@ g

Curve == ("curve" :> A("curve", "")) @@ ("c2" :> Num("#0")) @@ ("c3" :> Num("#1")) @@ ("c4" :> Num("#1"))
Key == ("time" :> Num("#0")) @@ Curve

Schema == [
  doc |-> <<>>, bonetl |-> <<>>, slottl |-> <<>>,      \* containers: any attribute of theirs is unknown
  skeleton |-> ("spine" :> Str("")),       \* carried over as it is, whatever it contains
  bone |-> ("name" :> Str("")) @@ ("parent" :> Str("")) @@ ("color" :> Str("s:989898ff")) @@ ("transform" :> Str("s:normal"))
           @@ ("length" :> Num("#0")) @@ ("x" :> Num("#0")) @@ ("y" :> Num("#0")) @@ ("rotation" :> Num("#0"))
           @@ ("scaleX" :> Num("#1")) @@ ("scaleY" :> Num("#1")) @@ ("shearX" :> Num("#0")) @@ ("shearY" :> Num("#0"))
           @@ ("inheritRotation" :> Bool("true")) @@ ("inheritScale" :> Bool("true")),
  slot |-> ("name" :> Str("")) @@ ("bone" :> Str("")) @@ ("attachment" :> Str("")) @@ ("color" :> Str("s:ffffffff"))
           @@ ("dark" :> Str("")) @@ ("blend" :> Str("s:normal")),
  ik |-> ("name" :> Str("")) @@ ("order" :> Num("#0")) @@ ("bones" :> Lst) @@ ("target" :> Str("")) @@ ("mix" :> Num("#1"))
         @@ ("softness" :> Num("#0")) @@ ("bendPositive" :> Bool("true")) @@ ("compress" :> Bool("false"))
         @@ ("stretch" :> Bool("false")) @@ ("uniform" :> Bool("false")),
  transform |-> ("name" :> Str("")) @@ ("order" :> Num("#0")) @@ ("bone" :> Str("")) @@ ("bones" :> Lst) @@ ("target" :> Str(""))
         @@ ("rotation" :> Num("#0")) @@ ("x" :> Num("#0")) @@ ("y" :> Num("#0")) @@ ("scaleX" :> Num("#0")) @@ ("scaleY" :> Num("#0"))
         @@ ("shearX" :> Num("#0")) @@ ("shearY" :> Num("#0")) @@ ("rotateMix" :> Num("#1")) @@ ("translateMix" :> Num("#1"))
         @@ ("scaleMix" :> Num("#1")) @@ ("shearMix" :> Num("#1")) @@ ("local" :> Bool("false")) @@ ("relative" :> Bool("false")),
  path |-> ("name" :> Str("")) @@ ("order" :> Num("#0")) @@ ("skin" :> Bool("false")) @@ ("bones" :> Lst) @@ ("target" :> Str(""))
         @@ ("positionMode" :> Str("s:percent")) @@ ("spacingMode" :> Str("s:length")) @@ ("rotateMode" :> Str("s:tangent"))
         @@ ("rotation" :> Num("#0")) @@ ("position" :> Num("#0")) @@ ("spacing" :> Num("#0"))
         @@ ("rotateMix" :> Num("#1")) @@ ("translateMix" :> Num("#1")),
  skin |-> ("name" :> Str("")),
  region |-> ("name" :> Str("")) @@ ("path" :> Str("")) @@ ("x" :> Num("#0")) @@ ("y" :> Num("#0")) @@ ("rotation" :> Num("#0"))
         @@ ("scaleX" :> Num("#1")) @@ ("scaleY" :> Num("#1")) @@ ("width" :> Num("")) @@ ("height" :> Num("")) @@ ("color" :> Str("s:ffffffff")),
  mesh |-> ("type" :> Str("")) @@ ("name" :> Str("")) @@ ("path" :> Str("")) @@ ("color" :> Str("s:ffffffff")) @@ ("hull" :> Num(""))
         @@ ("uvs" :> Lst) @@ ("triangles" :> Lst) @@ ("vertices" :> Lst) @@ ("edges" :> Lst) @@ ("width" :> Num("")) @@ ("height" :> Num("")),
  linkedmesh |-> ("type" :> Str("")) @@ ("name" :> Str("")) @@ ("path" :> Str("")) @@ ("color" :> Str("s:ffffffff")) @@ ("skin" :> Str(""))
         @@ ("parent" :> Str("")) @@ ("deform" :> Bool("true")) @@ ("width" :> Num("")) @@ ("height" :> Num("")),
  pathatt |-> ("type" :> Str("")) @@ ("name" :> Str("")) @@ ("color" :> Str("s:ff7f00ff")) @@ ("closed" :> Bool("false"))
         @@ ("constantSpeed" :> Bool("true")) @@ ("lengths" :> Lst) @@ ("vertexCount" :> A("count", "")) @@ ("vertices" :> Lst),
  event |-> ("int" :> Num("#0")) @@ ("float" :> Num("#0")) @@ ("string" :> A("text", "s:")),
  animation |-> <<>>,
  rotate |-> Key @@ ("angle" :> Num("#0")),
  translate |-> Key @@ ("x" :> Num("#0")) @@ ("y" :> Num("#0")),
  shear |-> Key @@ ("x" :> Num("#0")) @@ ("y" :> Num("#0")),
  scale |-> Key @@ ("x" :> Num("#1")) @@ ("y" :> Num("#1")),
  attachment |-> Key @@ ("name" :> Str("")),
  color |-> Key @@ ("color" :> Str("")),
  twoColor |-> Key @@ ("light" :> Str("")) @@ ("dark" :> Str("")),
  ikkey |-> Key @@ ("mix" :> Num("#1")) @@ ("bendPositive" :> Bool("true")) @@ ("compress" :> Bool("false")) @@ ("stretch" :> Bool("false")),
  transformkey |-> Key @@ ("rotateMix" :> Num("#1")) @@ ("translateMix" :> Num("#1")) @@ ("scaleMix" :> Num("#1")) @@ ("shearMix" :> Num("#1")),
  pathkey |-> Key @@ ("position" :> Num("#0")) @@ ("spacing" :> Num("#0")) @@ ("rotateMix" :> Num("#1")) @@ ("translateMix" :> Num("#1")),
  deform |-> Key @@ ("offset" :> Num("#0")) @@ ("vertices" :> Lst),
  eventkey |-> ("time" :> Num("#0")) @@ ("name" :> Str("")) @@ ("int" :> Num("")) @@ ("float" :> Num("")) @@ ("string" :> A("text", "-"))
         @@ ("audio" :> A("text", "s:")) @@ ("volume" :> Num("")) @@ ("balance" :> Num("")),
  drawkey |-> ("time" :> Num("#0")),
  offset |-> ("slot" :> Str("")) @@ ("offset" :> Num(""))]
Kinds == DOMAIN Schema
Required(k) == CASE k = "bone" -> {"name"} [] k = "slot" -> {"name", "bone"} [] k = "offset" -> {"offset"}
                 [] k = "skeleton" -> {"spine"} [] OTHER -> {}
CurveAttrs == {"c2", "c3", "c4"}
HasCurve(k) == k \in Kinds /\ "c2" \in DOMAIN Schema[k]
(* timelines of different kinds share a keyframe class in the library, which knows *)
(* the attributes of all of them; those of another kind mean nothing               *)
Meaningless(k) == CASE k = "rotate" -> {"x", "y"} [] k \in {"translate", "scale", "shear"} -> {"angle"} [] OTHER -> {}

(* ------------------------------- meaning -------------------------------- *)
DefaultOf(k, x) == IF k \in Kinds THEN (IF x \in DOMAIN Schema[k] THEN Schema[k][x].d ELSE "") ELSE ""
SlotKeys == {"attachment", "color", "twoColor"}      \* one class in the library too
Nothing == {"null", "l:[]", "j:{}"}
IsVoid(k, x, v) == v = DefaultOf(k, x) \/ (v \in Nothing /\ k \in Kinds /\ x \in DOMAIN Schema[k]) \/ x \in Meaningless(k) \/ (k = "region" /\ x = "type" /\ v = "s:region")
                   \/ (v = "null" /\ k \in SlotKeys /\ x \in UNION {DOMAIN Schema[j] : j \in SlotKeys})   \* an attribute of a sibling
CanonObj(o) == [k |-> o.k, a |-> [x \in {y \in DOMAIN o.a : ~IsVoid(o.k, y, o.a[y])} |-> o.a[x]]]
Canon(d) == [p \in DOMAIN d |-> CanonObj(d[p])]

(* ------------------------------ acceptance ------------------------------ *)
ObjectsOf(d, k) == {p \in DOMAIN d : d[p].k = k}
Repeated(d, k) == \E p, q \in ObjectsOf(d, k) : p # q /\ "name" \in DOMAIN d[p].a /\ "name" \in DOMAIN d[q].a
                                                    /\ d[p].a["name"] = d[q].a["name"]
VersionOf(d) == LET s == {p \in ObjectsOf(d, "skeleton") : "spine" \in DOMAIN d[p].a} IN
                IF s = {} THEN "" ELSE LET v == d[CHOOSE p \in s : TRUE].a["spine"] IN SubSeq(v, 3, Len(v))
MissingRequired(d) == \E p \in DOMAIN d : Required(d[p].k) \ DOMAIN d[p].a # {}
MustBeRefused(d) == \/ MissingRequired(d)
                    \/ Repeated(d, "bone") \/ Repeated(d, "slot") \/ Repeated(d, "ik")
                    \/ ~IsVersion(VersionOf(d))
Unmodelled(d) == \E p \in DOMAIN d : \/ d[p].k \notin Kinds
                                     \/ d[p].k # "skeleton" /\ DOMAIN d[p].a \ (DOMAIN Schema[d[p].k]) # {}
(* a required attribute that is there without a value: the library may do either *)
Undetermined(d) == \E p \in DOMAIN d : \E x \in Required(d[p].k) \cap DOMAIN d[p].a : d[p].a[x] \in Nothing
MustBeAccepted(d) == ~MustBeRefused(d) /\ ~Unmodelled(d) /\ ~Undetermined(d)

(* ------------------- how the library loads and saves objects -------------------- *)
(* load fills in the defaults it knows (table T: kind -> attribute -> default),      *)
(* save leaves out what equals them                                                  *)
LoadObj(T, o) == [k |-> o.k, a |-> o.a @@ (IF o.k \in DOMAIN T THEN T[o.k] ELSE <<>>)]
SaveObj(T, o) == [k |-> o.k, a |-> [x \in {y \in DOMAIN o.a : ~(o.k \in DOMAIN T /\ y \in DOMAIN T[o.k] /\ T[o.k][y] = o.a[y])} |-> o.a[x]]]

(* ------------------------- what goes without saying (C35) ------------------------- *)
(* defaults of the format the library does not know, so it may write them out              *)
Undeclared == ({"deform"} \X {"offset"}) \cup ({"ik", "ikkey"} \X {"mix"}) \cup ({"bone", "slot", "region", "mesh", "linkedmesh", "pathatt"} \X {"color"})
              \cup ({"bone"} \X {"inheritRotation", "inheritScale"}) \cup ({"slot"} \X {"blend"}) \cup ({"path"} \X {"order", "positionMode", "rotateMode", "spacingMode"}) \cup {<<"pathkey", "time">>}
              \cup ({"transform"} \X {"local", "relative"}) \cup ({"transform", "transformkey"} \X {"rotateMix", "translateMix", "scaleMix", "shearMix"})
Omitted == [k \in Kinds |-> [x \in {y \in DOMAIN Schema[k] : Schema[k][y].d \notin {"", "-"} /\ <<k, y>> \notin Undeclared} |-> Schema[k][x].d]]
Superfluous(k, x, v) == /\ k \in Kinds /\ k # "skeleton" /\ x \in DOMAIN Schema[k]
                        /\ \/ x \in DOMAIN Omitted[k] /\ v = Omitted[k][x]
                           \/ v \in Nothing /\ ~(k \in SlotKeys /\ x = "name")
CompactObj(o) == \A x \in DOMAIN o.a : ~Superfluous(o.k, x, o.a[x])
Compact(d) == \A p \in DOMAIN d : CompactObj(d[p])
(* the form saving gives an object: nothing superfluous, slot keys always with a name   *)
Terse(o) == LET a == [x \in {y \in DOMAIN o.a : ~Superfluous(o.k, y, o.a[y])} |-> o.a[x]] IN
            [k |-> o.k, a |-> IF o.k \in SlotKeys THEN a @@ ("name" :> "null") ELSE a]
NothingAdded(in, out) == \A p \in DOMAIN out :
  /\ p \in DOMAIN in
  /\ \A x \in DOMAIN out[p].a : x \in DOMAIN in[p].a \/ (out[p].k \in SlotKeys /\ x = "name" /\ out[p].a[x] = "null")
Modern(d) == IsVersion(VersionOf(d)) /\ ~VerLess(Version(VersionOf(d)), <<3, 8, 0>>)

(* ---------------------------- older versions (C28) ------------------------------ *)
V38 == <<3, 8, 0>>
WithoutAttrs(o, S) == [k |-> o.k, a |-> [x \in DOMAIN o.a \ S |-> o.a[x]]]
DownLevel(d, ver) == IF VerLess(Version(ver), V38)
                     THEN [p \in DOMAIN d |-> IF HasCurve(d[p].k) THEN WithoutAttrs(d[p], CurveAttrs) ELSE d[p]]
                     ELSE d
=============================================================================
