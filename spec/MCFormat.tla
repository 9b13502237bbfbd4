------------------------------- MODULE MCFormat -------------------------------
(* Every object of every kind with up to N attributes over representative values  *)
(* (equal to the default, falsy, close to it, far from it), and with all of them.  *)
(* TLC checks the reference loader against the meaning of the format and prints    *)
(* the objects, which the real code has to load and save.                          *)
EXTENDS Format, Json

CONSTANTS N, Emit, What       \* What: "objects" (C01, C28) or "unknown" (C02)
VARIABLE o

ValuesOf(t) ==
  CASE t = "num" -> {"#0", "#1", "#-1", "#0.5", "#1e-05", "#360.25"}
    [] t = "count" -> {"#1", "#3"}
    [] t = "str" -> {"s:x", "s:normal", "s:ffffffff", "s:0"}
    [] t = "text" -> {"s:", "s:x"}
    [] t = "bool" -> {"true", "false"}
    [] t = "list" -> {"l:[0]", "l:[1,2.5]", "l:[]"}
    [] t = "curve" -> {"s:stepped", "#0.25", "#0", "#1", "l:[0,0,1,1]", "l:[]"}
    [] t = "any" -> {"#0", "s:x", "s:", "false", "true", "l:[0]"} \cup Nothing
PickSeq(t) == CASE t = "count" -> <<"#3", "#4", "#5">> [] t = "num" -> <<"#0", "#0.5", "#1">> [] t = "str" -> <<"s:x", "s:ffffffff", "s:normal">> [] t = "text" -> <<"s:", "s:x", "s:y">>
                [] t = "bool" -> <<"true", "false", "true">> [] t = "list" -> <<"l:[0]", "l:[1,2.5]", "l:[3]">>
                [] OTHER -> <<"s:stepped", "#0.25", "#0">>
Universe == (UNION {DOMAIN Schema[k] : k \in Kinds}) \cup {"foo", "Name", "time ", "attachments", "type", "audio2", "", "__class__"}
Containers == {"doc", "bonetl", "slottl", "animation"}
Attrs(k) == DOMAIN Schema[k] \ (Required(k) \cup {"type", "name", "slot"})
Kinds1 == Kinds \ ({"skeleton"} \cup Containers)
Default1(k, x) == LET v == Schema[k][x].d IN IF v \in {"", "-"} THEN PickSeq(Schema[k][x].t)[1] ELSE v

(* reference loaders: what an implementation may take as defaults without changing the meaning *)
DefaultsOf(k, S) == [x \in {y \in DOMAIN Schema[k] \cap S : Schema[k][y].d \notin {"", "-"}} |-> Schema[k][x].d]
Tables(i) == CASE i = 1 -> [k \in Kinds |-> DefaultsOf(k, DOMAIN Schema[k])]
               [] i = 2 -> [k \in Kinds |-> DefaultsOf(k, {"time", "c2", "c3", "c4", "x", "y", "scaleX", "scaleY"})]
               [] i = 3 -> [k \in {} |-> <<>>]
               [] i = 4 -> Omitted

Vals == [k \in Kinds |-> [x \in DOMAIN Schema[k] |-> ValuesOf(Schema[k][x].t)]]
AttrOf == [k \in Kinds |-> Attrs(k)]
Tab == [i \in 1..4 |-> Tables(i)]

Objects ==
  \E k \in Kinds1 :
    \/ o = [k |-> k, a |-> <<>>]
    \/ \E x \in AttrOf[k] : \E v \in Vals[k][x] : o = [k |-> k, a |-> x :> v]
    \/ /\ N >= 2
       /\ \E x \in AttrOf[k] : \E y \in AttrOf[k] \ {x} : \E v \in Vals[k][x] : \E w \in Vals[k][y] :
            o = [k |-> k, a |-> (x :> v) @@ (y :> w)]
    \/ /\ N >= 3
       /\ \E x \in AttrOf[k] : \E y \in AttrOf[k] \ {x} : \E z \in AttrOf[k] \ {x, y} :
            \E v \in Vals[k][x] : \E w \in Vals[k][y] : \E i \in 1..3 :
            o = [k |-> k, a |-> (x :> v) @@ (y :> w) @@ (z :> PickSeq(Schema[k][z].t)[i])]
    \/ \E i \in 1..3 : o = [k |-> k, a |-> [x \in AttrOf[k] |-> PickSeq(Schema[k][x].t)[i]]]
    \/ o = [k |-> k, a |-> [x \in AttrOf[k] |-> Default1(k, x)]]
    \/ \E x \in AttrOf[k] : o = [k |-> k, a |-> [y \in AttrOf[k] |-> IF x = y THEN PickSeq(Schema[k][x].t)[2] ELSE Default1(k, y)]]
Unknown ==
  \E k \in Kinds \ {"skeleton"} :
    \E x \in Universe \ (DOMAIN Schema[k] \cup Meaningless(k)) : \E v \in ValuesOf("any") : o = [k |-> k, a |-> x :> v]

(* what has to be refused: a required attribute left out, an id used twice, a kind of         *)
(* attachment nobody knows, a version that is none                                            *)
Segments == {"", "3", "8", "x", "-1", "8 ", "10"}
RECURSIVE Joined(_)
Joined(n) == IF n = 1 THEN Segments ELSE {a \o "." \o b : a \in Segments, b \in Joined(n - 1)}
VersionTexts == UNION {Joined(n) : n \in 1..4}
Faults ==
  \/ \E k \in Kinds : \E x \in Required(k) : o = [k |-> "missing", a |-> ("k" :> k) @@ ("x" :> x)]
  \/ \E k \in {"bone", "slot", "ik"} : o = [k |-> "repeat", a |-> "k" :> k]
  \/ \E t \in {"point", "clipping", "boundingbox", "region", "slot", "skinnedmesh", "weightedmesh", "Mesh", "mesh ", "foo", ""} :
       o = [k |-> "type", a |-> "t" :> t]
  \/ \E v \in VersionTexts : ~IsVersion(v) /\ o = [k |-> "version", a |-> "v" :> v]
Init == CASE What = "objects" -> Objects [] What = "unknown" -> Unknown [] What = "faults" -> Faults
Next == UNCHANGED o
Spec == Init /\ [][Next]_o

Doc1 == ("doc" :> [k |-> "skeleton", a |-> "spine" :> "s:3.8"]) @@ ("x" :> o)
(* saving what was loaded keeps the meaning, whatever defaults are filled in and left out *)
LoadSaveKeepsMeaning == \A i \in 1..4 : CanonObj(SaveObj(Tab[i], LoadObj(Tab[i], o))) = CanonObj(o)
SaveIsStable == \A i \in 1..4 : LET s == SaveObj(Tab[i], LoadObj(Tab[i], o)) IN SaveObj(Tab[i], LoadObj(Tab[i], s)) = s
(* loading with the defaults of one version and saving with those of another *)
TablesMix == \A i, j \in 1..4 : CanonObj(SaveObj(Tab[i], LoadObj(Tab[j], o))) = CanonObj(o)
(* saving tersely keeps the meaning, is a fixed point, and nothing that could go is left *)
TerseKeepsMeaning == CanonObj(Terse(o)) = CanonObj(o) /\ Terse(Terse(o)) = Terse(o)
TerseIsCompact == CompactObj(Terse(o)) /\ NothingAdded("x" :> o, "x" :> Terse(o)) /\ SaveObj(Omitted, Terse(o)) = Terse(o)
CanonIdempotent == CanonObj(CanonObj(o)) = CanonObj(o)
Classified == CASE What = "objects" -> ~Unmodelled(Doc1) [] What = "unknown" -> Unmodelled(Doc1) [] OTHER -> TRUE
DownLevelDropsOnlyCurves ==
  /\ DownLevel(Doc1, "3.8") = Doc1 /\ DownLevel(Doc1, "4.0.2") = Doc1
  /\ LET q == DownLevel(Doc1, "3.7.94") IN
     /\ HasCurve(o.k) => DOMAIN q["x"].a = DOMAIN o.a \ CurveAttrs
     /\ ~HasCurve(o.k) => q["x"] = o
     /\ DownLevel(q, "3.6") = q
     /\ Canon(DownLevel(Canon(Doc1), "3.7")) = Canon(DownLevel(Doc1, "3.7"))
Show == Emit => PrintT("@@CASE " \o ToJson(o))
=============================================================================
