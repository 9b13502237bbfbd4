--------------------------------- MODULE Batch ---------------------------------
(* Grouping and ordering of requests (C33).  A history of requests in safe mode,    *)
(* scalings, and at most one cleaning (asked for, or by a request that is not in     *)
(* safe mode) after which only scalings follow, amounts to: the animations and the   *)
(* skins erased, the product of the factors, and whether it cleaned.                 *)
EXTENDS SpineEditor

RECURSIVE Play(_, _)
Play(d, h) ==
  IF h = <<>> THEN [doc |-> d, rs |-> {}, ra |-> {}, ri |-> {}]
  ELSE LET p == Play(d, SubSeq(h, 1, Len(h) - 1))  r == Outcome(p.doc, h[Len(h)]) IN
       [doc |-> r.doc, rs |-> p.rs \cup r.rs, ra |-> p.ra \cup r.ra, ri |-> p.ri \cup r.ri]

NumOne == [i |-> 1, e |-> 0, b |-> ""]
RECURSIVE AmountFrom(_, _, _, _)
(* anims, skins: the names there were at the start; rooted: is there a bone called root *)
AmountFrom(anims, skins, rooted, h) ==
  IF h = <<>> THEN [an |-> {}, sk |-> {}, x |-> NumOne, y |-> NumOne, cl |-> FALSE]
  ELSE LET p == AmountFrom(anims, skins, rooted, SubSeq(h, 1, Len(h) - 1))  o == h[Len(h)]
           names == Range(o.names)
           refused == CASE o.op = "erase_anims" -> ~o.islist \/ (o.strict /\ ~(names \subseteq anims \ p.an))
                        [] o.op = "erase_skins" -> ~o.islist \/ ~(names \subseteq skins \ p.sk)
                        [] o.op = "scale" -> ~o.islist \/ ~rooted
                        [] OTHER -> FALSE
       IN IF refused THEN p
          ELSE [an |-> IF o.op = "erase_anims" THEN p.an \cup (names \cap anims) ELSE p.an,
                sk |-> IF o.op = "erase_skins" THEN p.sk \cup names ELSE p.sk,
                x |-> IF o.op = "scale" THEN NumMul(p.x, o.x) ELSE p.x,
                y |-> IF o.op = "scale" THEN NumMul(p.y, o.y) ELSE p.y,
                cl |-> p.cl \/ Cleans(o)]
Amount(d, h) == AmountFrom(AnimSet(d), SkinSet(d), Rooted(d), h)
(* only scalings, reloads and refused requests after the cleaning *)
InDomain(d, h) == \A i \in 1..Len(h) : Amount(d, SubSeq(h, 1, i)).cl =>
  \/ ~Amount(d, SubSeq(h, 1, i - 1)).cl
  \/ h[i].op \in {"scale", "reload"} \/ (Erases(h[i]) /\ Amount(d, SubSeq(h, 1, i)) = Amount(d, SubSeq(h, 1, i - 1)) /\ ~Cleans(h[i]))
================================================================================
