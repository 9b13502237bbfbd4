------------------------------ MODULE TextTrace ------------------------------
(* Validation of what the real SpineVersion and get_tags_from_name returned.   *)
EXTENDS Text, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, bad, nt
vars == <<l, bad, nt>>

Clause(name, holds) == IF holds THEN {} ELSE {name}

(* version: s, out; cmp: a, b (strings), results of the six operators per form *)
Six(a, b) == [lt |-> VerLess(a, b), le |-> VerLess(a, b) \/ a = b, gt |-> VerLess(b, a),
              ge |-> VerLess(b, a) \/ a = b, eq |-> a = b, ne |-> a # b]
C19(e) ==
  CASE e.e = "version" ->
         Clause("refused_iff_malformed", (e.out = "ok") = IsVersion(e.s))
         \cup (IF e.out = "ok" /\ IsVersion(e.s) THEN Clause("triple", <<e.major, e.minor, e.patch>> = Version(e.s)) ELSE {})
    [] e.e = "cmp" ->
         Clause("no_crash", e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE
               Clause("order_of_versions", e.vv = Six(Version(e.a), Version(e.b)))
               \cup Clause("order_with_string", e.vs = Six(Version(e.a), Version(e.b)))
               \cup Clause("order_of_string", e.sv = Six(Version(e.a), Version(e.b))))
    [] OTHER -> {}
C19nt(e) == IF e.e = "cmp" THEN Version(e.a) # Version(e.b) ELSE e.e = "version"

C20(e) ==
  IF e.e # "tags" THEN {}
  ELSE Clause("refused_iff_wrong", (e.out = "ok") = ~TagsRefused(e.s))
       \cup (IF e.out = "ok" /\ ~TagsRefused(e.s)
             THEN Clause("tags_exact", [n \in DOMAIN e.ret |-> <<e.ret[n][1], e.ret[n][2]>>] = TagValues(e.s))
             ELSE {})
C20nt(e) == e.e = "tags" /\ Tags(e.s) # <<>>

Violated(e) == CASE Prop = "C19" -> C19(e) [] Prop = "C20" -> C20(e)
Nontrivial(e) == CASE Prop = "C19" -> C19nt(e) [] Prop = "C20" -> C20nt(e)
Relevant(e) == e.e \in {"version", "cmp", "tags"}

Init == l = 1 /\ bad = <<>> /\ nt = <<0, 0>>
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]  v == Violated(e) IN
     /\ l' = l + 1
     /\ bad' = IF Len(bad) > 30 \/ v = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> SetToSeq0(v)])
     /\ nt' = <<nt[1] + (IF Relevant(e) THEN 1 ELSE 0), nt[2] + (IF Nontrivial(e) THEN 1 ELSE 0)>>
Verdict ==
  /\ l = Len(Trace) + 1
  /\ PrintT("@@VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad, relevant |-> nt[1], nontrivial |-> nt[2]]))
  /\ l' = l + 1 /\ UNCHANGED <<bad, nt>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
