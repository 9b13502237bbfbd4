------------------------------ MODULE DrawOrder ------------------------------
(* The draw order a key of a draw order timeline produces, as the Spine runtime *)
(* computes it, and what a well formed key is (C10).                            *)
EXTENDS Integers, Sequences, FiniteSets

IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x

(* names: setup order of the slots; offs: sequence of [s |-> slot, o |-> offset] *)
DOTarget(names, k) == IndexIn(names, k.s) + k.o

DOWellFormed(names, offs) ==
  /\ \A i \in 1..Len(offs) : InSeq(names, offs[i].s)
  /\ \A i \in 1..(Len(offs) - 1) : IndexIn(names, offs[i].s) < IndexIn(names, offs[i+1].s)
  /\ \A i \in 1..Len(offs) : DOTarget(names, offs[i]) \in 1..Len(names)
  /\ \A i, j \in 1..Len(offs) : i # j => DOTarget(names, offs[i]) # DOTarget(names, offs[j])

(* runtime: moved slots go to their targets, the others fill the gaps in order *)
DOMoved(offs) == {offs[i].s : i \in 1..Len(offs)}
DOUnmoved(names, offs) == LET M == DOMoved(offs) IN SelectSeq(names, LAMBDA x : x \notin M)
DOOrder(names, offs) ==
  LET targets == [i \in 1..Len(offs) |-> DOTarget(names, offs[i])]
      T == {targets[i] : i \in 1..Len(offs)}
      U == DOUnmoved(names, offs)
  IN [p \in 1..Len(names) |->
        IF p \in T THEN offs[CHOOSE i \in 1..Len(offs) : targets[i] = p].s
        ELSE U[Cardinality({q \in 1..p : q \notin T})]]

(* the key that gives the same order after removing the slots R *)
DOAfterRemoval(names, offs, R) ==
  LET N == SelectSeq(names, LAMBDA x : x \notin R)
      O == SelectSeq(DOOrder(names, offs), LAMBDA x : x \notin R)
      K == SelectSeq(offs, LAMBDA k : k.s \notin R)
  IN [i \in 1..Len(K) |-> [s |-> K[i].s, o |-> IndexIn(O, K[i].s) - IndexIn(N, K[i].s)]]
=============================================================================
