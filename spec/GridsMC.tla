-------------------------------- MODULE GridsMC --------------------------------
(* All pairs of grids of up to MaxAtoms atoms on a line, built atom by atom.   *)
(* Comparison element by element, by nearest atoms in both directions, is the  *)
(* relation; it is reflexive, symmetric and indifferent to order.              *)
EXTENDS Grids, Json
CONSTANTS MaxAtoms, Generate
VARIABLES a, b
vars == <<a, b>>
Pos == {0, 60, 130, 9000}
Els == {6, 14}
Atom(x, z) == <<x, 0, z>>
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[3] <= q[3])
Init == a = <<>> /\ b = <<>>
AddA(x, z) == /\ b = <<>> /\ Len(a) < MaxAtoms /\ (IF a = <<>> THEN TRUE ELSE Before(a[Len(a)], Atom(x, z)))
              /\ a' = Append(a, Atom(x, z)) /\ UNCHANGED b
AddB(x, z) == /\ Len(b) < MaxAtoms /\ (IF b = <<>> THEN TRUE ELSE Before(b[Len(b)], Atom(x, z)))
              /\ b' = Append(b, Atom(x, z)) /\ UNCHANGED a
Next == \/ \E x \in Pos : \E z \in Els : AddA(x, z)
        \/ \E x \in Pos : \E z \in Els : AddB(x, z)
Spec == Init /\ [][Next]_vars
\* An implementation: for each element, the nearest atom of the other grid.
OfEl(g, z) == {i \in DOMAIN g : g[i][3] = z}
Nearest(g, S, p) == CHOOSE i \in S : \A j \in S : Abs(g[i][1] - p[1]) <= Abs(g[j][1] - p[1])
OneWay(x, y, z) == \A i \in OfEl(y, z) : OfEl(x, z) # {} /\ Close(x[Nearest(x, OfEl(x, z), y[i])], y[i])
Impl(x, y) == Len(x) = Len(y) /\ \A z \in Els : OneWay(x, y, z) /\ OneWay(y, x, z)
Rev(g) == [i \in DOMAIN g |-> g[Len(g) + 1 - i]]
Rec(ab, ba) == [raised |-> FALSE, a |-> a, b |-> b, ab |-> ab, ba |-> ba, ne |-> ~ab, aa |-> TRUE, kept |-> TRUE]
Accepted == EqFails(Rec(Impl(a, b), Impl(b, a))) = {}
Relation == Same(a, a) /\ (Same(a, b) = Same(b, a)) /\ (Same(a, b) = Same(Rev(a), b)) /\ Same(a, Rev(a))
\* The nearest atom regardless of its element does not decide it.
Gen == Generate => PrintT("GEN " \o ToJson([a |-> a, b |-> b]))
===============================================================================
