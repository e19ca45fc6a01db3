------------------------------ MODULE FeaturesMC ------------------------------
(* A small scene is edited: atoms are swapped, the view is moved and resized  *)
(* around the fixed material, a second silicon appears or the silicon is      *)
(* lost.  After each edit the features are computed as the implementation     *)
(* does (select the silicon, sort by distance, subtract) and judged.          *)
EXTENDS Features, TLC, Json
CONSTANTS Depth, Generate
VARIABLES fov, atoms, hist, out, fails
vars == <<fov, atoms, hist, out, fails>>
\* Material positions in 1e-4 A; element.
Base == <<[m |-> <<40000, 40000>>, z |-> 14], [m |-> <<54000, 41000>>, z |-> 6],
          [m |-> <<33000, 53000>>, z |-> 6], [m |-> <<31000, 26000>>, z |-> 6],
          [m |-> <<69000, 70000>>, z |-> 6]>>
Views == {<<0, 0, 80000, 80000>>, <<10000, 20000, 90000, 90000>>, <<20000, 10000, 90000, 80000>>}
Mic(f, p) == <<Ratio6(p[1] - f[1], W(f)), Ratio6(p[2] - f[2], H(f))>>
Rec(f, as, v) ==
  [e |-> "Feat", variant |-> v, fov |-> f, goal |-> <<45000, 62000>>,
   atoms |-> [i \in DOMAIN as |-> [u |-> Mic(f, as[i].m), z |-> as[i].z]],
   conform |-> TRUE, kept |-> TRUE, outcome |-> "ok"]
\* As implemented: sort all by distance to the silicon, drop the first.
RECURSIVE Insert(_, _, _)
Insert(r, s, i) == IF s = <<>> THEN <<i>>
                   ELSE IF Len2(Off(r, i)) < Len2(Off(r, Head(s))) THEN <<i>> \o s
                   ELSE <<Head(s)>> \o Insert(r, Tail(s), i)
RECURSIVE Sorted(_, _)
Sorted(r, n) == IF n = 0 THEN <<>> ELSE Insert(r, Sorted(r, n - 1), n)
Silent == [outcome |-> "SiliconNotFoundError"]
Compute(f, as) ==
  LET r == Rec(f, as, "material") IN
  IF Silicons(r) = {} THEN Silent
  ELSE [outcome |-> "ok", si |-> ToMat(f, r.atoms[TheSi(r)].u),
        offs |-> [k \in 1..3 |-> Off(r, Sorted(r, Len(as))[k + 1])], delta |-> GoalDelta(r)]
Judge(f, as) == FeatFails(Compute(f, as) @@ Rec(f, as, "material"))
Init == fov \in Views /\ atoms = Base /\ hist = <<>> /\ out = Compute(fov, atoms) /\ fails = Judge(fov, atoms)
Edit(f, as, h) == /\ Len(hist) < Depth /\ fov' = f /\ atoms' = as /\ hist' = Append(hist, h)
                  /\ out' = Compute(f, as) /\ fails' = Judge(f, as)
Swap == \E i \in 1..4 : Edit(fov, [atoms EXCEPT ![i] = atoms[i + 1], ![i + 1] = atoms[i]], "W")
View == \E f \in Views : f # fov /\ Edit(f, atoms, "V")
Dope == \E i \in 1..5 : /\ atoms[i].m = <<69000, 70000>> /\ atoms[i].z = 6
                        /\ Edit(fov, [atoms EXCEPT ![i].z = 14], "2")
Lose == /\ \E i \in 1..5 : atoms[i].z = 14
        /\ Edit(fov, [i \in 1..5 |-> [atoms[i] EXCEPT !.z = 6]], "0")
Next == Swap \/ View \/ Dope \/ Lose
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
SameNow(a, b) == a.outcome = b.outcome /\ (a.outcome = "ok" =>
  /\ NearSeq(a.si, b.si, 10) /\ NearSeq(a.delta, b.delta, 10)
  /\ \A k \in 1..3 : NearSeq(a.offs[k], b.offs[k], 20))
\* Reordering the atoms changes nothing; with one silicon neither does the view.
OrderIrrelevant == [][hist'[Len(hist')] = "W" => SameNow(out, out')]_vars
ViewIrrelevant == [][(hist'[Len(hist')] = "V" /\ Cardinality({i \in 1..5 : atoms[i].z = 14}) = 1)
                     => SameNow(out, out')]_vars
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))
=============================================================================
