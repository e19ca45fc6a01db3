--------------------------------- MODULE Merge ---------------------------------
(* Merging detections.  Lengths are in 1e-4 A.                                 *)
(*   Naive   obs (a sequence of observations, each a sequence of points),      *)
(*           cut -> out: <<x, y, count>>                                       *)
(*   Clique  pts, cnt (how many detections each stands for), min -> out        *)
(*   Spread  orig: <<x, y, element>>, merged: points, start (elements before,  *)
(*           or <<>>), default, thr -> out: elements                           *)
EXTENDS Fixed, FiniteSets, TLC

MC_(name, ok) == IF ok THEN {} ELSE {name}
MergeInit == [none |-> 0]
\* Squared distance in (1e-3 A)^2 of points less than 30 A apart.
Dist2(p, q) == D2m(p, q)
Sq(x) == ((x + 5) \div 10) * ((x + 5) \div 10)
Pos(a) == <<a.sx \div a.n, a.sy \div a.n>>
Atom(p, n) == [sx |-> p[1] * n, sy |-> p[2] * n, n |-> n]
Nearest(known, p) == CHOOSE k \in DOMAIN known : \A j \in DOMAIN known : Dist2(Pos(known[k]), p) <= Dist2(Pos(known[j]), p)
Joins(known, p, cut) == known # <<>> /\ Dist2(Pos(known[Nearest(known, p)]), p) < Sq(cut)
\* One observation: every detection looks at the atoms known before it.
RECURSIVE Absorb(_, _, _, _, _)
Absorb(known, old, ps, k, cut) ==
  IF k > Len(ps) THEN known
  ELSE LET p == ps[k] IN
       Absorb(IF Joins(old, p, cut)
              THEN [known EXCEPT ![Nearest(old, p)] = [sx |-> @.sx + p[1], sy |-> @.sy + p[2], n |-> @.n + 1]]
              ELSE Append(known, Atom(p, 1)), old, ps, k + 1, cut)
RECURSIVE Naive(_, _, _, _)
Naive(known, obs, k, cut) == IF k > Len(obs) THEN known
  ELSE Naive(Absorb(known, known, obs[k], 1, cut), obs, k + 1, cut)

\* Atoms given as <<x, y, count>> are the atoms wanted, in any order.
Fits(o, a) == o[3] = a.n /\ Near(o[1], Pos(a)[1], 4) /\ Near(o[2], Pos(a)[2], 4)
SameAtoms(out, want) == /\ Len(out) = Len(want)
                        /\ \A k \in DOMAIN want : \E j \in DOMAIN out : Fits(out[j], want[k])
                        /\ \A j \in DOMAIN out : \E k \in DOMAIN want : Fits(out[j], want[k])
RECURSIVE Total(_)
Total(out) == IF out = <<>> THEN 0 ELSE Head(out)[3] + Total(Tail(out))
RECURSIVE Detections(_)
Detections(obs) == IF obs = <<>> THEN 0 ELSE Len(Head(obs)) + Detections(Tail(obs))
NaiveFails(r) ==
  IF r.raised THEN {"C24:raises"}
  ELSE MC_("C24:counts_add_up", Total(r.out) = Detections(r.obs))
       \cup MC_("C24:merged_by_proximity", SameAtoms(r.out, Naive(<<>>, r.obs, 1, r.cut)))
       \cup MC_("C24:inputs_unmodified", r.kept)

\* Points closer than min belong together.
Together(r, i, j) == Dist2(r.pts[i], r.pts[j]) <= Sq(r.min)
ClusterOf(r, i) == {j \in DOMAIN r.pts : Together(r, i, j)}
Clusters(r) == {ClusterOf(r, i) : i \in DOMAIN r.pts}
\* Separated: being together is an equivalence, and even the means of different
\* clusters are apart.
Separated(r) == \A i \in DOMAIN r.pts : \A j \in ClusterOf(r, i) : ClusterOf(r, j) = ClusterOf(r, i)
RECURSIVE SumOver(_, _, _)
SumOver(r, S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN
  (IF f = 3 THEN r.cnt[i] ELSE r.pts[i][f] * r.cnt[i]) + SumOver(r, S \ {i}, f)
ClusterAtom(r, S) == [sx |-> SumOver(r, S, 1), sy |-> SumOver(r, S, 2), n |-> SumOver(r, S, 3)]
CliqueFails(r) ==
  IF r.raised THEN {"C24:raises"}
  ELSE MC_("C24:inputs_unmodified", r.kept)
       \cup (IF ~Separated(r) THEN {}
             ELSE MC_("C24:one_atom_per_cluster", Len(r.out) = Cardinality(Clusters(r)))
                  \cup MC_("C24:counts_add_up", Total(r.out) = SumOver(r, DOMAIN r.pts, 3))
                  \cup MC_("C24:cluster_mean_and_size", \A S \in Clusters(r) : \E k \in DOMAIN r.out : Fits(r.out[k], ClusterAtom(r, S))))

Closest(r, i) == CHOOSE k \in DOMAIN r.merged : \A j \in DOMAIN r.merged : Dist2(r.orig[i], r.merged[k]) <= Dist2(r.orig[i], r.merged[j])
Givers(r, k) == {i \in DOMAIN r.orig : Closest(r, i) = k /\ Dist2(r.orig[i], r.merged[k]) < Sq(r.thr)}
SpreadFails(r) ==
  IF r.raised THEN {"C24:raises"}
  ELSE MC_("C24:inputs_unmodified", r.kept)
       \cup MC_("C24:elements_propagate", /\ Len(r.out) = Len(r.merged)
            /\ \A k \in DOMAIN r.merged : LET g == Givers(r, k) IN
                 IF g = {} THEN r.out[k] = (IF r.start = <<>> THEN r.default ELSE r.start[k])
                 ELSE \E i \in g : r.out[k] = r.orig[i][3])

MergeFails(st, r) == CASE r.e = "Naive" -> NaiveFails(r) [] r.e = "Clique" -> CliqueFails(r)
                       [] r.e = "Spread" -> SpreadFails(r) [] OTHER -> {}
MergeAfter(st, r) == st
===============================================================================
