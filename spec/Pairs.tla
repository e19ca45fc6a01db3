--------------------------------- MODULE Pairs ---------------------------------
(* Transitions are the adjacent pairs of observations of each trajectory.     *)
(* Parts of observations are identities (integers; 0 = absent):               *)
(*   observation [g, f, c, i, l]: grid, field of view, controls, image, label *)
EXTENDS Naturals, Sequences, FiniteSets

XC(name, ok) == IF ok THEN {} ELSE {name}
PairsInit == [none |-> 0]

Pair(a, b, prev) == [g0 |-> a.g, g1 |-> b.g, f0 |-> a.f, f1 |-> b.f, i0 |-> a.i, i1 |-> b.i,
                     l0 |-> a.l, l1 |-> b.l, c |-> IF prev THEN b.c ELSE a.c]
OfTraj(t, prev) == [k \in 1..(IF Len(t) = 0 THEN 0 ELSE Len(t) - 1) |-> Pair(t[k], t[k + 1], prev)]
RECURSIVE Expected(_, _)
Expected(ts, prev) == IF ts = <<>> THEN <<>> ELSE OfTraj(Head(ts), prev) \o Expected(Tail(ts), prev)

PairFields == [grid |-> {"g0", "g1"}, field_of_view |-> {"f0", "f1"}, image |-> {"i0", "i1"},
               label_image |-> {"l0", "l1"}, controls |-> {"c"}]
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Flat(Tail(ts))

ExtractFails(r) ==
  IF r.raised THEN {"C15:raises"}
  ELSE LET want == Expected(r.trajs, r.prev) IN
       XC("C15:number_of_transitions", Len(r.out) = Len(want))
       \cup (IF Len(r.out) # Len(want) THEN {}
             ELSE UNION {XC("C15:" \o p, \A i \in DOMAIN want : \A f \in PairFields[p] : r.out[i][f] = want[i][f])
                         : p \in DOMAIN PairFields})
       \cup XC("C15:input_unchanged", r.kept)

\* Trajectories loaded from one file, several files in the order given, or a
\* directory (in any order of its files).
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
LoadFails(r) ==
  IF r.raised THEN {"C15:loading"}
  ELSE IF r.how = "dir"
  THEN XC("C15:loading", \E p \in Perms(Len(r.files)) : r.out = Flat([k \in DOMAIN r.files |-> r.files[p[k]]]))
  ELSE XC("C15:loading", r.out = Flat(r.files))

PairsFails(st, r) == CASE r.e = "Extract" -> ExtractFails(r) [] r.e = "Load" -> LoadFails(r) [] OTHER -> {}
PairsAfter(st, r) == st
===============================================================================
