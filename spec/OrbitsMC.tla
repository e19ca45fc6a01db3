------------------------------- MODULE OrbitsMC -------------------------------
(* The implementation's augmentation -- mirror the data set, then roll rates, *)
(* shift states and rotate positions -- on lattice positions.  A position     *)
(* <<a, b>> is a*e0 + b*e1 where e0 points right and e1 to 120 degrees, so    *)
(* that the symmetries are exact.  TLC checks that a rate law that depends    *)
(* only on distances to the neighbours is preserved (equivariance: position,  *)
(* rates and state really turn together) and that the acceptor accepts it.    *)
EXTENDS Orbits, TLC, Json
CONSTANTS R, Depth, Generate
VARIABLES data, out, fails, hist
vars == <<data, out, fails, hist>>

N == 3
Nbrs == <<<<1, 0>>, <<0, 1>>, <<-1, -1>>>>
Turn(p) == <<-p[2], p[1] - p[2]>>
Flip(p) == <<p[1] - p[2], -p[2]>>
D2(p, q) == LET x == p[1] - q[1] y == p[2] - q[2] IN x * x - x * y + y * y
Law(p) == [k \in 1..3 |-> 600000 \div (D2(p, Nbrs[k]) + 2)]
Cart(p) == <<p[1] * 10000 - p[2] * 5000, p[2] * 8660>>

\* The implementation.
Roll(s) == [k \in 1..3 |-> s[((k + 1) % 3) + 1]]
Shift(st) == IF st = 0 THEN 0 ELSE (st % 3) + 1
Swap(s) == <<s[1], s[3], s[2]>>
SwapState(st) == IF st = 0 THEN 0 ELSE <<1, 3, 2>>[st]
Step(x) == [x EXCEPT !.p = Turn(@), !.rates = Roll(@), !.state = Shift(@)]
Mirror(x) == [x EXCEPT !.p = Flip(@), !.rates = Swap(@), !.state = SwapState(@)]
Rots(x) == <<x, Step(x), Step(Step(x))>>
RECURSIVE FlatMap(_)
FlatMap(s) == IF s = <<>> THEN <<>> ELSE Rots(Head(s)) \o FlatMap(Tail(s))
Aug(s, reflect) == FlatMap(s \o (IF reflect THEN [i \in DOMAIN s |-> Mirror(s[i])] ELSE <<>>))
Log(x) == [pos |-> Cart(x.p), rates |-> x.rates, state |-> x.state, dt |-> x.dt, ctx |-> <<x.dt>>]
LogAll(s) == [i \in DOMAIN s |-> Log(s[i])]

\* Positions at which the three rates differ (orbits of full size).
Generic == {p \in {<<a, b>> : a, b \in -R..R} :
             Cardinality({Law(p)[k] : k \in 1..3}) = 3}
Init == data = <<>> /\ out = <<>> /\ fails = {} /\ hist = <<>>
Take(p, st) == /\ ~Generate /\ Len(data) < Depth /\ out = <<>>
               /\ data' = Append(data, [p |-> p, rates |-> Law(p), state |-> st, dt |-> Len(data) + 1])
               /\ UNCHANGED <<out, fails, hist>>
Augment(reflect) ==
  /\ ~Generate /\ out = <<>> /\ data # <<>> /\ out' = Aug(data, reflect)
  /\ fails' = AugmentFails([raised |-> FALSE, kept |-> TRUE, n |-> 3, reflect |-> reflect, in |-> LogAll(data),
                            out |-> LogAll(Aug(data, reflect))])
  /\ UNCHANGED <<data, hist>>
Pick(k) == /\ Generate /\ Len(hist) < Depth /\ hist' = Append(hist, k) /\ UNCHANGED <<data, out, fails>>
Kinds == {"axis", "generic", "far"}
Next == \/ \E p \in Generic, st \in 0..3 : Take(p, st)
        \/ \E b \in BOOLEAN : Augment(b)
        \/ \E k \in Kinds, st \in 0..3 : Pick(k \o ToString(st))
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
Equivariant == \A i \in DOMAIN out : out[i].rates = Law(out[i].p)
\* The successor's distance from the beam is the same for all orbit members.
SameGeometry == \A i \in DOMAIN out : \A j \in DOMAIN data :
  (out[i].dt = data[j].dt /\ data[j].state # 0) =>
    D2(out[i].p, Nbrs[out[i].state]) = D2(data[j].p, Nbrs[data[j].state])
OrbitSize == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))
===============================================================================
