------------------------------- MODULE LabelsMC -------------------------------
(* A silicon on a honeycomb (rational approximation of the sheet) with the    *)
(* beam somewhere around it: the implementation's labelling -- rotate so that *)
(* the neighbour nearest the beam points right, sort by angle, look the       *)
(* successor up in that order -- modelled with the exact order of directions, *)
(* compared with the acceptor's cross products.  Batches are printed.         *)
EXTENDS Labels, TLC, Json
CONSTANTS Depth, Kinds, Generate
VARIABLES hist, fails, pc
vars == <<hist, fails, pc>>

\* 1.42 A bonds at angles 0, 120, 240 (or 180, 300, 60): 1e-3 A.
Nb(sub) == IF sub = 1 THEN <<<<1420, 0>>, <<-710, 1230>>, <<-710, -1230>>>>
           ELSE <<<<-1420, 0>>, <<710, -1230>>, <<710, 1230>>>>
Outer(sub) == [k \in 1..6 |-> LET i == ((k - 1) % 3) + 1 j == IF k <= 3 THEN (i % 3) + 1 ELSE ((i + 1) % 3) + 1
               IN <<Nb(sub)[i][1] - Nb(sub)[j][1], Nb(sub)[i][2] - Nb(sub)[j][2]>>]
Fov(dx) == <<-64000 + dx, -64000, 64000 + dx, 64000>>
Mic(f, p) == <<Ratio6(p[1] * 10 - f[1], f[3] - f[1]), Ratio6(p[2] * 10 - f[2], f[4] - f[2])>>
Scene(f, sub, si, swap) ==
  LET o == Outer(sub) n == Nb(sub)
      site == <<n[1], <<0, 0>>, n[3], n[2]>> \o o
      perm == [i \in 1..10 |-> IF swap THEN site[11 - i] ELSE site[i]]
  IN [i \in 1..10 |-> [u |-> Mic(f, perm[i]), z |-> IF perm[i] = si THEN 14 ELSE 6]]
\* Beam offsets at which a unique neighbour is nearest.
Beams == {<<900, 100>>, <<300, 700>>, <<-300, 650>>, <<-1300, 200>>, <<-800, -900>>, <<200, -600>>, <<2500, -800>>}
Init == /\ hist = <<>> /\ fails = {} /\ pc = <<>>

\* The implementation: order of the neighbours by angle from the nearest one.
ImplOrder(n, b) ==
  LET d(i) == LET v == Sub(n[i], b) IN Dot(v, v)
      first == CHOOSE i \in 1..3 : \A j \in 1..3 : d(i) <= d(j)
      next == CHOOSE i \in 1..3 \ {first} : Cross(n[first], n[i]) > 0
  IN <<first, next, 6 - first - next>>
ImplPos(n, b) == LET f == n[ImplOrder(n, b)[1]] len == ISqrt(Dot(f, f))
                 IN <<Dot(f, b) \div len, Cross(f, b) \div len>>

Check(sub, b, k, swap, dx) ==
  /\ Generate = FALSE /\ pc = <<>> /\ pc' = <<sub, b, k, swap, dx>> /\ UNCHANGED hist
  /\ LET n == Nb(sub)
         si1 == IF k = 0 THEN <<0, 0>> ELSE n[k]
         f0 == Fov(0) f1 == Fov(dx)
         r == [fov0 |-> f0, fov1 |-> f1, before |-> Scene(f0, sub, <<0, 0>>, swap), after |-> Scene(f1, sub, si1, ~swap),
               cutoff |-> 710, ctrls |-> <<[p |-> Mic(f0, b), dwell |-> 1, na |-> <<>>, kv |-> <<>>]>>]
         o == ImplOrder(n, b)
         pt == [state |-> IF k = 0 THEN 0 ELSE CHOOSE j \in 1..3 : o[j] = k, pos |-> ImplPos(n, b),
                dwell |-> 1, na |-> <<>>, kv |-> <<>>]
     IN fails' = BatchFails([raised |-> FALSE, kept |-> TRUE, ts |-> <<r>>, out |-> <<pt>>])
CheckAll == \E sub \in {1, 2}, b \in Beams, k \in 0..3, swap \in BOOLEAN, dx \in {0, 16000} : Check(sub, b, k, swap, dx)

\* Batches of recorded transitions by kind, for the driver.
Add(k) == /\ Generate /\ Len(hist) < Depth /\ hist' = Append(hist, k) /\ UNCHANGED <<fails, pc>>
Next == CheckAll \/ \E k \in Kinds : Add(k)
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))
===============================================================================
