-------------------------------- MODULE RatesMC --------------------------------
(* The silicon with its three neighbours (and the six next to them) in twelve  *)
(* orientations and both sublattices.  Priors and mixtures are evaluated as    *)
(* the code does, in the frame of the neighbour, from tables of cosines (beam  *)
(* turned by minus the neighbour's angle); Rates must accept the result, and   *)
(* must not accept a peak turned the other way, successors with the rates of   *)
(* others, or a fourth neighbour.  Turning or mirroring the beam around the    *)
(* silicon by a symmetry of the lattice permutes the rates.                    *)
EXTENDS Rates, Json
CONSTANTS MaxOps, Beams, Generate
VARIABLES theta, ord, beam, kind, n, h, res
vars == <<theta, ord, beam, kind, n, h, res>>
Cos == <<10000, 8660, 5000, 0, -5000, -8660, -10000, -8660, -5000, 0, 5000, 8660>>
Co(k) == Cos[1 + (k % 12)]
Si(k) == Cos[1 + ((k + 9) % 12)]
Mul4(x, c) == (x * c + 5000) \div 10000
Polar(r, k) == <<Mul4(r, Co(k)), Mul4(r, Si(k))>>
Rot(v, k) == <<Mul4(v[1], Co(k)) - Mul4(v[2], Si(k)), Mul4(v[1], Si(k)) + Mul4(v[2], Co(k))>>
Origin == <<31000, -17000>>
Add2(p, q) == <<p[1] + q[1], p[2] + q[2]>>
\* Labels: 0 the silicon, 1..3 its neighbours, 4..9 the next ones.
Site(l, t) == Add2(Origin, IF l = 0 THEN <<0, 0>> ELSE IF l <= 3 THEN Polar(14200, t + 4 * (l - 1)) ELSE Polar(24595, t + 2 * (l - 4) + 1))
Beam(b, t) == Add2(Origin, Rot(b, t))
Pars == [prior |-> <<<<8500, 0, 1000, 1000>>>>, offaxis |-> <<<<8500, 3000, 1000, 1000>>>>,
         oblong |-> <<<<8500, 0, 3000, 700>>>>, oblongoff |-> <<<<6000, -3000, 600, 4000>>>>, single |-> <<<<10000, 7000, 4000, 12000>>>>,
         mixture |-> <<<<6000, 10000, 5000, 9000>>, <<4000, 0, 20000, 3000>>>>, simple |-> <<>>]
Kind(k) == IF k \in {"prior", "offaxis", "oblong", "oblongoff"} THEN "prior" ELSE IF k = "simple" THEN "simple" ELSE "mixture"
\* The implementations.
ImplPrior(par, b, ang) == LET u == Rot(b, (12 - ang) % 12)
                              d == <<ToMilli(u[1] - (par[1] * 14200) \div 10000), ToMilli(u[2] - (par[2] * 14200) \div 10000)>>
                          IN Quad(d, PriorVar(par[3]), PriorVar(par[4]))
ImplMix(par, b, ang) == LET f(c) == LET u == Rot(b, (12 - ang) % 12) IN
                                    Quad(<<ToMilli(u[1] - (c[2] * 14200) \div 10000), ToMilli(u[2])>>, c[3], c[4])
                        IN [k \in DOMAIN par |-> f(par[k])]
RECURSIVE MixTotal(_, _, _)
MixTotal(par, q, k) == IF k = 0 THEN 0 ELSE (Share(par, k) * ExpNeg(q[k])) \div 10000 + MixTotal(par, q, k - 1)
Angle(l, t) == (t + 4 * (l - 1)) % 12
\* <<rate, logarithm>> towards neighbour l
Rated(k, b, t, l, wrong) ==
  LET ang == IF wrong THEN (12 - Angle(l, t)) % 12 ELSE Angle(l, t) rb == Rot(b, t) IN
  CASE Kind(k) = "prior" -> LET q == ImplPrior(Pars[k][1], rb, ang) IN <<ExpNeg(q), -q>>
    [] Kind(k) = "simple" -> LET m == Polar(14200, ang) IN <<RRatio6(2016400, 16 * D2m(rb, m) + 2016400) \div 10, 0>>
    [] OTHER -> LET q == ImplMix(Pars[k], rb, ang) IN <<MixTotal(Pars[k], q, Len(q)), IF Len(q) = 1 THEN -q[1] ELSE 0>>
Perms == {q \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => q[i] # q[j]}
Rec(k, b, t, o, wrong, off) ==
  [e |-> "Ask", fn |-> k, kind |-> Kind(k), par |-> Pars[k], raised |-> FALSE, kept |-> TRUE, finite |-> TRUE,
   succ |-> [i \in 1..3 |-> <<IF off = 2 /\ i = 1 THEN 4 ELSE o[i], 1, 9, 0>>],
   rate |-> [i \in 1..3 |-> Rated(k, b, t, o[IF off = 1 THEN (i % 3) + 1 ELSE i], wrong)[1]],
   lg |-> [i \in 1..3 |-> Rated(k, b, t, o[IF off = 1 THEN (i % 3) + 1 ELSE i], wrong)[2]],
   total |-> SumSeq([i \in 1..3 |-> Rated(k, b, t, o[i], wrong)[1]])]
Scene(b, t) == [RatesInit EXCEPT !.pos = [l \in 0..9 |-> Site(l, t)], !.si = 0, !.beam = Beam(b, t)]

Init == /\ theta \in (IF Generate THEN {0} ELSE 0..11) /\ ord = <<1, 2, 3>>
        /\ beam \in (IF Generate THEN {<<0, 0>>} ELSE Beams \X Beams)
        /\ kind \in (IF Generate THEN {"prior"} ELSE DOMAIN Pars)
        /\ n = 0 /\ h = <<>> /\ res = RNone
Shuffle == /\ n < MaxOps /\ ~Generate /\ n' = n + 1 /\ ord' \in Perms /\ res' = Rec(kind, beam, theta, ord', FALSE, 0)
           /\ UNCHANGED <<theta, beam, kind, h>>
Turn == /\ n < MaxOps /\ ~Generate /\ n' = n + 1 /\ \E d \in {1, 3, 4} : theta' = (theta + d) % 12
        /\ res' = Rec(kind, beam, theta', ord, FALSE, 0) /\ UNCHANGED <<beam, kind, h, ord>>
Ops == {"turn", "shift", "mirror", "shuffle", "hop", "aim", "peak", "save", "load"}
Do == /\ Generate /\ n < MaxOps /\ n' = n + 1 /\ \E o \in Ops : h' = Append(h, o) /\ UNCHANGED <<theta, ord, beam, kind, res>>
Next == Shuffle \/ Turn \/ Do
Spec == Init /\ [][Next]_vars
Accepted == res # RNone => AskFails(Scene(beam, theta), res) = {}
\* Remembered rates are confirmed in every order and orientation.
Again == res # RNone => LET st == AskAfter(Scene(beam, theta), res) IN
  /\ SameAsBefore(st, Rec(kind, beam, theta, <<3, 1, 2>>, FALSE, 0))
  /\ LET q == Rec(kind, beam, (theta + 3) % 12, ord, FALSE, 0) IN
     \A k \in 1..3 : LET p == st.last[q.fn][q.succ[k][1]] IN Near(q.rate[k], p[1], 60 + p[1] \div 100)
\* A third of a turn of the beam moves every rate to the next neighbour.
Close(a, b) == Near(a, b, 80 + a \div 80)
Threefold == res # RNone => LET b == Rot(beam, 4) IN
  \A l \in 1..3 : Close(Rated(kind, b, theta, (l % 3) + 1, FALSE)[1], Rated(kind, beam, theta, l, FALSE)[1])
Mirrors == res # RNone /\ kind \notin {"offaxis", "oblongoff"} => LET b == <<beam[1], -beam[2]>> IN
  /\ Close(Rated(kind, b, theta, 1, FALSE)[1], Rated(kind, beam, theta, 1, FALSE)[1])
  /\ Close(Rated(kind, b, theta, 2, FALSE)[1], Rated(kind, beam, theta, 3, FALSE)[1])
\* Where the angle matters a peak turned the wrong way is refused, and so are
\* exchanged rates and successors.
Differ(a, b) == Abs(a - b) > 1500
Selective == res # RNone =>
  LET st == Scene(beam, theta) IN
  /\ (\E l \in 1..3 : Differ(Rated(kind, beam, theta, l, TRUE)[1], Rated(kind, beam, theta, l, FALSE)[1]))
       => AskFails(st, Rec(kind, beam, theta, ord, TRUE, 0)) # {}
  /\ (\E l, m \in 1..3 : Differ(Rated(kind, beam, theta, l, FALSE)[1], Rated(kind, beam, theta, m, FALSE)[1]))
       => AskFails(st, Rec(kind, beam, theta, ord, FALSE, 1)) # {}
  /\ "C26:three_nearest_neighbours" \in AskFails(st, Rec(kind, beam, theta, ord, FALSE, 2))
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
