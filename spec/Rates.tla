--------------------------------- MODULE Rates ---------------------------------
(* Rate functions of a single silicon in graphene.  Positions in 1e-4 A, sites *)
(* are known by label.  Rates are relative to the function's stated maximum,   *)
(* in 1e-5; their logarithms in 1e-4.                                          *)
(*   Scene  how, sites: <<label, x, y>> in the order of the material, si,      *)
(*          beam.  "turn", "shift", "mirror" and "shuffle" move or reorder      *)
(*          everything together, "hop" and "aim" do not                        *)
(*   Ask    fn, kind, par, succ: <<silicon's label, silicons, carbons, shift>>,*)
(*          rate, lg, total; call: what a custom predictor was given           *)
(*   Store / Load / Equal / Draw   parameters of mixtures, in 1e-6             *)
EXTENDS Fixed, FiniteSets, TLC

RC(name, ok) == IF ok THEN {} ELSE {name}
RNone == <<>>
RatesInit == [pos |-> RNone, si |-> 0, beam |-> RNone, last |-> RNone, disk |-> RNone]

RECURSIVE RNewton(_, _)
RNewton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE RNewton(n, y)
RSqrt(n) == IF n = 0 THEN 0 ELSE RNewton(n, Min2(46340, (n \div 2) + 1))
Sub2(p, q) == <<p[1] - q[1], p[2] - q[2]>>
RDot(p, q) == p[1] * q[1] + p[2] * q[2]
RCross(p, q) == p[1] * q[2] - p[2] * q[1]
ToMilli(x) == (x + 5) \div 10

RRatio6(d, w) == IF w > 20000000 THEN Ratio6(d \div 100, w \div 100) ELSE Ratio6(d, w)

\* exp(-q), q in 1e-4, result in 1e-5, to about 1e-4.
ExpInt == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1, 0>>
Horner(f) == LET s == 200000
                 e6 == s - (f * s) \div 60000
                 e5 == s - (f * e6) \div 50000
                 e4 == s - (f * e5) \div 40000
                 e3 == s - (f * e4) \div 30000
                 e2 == s - (f * e3) \div 20000
             IN s - (f * e2) \div 10000
ExpNeg(q) == IF q >= 100000 THEN 0 ELSE (Horner(q % 10000) * ExpInt[q \div 10000 + 1]) \div 20000

\* Beam relative to the point `loc` bonds along and `off` bonds left of the
\* line from the silicon to the neighbour v (an offset), along and across that
\* line, in 1e-3 A.  `bond`: the bond is taken to have its nominal length.
Nominal == 14200
Local(d, v, loc, off, bond) ==
  LET w == RSqrt(RDot(v, v))
      b == IF bond THEN Nominal ELSE w
      x == RDot(d, v) \div w - (loc * b) \div 10000
      y == RCross(v, d) \div w - (off * b) \div 10000
  IN <<ToMilli(x), ToMilli(y)>>
\* Minus the logarithm of a Gaussian relative to its peak; variances in 1e-4 A^2.
Quad(a, v1, v2) == (50 * a[1] * a[1]) \div v1 + (50 * a[2] * a[2]) \div v2
QuadTol(a, v1, v2) == 40 + (100 * Abs(a[1])) \div v1 + (100 * Abs(a[2])) \div v2

\* Three nearest of the other sites (ties either way).
NearestOk(pos, si, L) ==
  /\ Cardinality(L) = 3 /\ si \notin L /\ L \subseteq DOMAIN pos
  /\ LET far == CHOOSE m \in {D2m(pos[l], pos[si]) : l \in L} : \A l \in L : D2m(pos[l], pos[si]) <= m
     IN \A o \in DOMAIN pos \ (L \cup {si}) : D2m(pos[o], pos[si]) >= far - 4000

\* Prior: par = <<mean along, mean across (1e-4 bonds), variance along, across
\* (1e-4 bonds^2)>>: the peak and its spread are turned with the neighbour.
\* A variance in bonds^2 times 1.42^2, in A^2.
PriorVar(v) == (v * 20164) \div 10000
\* Mixture: par = components <<weight 1e-4, location 1e-4, variances 1e-4 A^2>>.
\* Peak height of a component, up to a common factor.
PeakOf(c) == LET s == RSqrt(((c[3] \div 10) * (c[4] \div 10)) * 64) IN (c[1] * 20000) \div s
Highest(par) == CHOOSE m \in {PeakOf(par[k]) : k \in DOMAIN par} : \A k \in DOMAIN par : PeakOf(par[k]) <= m
Share(par, k) == IF Len(par) = 1 THEN 10000 ELSE RRatio6(PeakOf(par[k]), Highest(par)) \div 100
RECURSIVE MixSum(_, _, _, _)
MixSum(par, d, v, k) ==
  IF k = 0 THEN 0
  ELSE LET c == par[k] IN
       (Share(par, k) * ExpNeg(Quad(Local(d, v, c[2], 0, FALSE), c[3], c[4]))) \div 10000 + MixSum(par, d, v, k - 1)
RECURSIVE MixTol(_, _, _, _)
MixTol(par, d, v, k) ==
  IF k = 0 THEN 60
  ELSE LET c == par[k] a == Local(d, v, c[2], 0, FALSE) e == ExpNeg(Quad(a, c[3], c[4])) IN
       20 + (e * QuadTol(a, c[3], c[4])) \div 10000 + e \div 200 + MixTol(par, d, v, k - 1)

Simple(d, v) == \* 1 / (1 + (4 x / bond)^2), x the distance to the neighbour
  LET m == D2m(d, v) IN RRatio6(2016400, 16 * m + 2016400) \div 10
\* The logarithm where a single Gaussian says what it is; otherwise the rate.
RightLog(got, want, tol) == IF want > 800000 THEN got <= -750000 ELSE Near(got, -want, tol)
RightRate(r, k, d, v) ==
  CASE r.kind = "simple" -> LET w == Simple(d, v) IN Near(r.rate[k], w, 4 + w \div 300)
    [] r.kind = "prior" -> LET s1 == PriorVar(r.par[1][3]) s2 == PriorVar(r.par[1][4]) a == Local(d, v, r.par[1][1], r.par[1][2], TRUE) IN
                           LET w == Quad(a, s1, s2) IN
                           RightLog(r.lg[k], w, QuadTol(a, s1, s2) + w \div Min2(s1, s2))
    [] r.kind = "mixture" ->
         /\ Near(r.rate[k], MixSum(r.par, d, v, Len(r.par)), MixTol(r.par, d, v, Len(r.par)))
         /\ Len(r.par) = 1 => LET c == r.par[1] a == Local(d, v, c[2], 0, FALSE) IN
                              RightLog(r.lg[k], Quad(a, c[3], c[4]), QuadTol(a, c[3], c[4]))
    [] r.kind = "custom" -> r.rate[k] = 1000 * (1 + (r.succ[k][1] % 50))
    [] OTHER -> TRUE
OneSided(kind, par) == kind = "prior" /\ par[1][2] # 0
Labels(r) == {r.succ[k][1] : k \in DOMAIN r.succ}
Known(st, r) == r.fn \in DOMAIN st.last
SameAsBefore(st, r) == LET o == st.last[r.fn] IN
  \A k \in DOMAIN r.succ : r.succ[k][1] \in DOMAIN o =>
     LET p == o[r.succ[k][1]] IN
     /\ Near(r.rate[k], p[1], 3 + p[1] \div 2000)
     /\ p[2] > -300000 => Near(r.lg[k], p[2], 20 + Abs(p[2]) \div 2000)
RECURSIVE SumRates(_, _)
SumRates(r, k) == IF k = 0 THEN 0 ELSE r.rate[k] + SumRates(r, k - 1)

AskFails(st, r) ==
  IF r.raised THEN {"C26:raises"} ELSE
  LET n == Cardinality(DOMAIN st.pos) IN
  RC("C26:three_nearest_neighbours", Len(r.succ) = 3 /\ NearestOk(st.pos, st.si, Labels(r)))
  \cup RC("C26:only_the_silicon_moves", \A k \in DOMAIN r.succ : r.succ[k][2] = 1 /\ r.succ[k][3] = n - 1 /\ r.succ[k][4] = 0)
  \cup RC("C26:input_unchanged", r.kept)
  \cup RC("C26:finite_and_at_most_the_maximum", \A k \in DOMAIN r.rate : r.finite /\ 0 <= r.rate[k] /\ (r.kind # "mixture" \/ Len(r.par) = 1 => r.rate[k] <= 100020))
  \cup RC("C26:total", Near(r.total, SumRates(r, Len(r.rate)), 3 + r.total \div 5000))
  \cup RC("C26:rate_to_each_neighbour",
          /\ Len(r.rate) = Len(r.succ)
          /\ \A k \in DOMAIN r.succ : r.succ[k][1] \in DOMAIN st.pos /\ r.succ[k][1] # st.si =>
               RightRate(r, k, Sub2(st.beam, st.pos[st.si]), Sub2(st.pos[r.succ[k][1]], st.pos[st.si])))
  \cup RC("C26:depends_on_geometry_only", Known(st, r) => SameAsBefore(st, r))
  \cup RC("C26:predictor_is_given_the_scene",
          r.kind = "custom" => /\ NearSeq(r.call.beam, st.beam, 2) /\ NearSeq(r.call.si, st.pos[st.si], 2)
                               /\ Len(r.call.n) = 3 /\ {r.call.n[k] : k \in DOMAIN r.call.n} = Labels(r))
AskAfter(st, r) ==
  IF r.raised THEN st
  ELSE LET d == {<<r.succ[k][1], <<r.rate[k], r.lg[k]>>>> : k \in DOMAIN r.succ}
           f == [l \in Labels(r) |-> (CHOOSE e \in d : e[1] = l)[2]]
       IN [st EXCEPT !.last = (r.fn :> f) @@ @]

\* Parameters: max, weights, locations, variances.
FlatNear(a, b, t) == NearSeq(a, b, t)
SameShape(p, q) == Len(p.w) = Len(q.w) /\ Len(p.loc) = Len(q.loc) /\ Len(p.v) = Len(q.v)
Within(p, q, t) == /\ SameShape(p, q) /\ Near(p.mx, q.mx, t) /\ FlatNear(p.w, q.w, t) /\ FlatNear(p.loc, q.loc, t) /\ FlatNear(p.v, q.v, t)
FileFails(st, r) ==
  CASE r.e = "Store" -> RC("C26:save", ~r.raised /\ r.kept)
    [] r.e = "Load" ->
         IF r.dir \notin DOMAIN st.disk THEN RC("C26:load_what_was_never_saved", r.raised)
         ELSE RC("C26:load_gives_what_was_saved", ~r.raised /\ Within(r.p, st.disk[r.dir], 1) /\ r.same)
    [] r.e = "Equal" -> RC("C26:equality", /\ Within(r.a, r.b, 500) => r.eq
                                           /\ ~Within(r.a, r.b, 2000) => ~r.eq)
    [] r.e = "Draw" ->
         LET n == Len(r.p.w) IN
         RC("C26:drawn_mixtures", /\ n >= 1 /\ Len(r.p.loc) = n /\ Len(r.p.v) = 2 * n
                                  /\ 10000 <= r.p.mx /\ r.p.mx <= 1000000
                                  /\ Near(SumSeq(r.p.w), 1000000, 20)
                                  /\ \A k \in 1..n : r.p.w[k] >= 0 /\ -2000000 <= r.p.loc[k] /\ r.p.loc[k] <= 3000000
                                  /\ \A k \in 1..(2 * n) : 100000 <= r.p.v[k] /\ r.p.v[k] <= 5000000
                                  /\ r.again)
    [] OTHER -> {}

RatesFails(st, r) == CASE r.e = "Ask" -> AskFails(st, r) [] OTHER -> FileFails(st, r)
Keeps(how) == how \in {"turn", "shift", "mirror", "shuffle"}
SceneAfter(st, r) ==
  LET L == {r.sites[k][1] : k \in DOMAIN r.sites}
      S == {r.sites[k] : k \in DOMAIN r.sites}
  IN [st EXCEPT !.pos = [l \in L |-> LET s == CHOOSE e \in S : e[1] = l IN <<s[2], s[3]>>],
                !.si = r.si, !.beam = r.beam,
                !.last = IF ~Keeps(r.how) THEN RNone
                         ELSE [f \in {f \in DOMAIN @ : ~(r.how = "mirror" /\ f \in {r.onesided[k] : k \in DOMAIN r.onesided})} |-> @[f]]]
RatesAfter(st, r) ==
  CASE r.e = "New" -> RatesInit
    [] r.e = "Scene" -> SceneAfter(st, r)
    [] r.e = "Ask" -> AskAfter(st, r)
    [] r.e = "Store" -> IF r.raised THEN st ELSE [st EXCEPT !.disk = (r.dir :> r.p) @@ @]
    [] OTHER -> st
===============================================================================
