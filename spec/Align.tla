--------------------------------- MODULE Align ---------------------------------
(* Alignment.  A sheet of sites is observed again and again, each time shifted *)
(* by an offset (1e-4 A) and with some of its sites missing.                   *)
(*   Make    i, keep, clip (largest shift), joined (history keeps the merged)  *)
(*   Obs     i, off, sites, z -> out: <<site, dx, dy, element>> (dx, dy: from  *)
(*           the site's own position), shift, kept, was / now: digests of all  *)
(*           grids handed over so far, before and after                        *)
(*   Lost    i -> told, shift, out: an image aligner sees a view without atoms   *)
(*           and its model tells a shift                                       *)
(*   Reset   i          Move  i, by (apply_shift)                              *)
(*   Latest  off, init, clip -> shift, was / now                               *)
(*   Classes sites' true sublattices and the classes found                     *)
(*   Scale   s1000 -> got1000                                                  *)
(*   Traj    a recorded trajectory is aligned by an aligner that reports given *)
(*           shifts                                                            *)
EXTENDS Fixed, FiniteSets, TLC

AC(name, ok) == IF ok THEN {} ELSE {name}
AlignInit == [al |-> <<>>]
SetOf(s) == {s[k] : k \in DOMAIN s}
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg2(a) == <<-a[1], -a[2]>>
Near2(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)

\* The largest integer whose square is at most n.
RECURSIVE RootBit(_, _, _)
RootBit(n, r, b) == IF b = 0 THEN r
                    ELSE RootBit(n, IF (r + b) * (r + b) <= n THEN r + b ELSE r, b \div 2)
Root(n) == RootBit(n, 0, 32768)
Norm2(a) == Root((a[1] * a[1]) + (a[2] * a[2]))     \* below 4 A
\* No shift is longer than clip.
Clipped(a, clip) == LET n == Norm2(a) IN
  IF n <= clip THEN a ELSE <<(a[1] * clip) \div n, (a[2] * clip) \div n>>

\* A past observation, in the aligner's frame: which sites, displaced by what.
Entry(sites, at) == [sites |-> sites, at |-> at]
Cut(h, n) == IF Len(h) <= n THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))
RECURSIVE SumAt(_, _, _)
SumAt(h, s, c) == IF h = <<>> THEN <<0, 0>>
  ELSE LET r == SumAt(Tail(h), s, c) IN IF s \in Head(h).sites THEN Add2(Head(h).at, r) ELSE r
With(h, s) == Cardinality({k \in DOMAIN h : s \in h[k].sites})
MeanAt(h, s) == LET t == SumAt(h, s, 0) n == With(h, s) IN <<t[1] \div n, t[2] \div n>>
AllSites(h) == UNION {h[k].sites : k \in DOMAIN h}

Applied(c, r) == IF c.hist = <<>> THEN <<0, 0>>
                 ELSE Clipped(Sub2(c.hist[Len(c.hist)].at, r.off), c.clip)
NewEntry(c, r) == Entry(SetOf(r.sites), Add2(r.off, Applied(c, r)))
Merged(c, r) == Append(c.hist, NewEntry(c, r))
ElementOf(r, s) == IF s \in SetOf(r.sites) THEN r.z[CHOOSE k \in DOMAIN r.sites : r.sites[k] = s] ELSE 6

TolShift == 200
TolAtom == 600
ObsFails(st, r) ==
  LET c == st.al[r.i] IN
  IF r.raised THEN {"C21:raises"}
  ELSE LET m == Merged(c, r) all == AllSites(m) IN
       AC("C21:reported_shift", Near2(r.shift, Neg2(Applied(c, r)), IF c.hist = <<>> THEN 0 ELSE TolShift))
       \cup AC("C21:atoms_of_recent_views", /\ Len(r.out) = Cardinality(all)
                                            /\ {r.out[k][1] : k \in DOMAIN r.out} = all)
       \cup AC("C21:first_frame", \A k \in DOMAIN r.out : r.out[k][1] \in all =>
                 LET w == MeanAt(m, r.out[k][1]) IN Near2(<<r.out[k][2], r.out[k][3]>>, w, TolAtom))
       \cup AC("C21:elements", \A k \in DOMAIN r.out : r.out[k][4] = ElementOf(r, r.out[k][1]))
       \cup AC("C21:history_bounded", r.kept = Min2(Len(c.hist) + 1, c.keep))
       \cup AC("C21:inputs_unmodified", r.was = r.now)
\* What can't be aligned is passed on as the model told it.
LostFails(r) ==
  IF r.raised THEN {"C21:raises"}
  ELSE AC("C21:shift_of_a_lost_view", Near2(r.shift, r.told, 2))
       \cup AC("C21:atoms_of_a_lost_view", r.out = <<>>)
ObsAfter(c, r) ==
  LET e == NewEntry(c, r)
      e2 == IF c.joined /\ c.hist # <<>> THEN Entry(AllSites(Merged(c, r)), e.at) ELSE e
  IN [c EXCEPT !.hist = Cut(Append(@, e2), c.keep)]

\* One alignment; init is where the search begins.
LatestFails(r) ==
  IF r.raised THEN {"C21:raises"}
  ELSE AC("C21:latest_shift", Near2(r.shift, Clipped(Neg2(r.off), r.clip), TolShift))
       \cup AC("C21:inputs_unmodified", r.was = r.now)

ClassesFails(r) ==
  IF r.raised THEN {"C21:raises"}
  ELSE AC("C21:sublattices", \/ \A k \in DOMAIN r.sub : r.got[k] = r.sub[k]
                             \/ \A k \in DOMAIN r.sub : r.got[k] = 1 - r.sub[k])
ScaleFails(r) == AC("C21:scale", Near(r.got1000, r.s1000, 2 + r.s1000 \div 100))

\* Passes over a trajectory: the step size grows linearly to 1.
Step(r, p) == (r.base100 * r.passes) + ((100 - r.base100) * p)      \* over 100 * passes
Part(r, p, x) == IF x >= 0 THEN ((x * Step(r, p)) + 50 * r.passes) \div (100 * r.passes)
                 ELSE -(((-x * Step(r, p)) + 50 * r.passes) \div (100 * r.passes))
RECURSIVE Total(_, _, _)
Total(r, p, k) == IF k = 0 THEN <<0, 0>>
                  ELSE Add2(Total(r, p, k - 1), <<Part(r, p, r.shifts[p][k][1]), Part(r, p, r.shifts[p][k][2])>>)
RECURSIVE FovAt(_, _, _)
FovAt(r, p, k) == IF p = 0 THEN r.fovs[k]       \* <<x0, y0, x1, y1>>
  ELSE LET f == FovAt(r, p - 1, k) t == Total(r, p, k) IN <<f[1] - t[1], f[2] - t[2], f[3] - t[1], f[4] - t[2]>>
Asked(r, p, k) == LET f == FovAt(r, p - 1, k) t == Total(r, p, k - 1) IN <<f[1] - t[1], f[2] - t[2], f[3] - t[1], f[4] - t[2]>>
TolFov == 8
TrajFails(r) ==
  IF r.raised THEN {"C21:raises"}
  ELSE IF Len(r.out) # Len(r.fovs) THEN {"C21:every_observation"}
  ELSE AC("C21:accumulated_shift", \A k \in DOMAIN r.out : NearSeq(r.out[k], FovAt(r, r.passes, k), TolFov))
       \cup AC("C21:aligner_sees_shifted", \A q \in DOMAIN r.asked :
                 NearSeq(r.asked[q][3], Asked(r, r.asked[q][1], r.asked[q][2]), TolFov))
       \cup AC("C21:each_pass_restarts", r.resets = [p \in 1..r.passes |-> r.hist])
       \cup AC("C21:rest_untouched", r.was = r.now)
       \cup AC("C21:grids", r.grids = IF r.relabel THEN r.found ELSE r.given)

AlignFails(st, r) ==
  CASE r.e = "Obs" -> IF r.i \in DOMAIN st.al THEN ObsFails(st, r) ELSE {}
    [] r.e = "Lost" -> LostFails(r)
    [] r.e = "Latest" -> LatestFails(r)
    [] r.e = "Classes" -> ClassesFails(r)
    [] r.e = "Scale" -> ScaleFails(r)
    [] r.e = "Traj" -> TrajFails(r)
    [] OTHER -> {}
Moved(h, by) == [k \in DOMAIN h |-> [h[k] EXCEPT !.at = Add2(@, by)]]
AlignAfter(st, r) ==
  CASE r.e = "New" -> AlignInit
    [] r.e = "Make" -> [al |-> Append(st.al, [keep |-> r.keep, clip |-> r.clip, joined |-> r.joined, hist |-> <<>>])]
    [] r.e \in {"Reset", "Lost"} -> [st EXCEPT !.al[r.i].hist = <<>>]
    [] r.e = "Move" -> [st EXCEPT !.al[r.i].hist = Moved(@, r.by)]
    [] r.e = "Obs" -> IF r.i \in DOMAIN st.al /\ ~r.raised THEN [st EXCEPT !.al[r.i] = ObsAfter(@, r)] ELSE st
    [] OTHER -> st
===============================================================================
