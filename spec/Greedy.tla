-------------------------------- MODULE Greedy --------------------------------
(* The agents that need no training.  Offsets in 1e-4 A.                      *)
(*   Greedy  n: the three neighbour offsets, g: the goal offset, p: the       *)
(*           optimal offset plus the fixed one for a neighbour at positive x, *)
(*           act: the action                                                  *)
(*   Find    pts: what the transition function was asked, <<x, y, value>>;    *)
(*           low, high, res: the square searched; best: the optimum used      *)
(*   Noise   counts of noisy actions minus noiseless ones, in the frame of    *)
(*           the neighbour, by quartile (x, y) and by quadrant                *)
(*   Random  counts of uniform actions by quartile of each component          *)
EXTENDS Fixed, FiniteSets

GC(name, ok) == IF ok THEN {} ELSE {name}
GreedyInit == [none |-> 0]

RECURSIVE GNewton(_, _)
GNewton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE GNewton(n, y)
GSqrt(n) == IF n = 0 THEN 0 ELSE GNewton(n, IF n > 2000000000 THEN 46340 ELSE Min2(46340, (n \div 2) + 1))
GDot(p, q) == p[1] * q[1] + p[2] * q[2]
GCross(p, q) == p[1] * q[2] - p[2] * q[1]
Milli(p) == <<(p[1] + 5) \div 10, (p[2] + 5) \div 10>>

\* |a - g|^2 - |b - g|^2 in (1e-3 A)^2.
Further(a, b, g) == LET x == Milli(a) y == Milli(b) z == Milli(g) IN
                    GDot(x, x) - GDot(y, y) - 2 * GDot(z, <<x[1] - y[1], x[2] - y[2]>>)
Slack(g) == LET z == Milli(g) IN 4 * (Abs(z[1]) + Abs(z[2])) + 8000
\* The neighbours that may count as the one closest to the goal.
BestOf(n, g) == {i \in DOMAIN n : \A j \in DOMAIN n : Further(n[i], n[j], g) <= Slack(g)}
\* act is p turned from positive x to the direction of d.
Turned(act, p, d) == LET w == GSqrt(GDot(d, d)) IN
                     /\ Abs(GDot(d, act) - p[1] * w) <= 12 * w
                     /\ Abs(GCross(d, act) - p[2] * w) <= 12 * w

\* c out of n is within six standard deviations of n * p (p in 1e-4).
GPlausible(c, n, p) ==
  LET d == (c * 10000 - n * p) \div 100 IN
  /\ Abs(d) <= 40000
  /\ d * d <= (((p * (10000 - p)) \div 10000) * 36) * n + 10000
Even(cnt, n) == SumSeq(cnt) = n /\ \A i \in DOMAIN cnt : GPlausible(cnt[i], n, 10000 \div Len(cnt))

FindFails(r) ==
  IF r.raised THEN {"C20:search_raises"} ELSE
  LET xs == {q[1] : q \in {r.pts[i] : i \in DOMAIN r.pts}}
      ys == {q[2] : q \in {r.pts[i] : i \in DOMAIN r.pts}}
      has(x, y) == \E i \in DOMAIN r.pts : Near(r.pts[i][1], x, 3) /\ Near(r.pts[i][2], y, 3)
      dense(S) == /\ \A x \in S : r.low - 10 <= x /\ x <= r.high + 10
                  /\ \E x \in S : x <= r.low + r.res /\ \E y \in S : y >= r.high - r.res
                  /\ \A x \in S : x > r.high - r.res \/ \E y \in S : x < y /\ y <= x + 2 * r.res
  IN GC("C20:searches_the_whole_square", dense(xs) /\ dense(ys) /\ \A x \in xs, y \in ys : has(x, y))
     \cup GC("C20:finds_the_maximum",
             \E i \in DOMAIN r.pts : /\ Near(r.pts[i][1], r.best[1], 12) /\ Near(r.pts[i][2], r.best[2], 12)
                                     /\ \A j \in DOMAIN r.pts : r.pts[j][3] <= r.pts[i][3])

GreedyFails(st, r) ==
  CASE r.e = "Greedy" ->
         IF r.raised THEN {"C20:raises"} ELSE
         GC("C20:aims_at_the_best_neighbour", \E i \in BestOf(r.n, r.g) : Turned(r.act, r.p, r.n[i]))
         \cup GC("C20:input_unchanged", r.kept)
    [] r.e = "Find" -> FindFails(r)
    [] r.e = "Noise" ->
         GC("C20:noise_distribution", Even(r.x, r.n) /\ Even(r.y, r.n) /\ Even(r.quad, r.n))
         \cup GC("C20:noise_from_the_generator", r.again)
    [] r.e = "Random" ->
         GC("C20:random_in_bounds", r.inside /\ r.shape)
         \cup GC("C20:random_uniform", \A i \in DOMAIN r.cnt : Even(r.cnt[i], r.n))
         \cup GC("C20:random_independent", Even(r.quad, r.n))
         \cup GC("C20:noise_from_the_generator", r.again)
    [] r.e = "Make" -> GC("C20:needs_an_optimum", r.refused = r.wrong)
    [] OTHER -> {}
GreedyAfter(st, r) == st
===============================================================================
