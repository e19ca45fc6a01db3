-------------------------------- MODULE Orbits --------------------------------
(* Augmentation replaces every example by its orbit under the rotations (and  *)
(* the reflection) of an N-fold neighbourhood in which neighbour k lies at    *)
(* k * 360/N degrees.  An example is [id, pos (1e-4), rates (1e-6), state,    *)
(* dt, ctx].                                                                  *)
EXTENDS Fixed, FiniteSets

OC(name, ok) == IF ok THEN {} ELSE {name}
OrbitsInit == [none |-> 0]

\* Cosine and sine of j * 30 degrees, in 1e-4.
Cos30(j) == <<10000, 8660, 5000, 0, -5000, -8660, -10000, -8660, -5000, 0, 5000, 8660>>[(j % 12) + 1]
Sin30(j) == Cos30((j + 9) % 12)
Times(c, x) == IF c = 8660 THEN x - (x * 1340 + 5000) \div 10000
               ELSE IF c = -8660 THEN -(x - (x * 1340 + 5000) \div 10000)
               ELSE (c \div 1000) * ((x + 5) \div 10)
Rotate(p, n, g) == LET j == (12 \div n) * g IN
  <<Times(Cos30(j), p[1]) - Times(Sin30(j), p[2]), Times(Sin30(j), p[1]) + Times(Cos30(j), p[2])>>

\* A symmetry <<g, m>>: mirror (if m = 1), then rotate by g steps.
Group(n, reflect) == {<<g, m>> : g \in 0..(n - 1), m \in IF reflect THEN {0, 1} ELSE {0}}
\* Neighbour (0-based) that neighbour k becomes.
Image(n, s, k) == ((IF s[2] = 1 THEN n - k ELSE k) + s[1]) % n
MovePos(n, s, p) == Rotate(IF s[2] = 1 THEN <<p[1], -p[2]>> ELSE p, n, s[1])
MoveState(n, s, st) == IF st = 0 THEN 0 ELSE Image(n, s, st - 1) + 1
MovedRates(n, s, a, b) == \A k \in 0..(n - 1) : Near(b[Image(n, s, k) + 1], a[k + 1], 3)

IsImage(n, s, a, b) == /\ NearSeq(MovePos(n, s, a.pos), b.pos, 25)
                       /\ b.state = MoveState(n, s, a.state)
                       /\ MovedRates(n, s, a.rates, b.rates)

AugmentFails(r) ==
  IF r.raised THEN {"C17:raises"}
  ELSE LET G == Group(r.n, r.reflect) IN
    OC("C17:rows", Len(r.out) = Len(r.in) * Cardinality(G))
    \cup OC("C17:time_and_context_unchanged",
            \A j \in DOMAIN r.out : \E i \in DOMAIN r.in :
              r.out[j].dt = r.in[i].dt /\ r.out[j].ctx = r.in[i].ctx)
    \cup OC("C17:orbit",
            \A i \in DOMAIN r.in : \A s \in G :
              Cardinality({j \in DOMAIN r.out : r.out[j].dt = r.in[i].dt /\ IsImage(r.n, s, r.in[i], r.out[j])}) = 1)
    \cup OC("C17:input_unchanged", r.kept)

\* Synthetic data: prior[k] is the prior rate of the stated position turned back
\* by k steps, i.e. as seen by neighbour k.
SyntheticFails(r) ==
  IF r.raised THEN {"C17:raises"}
  ELSE OC("C17:prior_rates", \A i \in DOMAIN r.rows : NearSeq(r.rows[i].rates, r.rows[i].prior, 6 + r.rows[i].big))
       \cup OC("C17:states_in_range", \A i \in DOMAIN r.rows : r.rows[i].state \in 0..r.n)
       \cup OC("C17:window", \A i \in DOMAIN r.rows : r.rows[i].dt >= r.range[1] /\ r.rows[i].dt <= r.range[2])
       \cup OC("C17:seeded", r.again)
\* Of many examples, state k occurs cnt[k] times where exp10[k] / 10 were expected.
StatesFails(r) == OC("C17:states_follow_rates",
  \A k \in DOMAIN r.cnt : LET d == r.cnt[k] * 10 - r.exp10[k] IN d * d <= 3600 * (r.var[k] + 1))

OrbitsFails(st, r) == CASE r.e = "Augment" -> AugmentFails(r)
                        [] r.e = "Synthetic" -> SyntheticFails(r)
                        [] r.e = "States" -> StatesFails(r)
                        [] OTHER -> {}
OrbitsAfter(st, r) == st
===============================================================================
