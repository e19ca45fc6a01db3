-------------------------------- MODULE Labels --------------------------------
(* Recorded transitions become training examples.  Atoms are logged as seen   *)
(* (microscope frame, 1e-6) with the field of view they were seen in (1e-4 A);*)
(* the geometry below is done in the material frame, in 1e-3 A.               *)
EXTENDS Fixed, FiniteSets

LC(name, ok) == IF ok THEN {} ELSE {name}
LabelsInit == [none |-> 0]

RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, IF n > 2000000000 THEN 46340 ELSE Min2(46340, (n \div 2) + 1))

\* Material position in 1e-3 A of a point seen at u.
Mat(f, u) == <<(f[1] + Scale6(u[1], f[3] - f[1]) + 5) \div 10, (f[2] + Scale6(u[2], f[4] - f[2]) + 5) \div 10>>
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
\* Squared distance in (1e-3 A)^2; far points are all the same.
Sq2(p, q) == LET d == Sub(p, q) IN
             IF Abs(d[1]) > 20000 \/ Abs(d[2]) > 20000 THEN 800000000 ELSE Dot(d, d)

Positions(f, atoms) == [i \in DOMAIN atoms |-> Mat(f, atoms[i].u)]
Of(atoms, z) == {i \in DOMAIN atoms : atoms[i].z = z}
The(S) == CHOOSE x \in S : TRUE

\* The k elements of S nearest to p.
RECURSIVE Closest(_, _, _, _)
Closest(pos, S, p, k) ==
  IF k = 0 \/ S = {} THEN {}
  ELSE LET i == CHOOSE i \in S : \A j \in S : Sq2(pos[i], p) <= Sq2(pos[j], p)
       IN {i} \cup Closest(pos, S \ {i}, p, k - 1)

TwoA == 4000000      \* (2 A)^2
Within(pos, S, p) == {i \in S : Sq2(pos[i], p) < TwoA}
MinTo(pos, S, p) == ISqrt(Sq2(pos[The(Closest(pos, S, p, 1))], p))
RECURSIVE SumMin(_, _, _, _)
SumMin(pb, B, pa, A) == IF B = {} THEN 0
                        ELSE LET i == The(B) IN MinTo(pa, A, pb[i]) + SumMin(pb, B \ {i}, pa, A)

\* Everything the rules need about one recorded transition.
Facts(r) ==
  LET pb == Positions(r.fov0, r.before)
      pa == Positions(r.fov1, r.after)
      sb == Of(r.before, 14)
      sa == Of(r.after, 14)
  IN IF Len(r.ctrls) # 1 THEN [use |-> "never", why |-> "controls"]
     ELSE IF Cardinality(sb) # 1 \/ Cardinality(sa) # 1 THEN [use |-> "never", why |-> "silicons"]
     ELSE IF Len(r.before) < 4 \/ Len(r.after) < 4 THEN [use |-> "never", why |-> "few_atoms"]
     ELSE LET s == The(sb)
              near == Within(pb, DOMAIN r.before \ {s}, pb[s])
          IN IF Cardinality(near) # 3 THEN [use |-> "never", why |-> "not_threefold"]
             ELSE LET A == Closest(pa, DOMAIN r.after, pb[s], 4)
                      B == near \cup {s}
                  IN IF The(sa) \notin A THEN [use |-> "never", why |-> "moved_far"]
                     ELSE IF SumMin(pb, B, pa, A) > 4 * r.cutoff THEN [use |-> "never", why |-> "mismatch"]
                     ELSE [use |-> IF Len(r.before) < 10 THEN "may" ELSE "must", why |-> "used",
                           s |-> s, near |-> near, pb |-> pb, si1 |-> pa[The(sa)]]

\* The neighbours in the canonical order: nearest to the beam, then counter-
\* clockwise.
Order(f, beam) ==
  LET first == The(Closest(f.pb, f.near, beam, 1))
      n1 == Sub(f.pb[first], f.pb[f.s])
      left == {i \in f.near \ {first} : Cross(n1, Sub(f.pb[i], f.pb[f.s])) > 0}
      rest == f.near \ ({first} \cup left)
  IN \* In a threefold environment one neighbour lies on each side.
     <<first, The(left), The(rest)>>

Label(f, beam) ==
  LET o == Order(f, beam)
      to == The(Closest(f.pb, f.near \cup {f.s}, f.si1, 1))
  IN IF to = f.s THEN 0 ELSE CHOOSE k \in 1..3 : o[k] = to

PointFails(r, p) ==
  LET f == Facts(r)
      beam == Mat(r.fov0, r.ctrls[1].p)
      b == Sub(beam, f.pb[f.s])
      n == Sub(f.pb[Order(f, beam)[1]], f.pb[f.s])
      len == ISqrt(Dot(n, n))
      tol == 6 * (len + Abs(b[1]) + Abs(b[2]))
  IN LC("C16:label", p.state = Label(f, beam))
     \cup LC("C16:beam_position", /\ Near(p.pos[1] * len, Dot(n, b), tol)
                                  /\ Near(p.pos[2] * len, Cross(n, b), tol))
     \cup LC("C16:carried_over", p.dwell = r.ctrls[1].dwell /\ p.na = r.ctrls[1].na /\ p.kv = r.ctrls[1].kv)

\* The used transitions, in order; "may" ones only if that makes the number right.
RECURSIVE Used(_, _)
Used(ts, may) == IF ts = <<>> THEN <<>>
                 ELSE LET u == Facts(Head(ts)).use IN
                      (IF u = "must" \/ (may /\ u = "may") THEN <<Head(ts)>> ELSE <<>>) \o Used(Tail(ts), may)

BatchFails(r) ==
  IF r.raised THEN {"C16:raises"}
  ELSE LET all == Used(r.ts, TRUE)
           some == Used(r.ts, FALSE)
           want == IF Len(r.out) = Len(some) THEN some ELSE all
       IN LC("C16:which_are_used", Len(r.out) = Len(want))
          \cup (IF Len(r.out) # Len(want) THEN {}
                ELSE UNION {PointFails(want[i], r.out[i]) : i \in DOMAIN want})
          \cup LC("C16:input_unchanged", r.kept)

\* Stacking: one row per example, context columns in the order current, voltage.
StackFails(r) ==
  LC("C16:stacked_rows", Len(r.rows) = Len(r.points))
  \cup (IF Len(r.rows) # Len(r.points) THEN {}
        ELSE LC("C16:stacked_values", \A i \in DOMAIN r.rows :
               LET a == r.points[i] b == r.rows[i] IN
               /\ b.state = a.state /\ b.pos = a.pos /\ b.dwell = a.dwell
               /\ b.ctx = (IF r.use_current THEN a.na ELSE <<>>) \o (IF r.use_voltage THEN a.kv ELSE <<>>)))

LabelsFails(st, r) == CASE r.e = "Batch" -> BatchFails(r) [] r.e = "Stack" -> StackFails(r) [] OTHER -> {}
LabelsAfter(st, r) == st
===============================================================================
