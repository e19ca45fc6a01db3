------------------------------- MODULE Adapters -------------------------------
(* Action adapters: from an agent's action to one beam control.  Actions are   *)
(* in 1e-6 (unit actions) or 1e-4 A (material frame adapter), positions in    *)
(* 1e-6 of the frame, dwell times in microseconds.                            *)
(*   st: kind (direct, delta, unit, material), lo/hi dwell, dist, and for the *)
(*   delta adapter the beam position (known = FALSE right after a reset) and  *)
(*   where the previous episode started.                                      *)
EXTENDS Fixed, FiniteSets

DC(name, ok) == IF ok THEN {} ELSE {name}
One == 1000000
AdInit == [kind |-> "none", lo |-> 0, hi |-> 0, dist |-> 0, known |-> FALSE, pos |-> <<0, 0>>,
           starts |-> {}]
Clip01(x) == Clip(x, 0, One)

\* Where the specification wants the beam; six digits.
Want(st, r) ==
  [i \in 1..2 |->
    CASE st.kind = "direct" -> Clip01(r.a[i])
      [] st.kind = "delta" -> Clip01(st.pos[i] + r.a[i])
      [] st.kind = "unit" ->
           Clip01(r.si[i] + Ratio6(Scale6(Clip(r.a[i], -One, One), st.dist), r.size[i]))
      [] st.kind = "material" -> Clip01(r.si[i] + Ratio6(r.a[i], r.size[i]))]

\* Third component k in 1/64 parts.  The range is a multiple of 64 us.
WantDwell(st, r) == IF st.kind \in {"direct", "delta"} THEN 1500000
                    ELSE st.lo + ((st.hi - st.lo) \div 64) * Clip(r.k, 0, 64)

NeedsOne(st) == st.kind \in {"unit", "material"}
Tol(st) == IF st.kind \in {"direct", "delta"} THEN 2 ELSE 25

ActFails(st, r) ==
  IF NeedsOne(st) /\ r.nsi # 1 THEN DC("C10:needs_exactly_one_silicon", r.raised)
  ELSE IF r.raised THEN {"C10:raises"} ELSE
  DC("C10:one_control", Len(r.out) = 1)
  \cup DC("C10:caller_untouched", r.kept)
  \cup (IF Len(r.out) # 1 THEN {} ELSE
        LET c == r.out[1] IN
        DC("C10:inside_the_frame", \A i \in 1..2 : c.p[i] \in 0..One)
        \cup DC("C10:beam_position", (st.kind = "delta" /\ ~st.known)
                                      \/ NearSeq(c.p, Want(st, r), Tol(st)))
        \cup DC("C10:dwell_time", Near(c.dwell, WantDwell(st, r), 2))
        \cup DC("C10:dwell_in_range", st.kind \in {"direct", "delta"}
                                      \/ c.dwell \in (Min2(st.lo, st.hi) - 1)..(Max2(st.lo, st.hi) + 1)))

\* The first position after a reset shows where the adapter started.
ResetFails(st, r) ==
  DC("C10:reset_draws_a_new_start", \A s \in st.starts : ~NearSeq(s, r.start, 20))
  \cup DC("C10:start_inside_the_frame", \A i \in 1..2 : r.start[i] \in 0..One)

\* Where many resets put the beam, counted in equal parts of the frame.
StartsFails(r) ==
  DC("C10:starts_anywhere_in_the_frame", \A i \in DOMAIN r.cnt :
       Plausible(r.cnt[i], r.n, 10000 \div Len(r.cnt)))

SpecFails(st, r) ==
  LET n == IF st.kind \in {"unit", "material"} /\ st.lo # st.hi THEN 3 ELSE 2
      low == [i \in 1..n |-> IF i = 3 THEN 0 ELSE CASE st.kind = "direct" -> 0 [] st.kind = "delta" -> -100000
                                                     [] OTHER -> -One]
      high == [i \in 1..n |-> IF i = 3 THEN One ELSE CASE st.kind = "delta" -> 100000 [] OTHER -> One]
  IN DC("C10:action_spec_shape", r.shape = <<n>>)
     \cup DC("C10:action_spec_bounds", (st.kind # "material") => (NearSeq(r.low, low, 1) /\ NearSeq(r.high, high, 1)))

AdFails(st, r) ==
  CASE r.e = "Act" -> ActFails(st, r)
    [] r.e = "Start" -> ResetFails(st, r)
    [] r.e = "Starts" -> StartsFails(r)
    [] r.e = "Spec" -> SpecFails(st, r)
    [] OTHER -> {}
AdAfter(st, r) ==
  CASE r.e = "New" -> [AdInit EXCEPT !.kind = r.kind, !.lo = r.lo, !.hi = r.hi, !.dist = r.dist]
    [] r.e = "Reset" -> [st EXCEPT !.known = FALSE]
    [] r.e = "Start" -> [st EXCEPT !.known = TRUE, !.pos = r.start, !.starts = @ \cup {r.start}]
    [] r.e = "Act" -> IF st.kind # "delta" \/ r.raised \/ Len(r.out) # 1 THEN st
                      ELSE [st EXCEPT !.pos = r.out[1].p, !.known = TRUE]
    [] OTHER -> st
=============================================================================
