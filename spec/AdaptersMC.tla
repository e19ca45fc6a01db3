------------------------------ MODULE AdaptersMC ------------------------------
(* The delta adapter (the one with memory) under every sequence of small,     *)
(* large and zero moves and resets, against the acceptor; and the relative    *)
(* adapters on every small scene.  Histories are printed for replay.          *)
EXTENDS Adapters, TLC, Json
CONSTANTS Depth, Generate
VARIABLES beam, fresh, hist, st, fails
vars == <<beam, fresh, hist, st, fails>>
Starts == <<<<250000, 750000>>, <<500000, 125000>>, <<900000, 900000>>, <<100000, 300000>>, <<700000, 650000>>,
            <<50000, 80000>>, <<320000, 410000>>, <<610000, 230000>>>>
Resets(h) == Cardinality({i \in DOMAIN h : h[i] = "R"})
Act(p, a) == [e |-> "Act", raised |-> FALSE, kept |-> TRUE, nsi |-> 1, a |-> a, k |-> 0,
              out |-> <<[p |-> p, dwell |-> 1500000]>>]
Begin(h, s) == LET p == Starts[Resets(h)] IN
  [p |-> p, st |-> AdAfter(AdAfter(s, [e |-> "Reset"]), [e |-> "Start", start |-> p]),
   f |-> AdFails(AdAfter(s, [e |-> "Reset"]), [e |-> "Start", start |-> p])]
Init == /\ hist = <<"R">>
        /\ LET b == Begin(<<"R">>, [AdInit EXCEPT !.kind = "delta"]) IN beam = b.p /\ st = b.st /\ fails = b.f
        /\ fresh = TRUE
Reset == /\ Len(hist) < Depth /\ hist' = Append(hist, "R")
         /\ LET b == Begin(hist', st) IN beam' = b.p /\ st' = b.st /\ fails' = b.f
         /\ fresh' = TRUE
Move(a, h) ==
  /\ Len(hist) < Depth /\ hist' = Append(hist, h)
  /\ beam' = [i \in 1..2 |-> Clip01(beam[i] + a[i])]
  /\ fails' = AdFails(st, Act(beam', a)) /\ st' = AdAfter(st, Act(beam', a)) /\ fresh' = FALSE
Next == \/ Reset \/ Move(<<0, 0>>, "Z") \/ Move(<<60000, -100000>>, "A") \/ Move(<<-40000, 90000>>, "B")
        \/ Move(<<2000000, -3000000>>, "P") \/ Move(<<-900000, 800000>>, "Q")
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
Inside01 == \A i \in 1..2 : beam[i] \in 0..One
Remembered == st.pos = beam
Bounded == [][hist'[Len(hist')] \in {"A", "B"} => \A i \in 1..2 : Abs(beam'[i] - beam[i]) <= 100000]_vars
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))

\* The relative adapters: the wanted offset in angstroms does not depend on
\* the shape of the field of view unless the frame cuts it off.
Sides == {120000, 200000, 310000}
ShapeIndependent ==
  \A w \in Sides, h \in Sides, a \in {-One, -500000, 0, 250000, One} :
    LET s == [AdInit EXCEPT !.kind = "unit", !.dist = 14200]
        p == Want(s, [a |-> <<a, a>>, si |-> <<500000, 500000>>, size |-> <<w, h>>])
    IN Near(Scale6(p[1] - 500000, w), Scale6(p[2] - 500000, h), 30)
ASSUME ShapeIndependent
=============================================================================
