------------------------------- MODULE GoalsMC -------------------------------
(* A goal on a small lattice (sites 1.4 A apart in a view of 8 A x 4 A that   *)
(* may move): the goal is picked with the arithmetic of the implementation    *)
(* (offsets scaled by the view), the silicon hops, the view moves, and each   *)
(* verdict is compared with the acceptor.  Histories are printed for replay.  *)
EXTENDS Goals, TLC, Json
CONSTANTS Depth, Generate
VARIABLES fov, si, goal, hist, st, fails
vars == <<fov, si, goal, hist, st, fails>>

Sites == {<<x * 14000, y * 14000>> : x \in 1..3, y \in 1..2}
Fovs == {<<0, 0, 80000, 40000>>, <<-16000, 8000, 64000, 48000>>, <<8000, 0, 88000, 80000>>}
Lo == 100
Hi == 250
Mic(f, p) == <<Ratio6(p[1] - f[1], W(f)), Ratio6(p[2] - f[2], H(f))>>
SiteSeq == <<<<14000, 14000>>, <<28000, 14000>>, <<42000, 14000>>, <<14000, 28000>>, <<28000, 28000>>, <<42000, 28000>>>>
Atoms(f, s) == [i \in 1..6 |-> [u |-> Mic(f, SiteSeq[i]), z |-> IF SiteSeq[i] = s THEN 14 ELSE 6]]
NoSi(f) == [i \in 1..6 |-> [u |-> Mic(f, SiteSeq[i]), z |-> 6]]
Dist2(p, q) == D2c(p, q)
Valid(s) == {p \in Sites : Dist2(p, s) > Sq(Lo) /\ Dist2(p, s) < Sq(Hi)}
Base == [GoalInit EXCEPT !.lo = Lo, !.hi = Hi]
ResetRec(f, s, g) == [e |-> "GReset", fov |-> f, atoms |-> Atoms(f, s), outcome |-> "ok", kept |-> TRUE, pos |-> g]
Init == /\ fov \in Fovs /\ si \in Sites /\ goal \in Valid(si) /\ hist = <<"R">>
        /\ fails = GoalFails(Base, ResetRec(fov, si, goal))
        /\ st = GoalAfter(Base, ResetRec(fov, si, goal))
Reset == /\ Len(hist) < Depth /\ \E g \in Valid(si) :
              /\ goal' = g /\ fails' = GoalFails(st, ResetRec(fov, si, g)) /\ st' = GoalAfter(st, ResetRec(fov, si, g))
         /\ hist' = Append(hist, "R") /\ UNCHANGED <<fov, si>>
Look(f, s, h) ==
  /\ Len(hist) < Depth /\ fov' = f /\ si' = s /\ UNCHANGED goal
  /\ LET at == Dist2(s, goal) < Sq(71)
         r == [e |-> "Judge", fov |-> f, atoms |-> Atoms(f, s), outcome |-> "ok", term |-> at, trunc |-> FALSE,
               kept |-> TRUE, halves |-> 3, reward |-> IF at THEN Gamma(3) ELSE 0, pos |-> goal, how |-> h]
     IN fails' = GoalFails(st, r) /\ st' = GoalAfter(st, r)
  /\ hist' = Append(hist, h)
Hop == \E s \in Sites : s # si /\ Dist2(s, si) < Sq(150) /\ Look(fov, s, IF s = goal THEN "N" ELSE "E")
View == \E f \in Fovs : f # fov /\ Look(f, si, "V")
Blind == /\ Len(hist) < Depth
         /\ LET r == [e |-> "Judge", fov |-> fov, atoms |-> NoSi(fov), outcome |-> "SiliconNotFoundError"] IN
            fails' = GoalFails(st, r)
         /\ hist' = Append(hist, "0") /\ UNCHANGED <<fov, si, goal, st>>
Next == Reset \/ Hop \/ View \/ Blind
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
GoalOnSite == goal \in Sites
GoalFixed == [][goal' # goal => hist'[Len(hist')] = "R"]_vars
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))
=============================================================================
