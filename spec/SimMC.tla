-------------------------------- MODULE SimMC --------------------------------
(* The simulator's algorithm on a small honeycomb patch, as a machine that    *)
(* emits the records a driver would log.  Its grid is a map from sites to     *)
(* elements; a transition installs a successor grid.  TLC checks that every   *)
(* record the algorithm can emit is allowed by the acceptor Sim (what traces  *)
(* of the code are judged with), and the guarantees themselves.               *)
EXTENDS Sim, TLC

CONSTANTS MaxCalls, MaxCtrls, MaxHops, Radius, Half, Dur

\* Honeycomb: unit cells (i, j), two sites per cell, bond 1.42 A.
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Cell(i, j, k) == <<12298 * (2 * i + j) + k * 0, 21300 * j + k * 14200>>
Patch == {p \in {Cell(i, j, k) : i \in -4..4, j \in -4..4, k \in 0..1} :
            D2c(p, <<0, 0>>) <= Radius * Radius}
Sites == SetSeq(Patch)
N == Len(Sites)
Origin == CHOOSE i \in 1..N : Sites[i] = <<0, 0>>
Nbrs(i) == {j \in 1..N : j # i /\ Cardinality(Closer(Sites, i, j, 800)) <= 2}
NbrTab == [i \in 1..N |-> Nbrs(i)]
\* One of the successors has rate zero when the silicon is off the centre.
Pos(i) == IF i = Origin THEN NbrTab[i] ELSE NbrTab[i] \ {CHOOSE j \in NbrTab[i] : \A k \in NbrTab[i] : j <= k}

VARIABLES grid, fov, pc, todo, hops, t, elapsed, img, moved, calls, st, fails
mvars == <<grid, fov, pc, todo, hops, t, elapsed, img, moved, calls>>
vars == <<mvars, st, fails>>

SiOf(g) == CHOOSE i \in 1..N : g[i] = 14
Nsi(g) == Cardinality({i \in 1..N : g[i] = 14})
Nother(g) == Cardinality({i \in 1..N : g[i] \notin {6, 14}})
Grid(i) == [k \in 1..N |-> IF k = i THEN 14 ELSE 6]

Emit(r) == /\ fails' = SimFails(st, r)
           /\ st' = SimAfter(st, r)

\* Beam positions: on the silicon's neighbours, or far outside the view.
CtrlAt(p, d) == [u |-> ToMicro(p, fov), dwell |-> d, kv |-> 60000, na |-> 100000]
Ctrls == {CtrlAt(<<0, 0>>, 0), CtrlAt(<<200000, 30000>>, 3)}
CtrlSeqs == UNION {[1..n -> Ctrls] : n \in 0..MaxCtrls}

Init == /\ grid = Grid(Origin) /\ fov = CentredFov(<<0, 0>>, Half) /\ pc = "new"
        /\ todo = <<>> /\ hops = 0 /\ t = 0 /\ elapsed = 0 /\ img = FALSE /\ moved = FALSE
        /\ calls = 0 /\ st = SimInit /\ fails = {}

Base == [dig |-> 0]
New == /\ pc = "new" /\ pc' = "idle"
       /\ Emit([e |-> "New", dur |-> Dur])
       /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls>>

BeginReset == /\ pc = "idle" /\ calls < MaxCalls /\ pc' = "r_told" /\ calls' = calls + 1
              /\ \E b \in BOOLEAN : /\ img' = b
                   /\ Emit([e |-> "Begin", k |-> "reset", ctrls |-> <<>>, image |-> b,
                            si |-> IF st.ready THEN SiOf(grid) ELSE 0, moved |-> 0])
              /\ todo' = <<>> /\ elapsed' = 0 /\ moved' = FALSE /\ hops' = 0 /\ t' = 0
              /\ grid' = Grid(Origin) /\ fov' = CentredFov(Sites[Origin], Half)
ToldReset == /\ pc = "r_told" /\ pc' = "r_fov"
             /\ Emit([e |-> "ORESET", si |-> SiOf(grid), moved |-> 0, nsi |-> Nsi(grid),
                      nother |-> Nother(grid), fov |-> fov, dig |-> 1])
             /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls>>
ToldFov == /\ pc \in {"r_fov", "s_fov"} /\ pc' = "image"
           /\ Emit([e |-> "OFOV", fov |-> fov, dig |-> 2])
           /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls>>

BeginStep == /\ pc = "idle" /\ st.ready /\ calls < MaxCalls /\ pc' = "control" /\ calls' = calls + 1
             /\ \E cs \in CtrlSeqs, b \in BOOLEAN :
                  /\ todo' = cs /\ img' = b
                  /\ Emit([e |-> "Begin", k |-> "step", ctrls |-> cs, image |-> b,
                           si |-> SiOf(grid), moved |-> 0])
             /\ elapsed' = 0 /\ moved' = FALSE /\ hops' = 0 /\ t' = 0
             /\ UNCHANGED <<grid, fov>>
Control == /\ pc = "control" /\ todo # <<>> /\ pc' = "dwell"
           /\ LET c == Head(todo)
              IN Emit([e |-> "OCTRL", p |-> ToMaterial(c.u, fov), dwell |-> c.dwell,
                       kv |-> c.kv, na |-> c.na, dig |-> 3])
           /\ t' = 0 /\ hops' = 0
           /\ UNCHANGED <<grid, fov, todo, elapsed, img, moved, calls>>
\* While time is left the rates are evaluated; then a transition at a later
\* time, at the latest when the dwell time is over, or none.
Rate == /\ pc = "dwell" /\ t < Head(todo).dwell /\ pc' = "rated"
        /\ Emit([e |-> "RATE", si |-> SiOf(grid), p |-> ToMaterial(Head(todo).u, fov),
                 succ |-> SetSeq(NbrTab[SiOf(grid)]), pos |-> SetSeq(Pos(SiOf(grid)))])
        /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls>>
Hop == /\ pc = "rated" /\ hops < MaxHops /\ pc' = "dwell"
       /\ \E j \in Pos(SiOf(grid)), d \in {1, 3} :
            /\ t + d <= Head(todo).dwell
            /\ t' = t + d /\ grid' = Grid(j) /\ hops' = hops + 1
            /\ Emit([e |-> "OTRANS", si |-> j, moved |-> 0, nsi |-> Nsi(Grid(j)),
                     nother |-> Nother(Grid(j)), t |-> t + d, dig |-> 4])
       /\ UNCHANGED <<fov, todo, elapsed, img, moved, calls>>
Over == /\ \/ pc = "rated"
           \/ pc = "dwell" /\ t >= Head(todo).dwell
        /\ pc' = "control" /\ elapsed' = elapsed + Head(todo).dwell /\ todo' = Tail(todo)
        /\ UNCHANGED <<grid, fov, hops, t, img, moved, calls, st, fails>>
StepImage == /\ pc = "control" /\ todo = <<>> /\ pc' = "image"
             /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls, st, fails>>

NeedsMove == ~Safe(Sites[SiOf(grid)], fov, 0)
Image == /\ pc = "image" /\ elapsed' = elapsed + Dur
         /\ Emit([e |-> "OIMG", dur |-> Dur, fov |-> fov, dig |-> 5])
         /\ IF st.call.k = "step" /\ ~moved /\ NeedsMove
            THEN /\ pc' = "s_fov" /\ moved' = TRUE /\ fov' = CentredFov(Sites[SiOf(grid)], Half)
            ELSE /\ pc' = (IF img THEN "gen" ELSE "end") /\ UNCHANGED <<moved, fov>>
         /\ UNCHANGED <<grid, todo, hops, t, img, calls>>
Gen == /\ pc = "gen" /\ pc' = "end"
       /\ Emit([e |-> "OGEN", img |-> 7, dig |-> 6])
       /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls>>

Visible == {i \in 1..N : InFov(Sites[i], fov, 0)}
Obs == LET s == SetSeq(Visible) IN
       [k \in 1..Len(s) |-> LET m == ToMicro(Sites[s[k]], fov)
                            IN [w |-> s[k], u |-> m[1], v |-> m[2], z |-> grid[s[k]]]]
End == /\ pc = "end" /\ pc' = "idle"
       /\ Emit([e |-> "End", elapsed |-> elapsed, fov |-> fov, ctrls |-> st.call.ctrls,
                atoms |-> Obs, si |-> SiOf(grid), moved |-> 0, nsi |-> Nsi(grid),
                nother |-> Nother(grid), hasimg |-> img, imgdig |-> IF img THEN 7 ELSE 0,
                sites |-> IF st.call.k = "reset" THEN Sites ELSE <<>>,
                seen |-> <<[reg |-> TRUE, digs |-> st.digs], [reg |-> FALSE, digs |-> <<>>]>>,
                evlog |-> st.all, dig |-> 9, twin |-> 9])
       /\ UNCHANGED <<grid, fov, todo, hops, t, elapsed, img, moved, calls>>

Next == \/ New \/ BeginReset \/ ToldReset \/ ToldFov \/ BeginStep \/ Control \/ Rate
        \/ Hop \/ Over \/ StepImage \/ Image \/ Gen \/ End
Spec == Init /\ [][Next]_vars

\* ---- the acceptor allows every behaviour of the algorithm
Accepted == fails = {}
\* ---- the guarantees
OneSilicon == Nsi(grid) = 1 /\ Nother(grid) = 0                                   \* C01
HopsOnlyToNeighbours == [][grid' = grid \/ pc = "idle"
                           \/ SiOf(grid') \in NbrTab[SiOf(grid)]]_vars             \* C01
OnlyHopsChangeMaterial == [][grid' # grid => pc \in {"idle", "rated"}]_vars        \* C01
Bonded == \A i \in 1..N : Cardinality(NbrTab[i]) >= 3                              \* C01
WithinDwell == pc \in {"dwell", "rated"} => t <= Head(todo).dwell                  \* C02
ZeroRateNeverPicked == [][pc = "rated" /\ grid' # grid => SiOf(grid') \in Pos(SiOf(grid))]_vars \* C02
Clock == pc = "end" => elapsed = SumDwell(st.call.ctrls)
                                 + (IF moved THEN 2 ELSE 1) * Dur                  \* C03
SiliconInView == pc \in {"end", "gen"} => Safe(Sites[SiOf(grid)], fov, -10)        \* C04
FovSizeConstant == FovW(fov) = 2 * Half /\ FovH(fov) = 2 * Half                    \* C04
FovMovesOnlyWhenUnsafe ==
  [][fov' # fov => pc = "idle" \/ (pc = "image" /\ ~Safe(Sites[SiOf(grid)], fov, 0))]_vars
ReplayFromEvents == pc \in {"end", "idle"} /\ st.ready =>
                      /\ st.si = SiOf(grid) /\ st.cur = fov                        \* C05
                      /\ pc = "end" => st.dwell + st.imgs * Dur = elapsed
=============================================================================
