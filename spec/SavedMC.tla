-------------------------------- MODULE SavedMC --------------------------------
(* Training takes checkpoints and saves the best of them to archives: all       *)
(* histories of a few operations.  A Fault designs the saving otherwise.        *)
EXTENDS Saved, TLC, Json
CONSTANTS Scores, MaxOps, Fault, Generate
VARIABLES cks, arch, ver, st, fails, h
vars == <<cks, arch, ver, st, fails, h>>
NewRec == [e |-> "New", local |-> 3, global |-> 2]
Init == cks = <<>> /\ arch = <<0, 0, 0>> /\ ver = 0 /\ st = SavedAfter(SavedInit, NewRec) /\ fails = {} /\ h = <<>>
Feed(r, op) == Len(h) < MaxOps /\ fails' = SavedFails(st, r) /\ st' = SavedAfter(st, r) /\ h' = Append(h, op)
Checkpoint == \E s \in Scores :
  /\ \A i \in 1..Len(cks) : cks[i][2] # s
  /\ ver' = ver + 1 /\ cks' = Append(cks, <<ver', s>>) /\ arch' = arch
  /\ Feed([e |-> "Checkpoint", ver |-> ver', score |-> s], "c")
\* The last checkpoint of a run has not been evaluated.
Final == /\ cks # <<>> /\ ver' = ver + 1 /\ UNCHANGED <<cks, arch>> /\ Feed([e |-> "Final", ver |-> ver'], "z")
Chosen == IF Fault = "latest" THEN cks[Len(cks)][1]
          ELSE IF Fault = "last_version" THEN ver
          ELSE LET better(a, b) == IF Fault = "worst" THEN a < b ELSE a > b IN
               cks[CHOOSE i \in 1..Len(cks) : \A j \in 1..Len(cks) : j # i => better(cks[i][2], cks[j][2])][1]
Save(k, over) ==
  LET may == arch[k] = 0 \/ over \/ Fault = "replaces"
      after == IF may THEN [arch EXCEPT ![k] = IF Fault = "no_folder" THEN -1 ELSE Chosen] ELSE arch IN
  /\ cks # <<>> /\ arch' = after /\ UNCHANGED <<cks, ver>>
  /\ Feed([e |-> "Save", name |-> k, over |-> over, rel |-> FALSE, out |-> IF may THEN "returned" ELSE "raised", dated |-> TRUE,
           files |-> after, names |-> 0, moved |-> Fault = "moved"],
          IF k = 3 THEN "d" ELSE IF k = 2 THEN (IF over THEN "R" ELSE "r") ELSE (IF over THEN "S" ELSE "s"))
SaveAny == \E k \in 1..3, over \in BOOLEAN : Save(k, over)
Use == \E k \in 1..3 :
  /\ arch[k] # 0 /\ UNCHANGED <<cks, arch, ver>>
  /\ Feed([e |-> "Use", name |-> k, out |-> "returned", ver |-> arch[k], local |-> 3, global |-> 2], <<"u", "v", "w">>[k])
Next == Checkpoint \/ Final \/ SaveAny \/ Use
Spec == Init /\ [][Next]_vars
\* The archives hold what was best at some time, and only ever get better.
OnlyBetter == \A k \in 1..3 : arch[k] >= 0
Accepted == fails = {}
Gen == (Generate /\ Len(h) = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
