-------------------------------- MODULE FetchMC --------------------------------
(* Processes that fetch the same model at the same time, file by file, each of  *)
(* which may die at any point.  The design under test unpacks beside the models *)
(* and moves the complete model into place; a Fault designs it otherwise.       *)
EXTENDS Fetch, FiniteSets, TLC, Json
CONSTANTS Procs, Files, MaxCalls, MaxOps, Fault, Generate
VARIABLES place,  \* what is in the place of the model: version per file, <<>> if nothing
          pr, calls, seen, st, fails, n, h
vars == <<place, pr, calls, seen, st, fails, n, h>>
None == <<>>
Whole(v) == [f \in 1..Files |-> v]
Vis(p) == IF p = None THEN 0 ELSE IF \E v \in 1..MaxCalls : p = Whole(v) THEN p[1] ELSE -1
Idle == [at |-> "idle", got |-> None, reload |-> FALSE, src |-> "good", ver |-> 1, alone |-> TRUE, old |-> 0, asked |-> FALSE]
Init == /\ place = None /\ pr = [p \in Procs |-> Idle] /\ calls = 0 /\ seen = 0 /\ st = FetchInit /\ fails = {} /\ n = 0 /\ h = <<>>
Gens == <<n, h>>
Rec(p, out, s, plc) == [e |-> "Call", reload |-> pr[p].reload, src |-> pr[p].src, ver |-> pr[p].ver, fault |-> IF out = "killed" THEN "kill" ELSE "none",
                        out |-> out, seen |-> s, after |-> Vis(plc), left |-> 0, asked |-> pr[p].asked]
\* A call that nobody else was involved in is one step of the acceptor.
End(p, out, s, plc) ==
  /\ pr' = [q \in Procs |-> IF q = p THEN Idle ELSE pr[q]]
  /\ IF pr[p].alone THEN LET r == Rec(p, out, s, plc) IN fails' = FetchFails(st, r) /\ st' = FetchAfter(st, r)
     ELSE fails' = fails /\ st' = [vis |-> Vis(plc), left |-> 0]
  /\ seen' = s
Busy(p) == \E q \in Procs \ {p} : pr[q].at # "idle"
Mix(p) == [q \in Procs |-> IF q # p /\ pr[q].at # "idle" THEN [pr[q] EXCEPT !.alone = FALSE] ELSE pr[q]]
Start(p) ==
  /\ ~Generate /\ pr[p].at = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
  /\ \E rl \in BOOLEAN, src \in {"good", "missing", "corrupt"} :
       pr' = [Mix(p) EXCEPT ![p] = [Idle EXCEPT !.at = "look", !.reload = rl, !.src = src, !.ver = calls + 1, !.alone = ~Busy(p)]]
  /\ UNCHANGED <<place, seen, st, fails, Gens>>
Go(p, to) == pr' = [pr EXCEPT ![p].at = to] /\ UNCHANGED <<st, fails, seen>>
Look(p) ==
  /\ pr[p].at = "look"
  /\ IF place # None /\ ~pr[p].reload THEN End(p, "returned", Vis(place), place)
     ELSE Go(p, "open")
  /\ IF Fault = "marked" /\ place = None THEN place' = <<0>> ELSE place' = place
  /\ UNCHANGED <<calls, Gens>>
Open(p) ==
  /\ pr[p].at = "open"
  /\ IF pr[p].src = "missing" THEN End(p, "raised", 0, place)
     ELSE /\ pr' = [pr EXCEPT ![p].at = "unpack", ![p].asked = TRUE] /\ UNCHANGED <<st, fails, seen>>
  /\ UNCHANGED <<place, calls, Gens>>
\* The last file of a corrupt archive cannot be read.
Unpack(p) ==
  LET k == Len(pr[p].got) + 1 IN
  /\ pr[p].at = "unpack"
  /\ IF pr[p].src = "corrupt" /\ k = Files THEN End(p, "raised", 0, place) /\ place' = place
     ELSE /\ pr' = [pr EXCEPT ![p].got = Append(@, pr[p].ver), ![p].at = IF k = Files THEN "move" ELSE "unpack"]
          /\ UNCHANGED <<st, fails, seen>>
          /\ place' = IF Fault = "in_place"
                      THEN (IF Len(place) >= k THEN [place EXCEPT ![k] = pr[p].ver] ELSE Append(place, pr[p].ver))
                      ELSE place
  /\ UNCHANGED <<calls, Gens>>
\* What is there is moved aside, and the model moved into place; the folder's
\* name is taken if somebody else was quicker.
Aside(p) ==
  /\ pr[p].at = "move" /\ Fault # "in_place"
  /\ place' = (IF pr[p].reload THEN None ELSE place)
  /\ Go(p, "into") /\ UNCHANGED <<calls, Gens>>
Into(p) ==
  /\ \/ pr[p].at = "into" \/ (pr[p].at = "move" /\ Fault = "in_place")
  /\ IF Fault # "in_place" /\ place # None THEN End(p, "raised", 0, place) /\ place' = place
     ELSE place' = pr[p].got /\ End(p, "returned", Vis(pr[p].got), pr[p].got)
  /\ UNCHANGED <<calls, Gens>>
Die(p) == /\ pr[p].at # "idle" /\ End(p, "killed", 0, place) /\ UNCHANGED <<place, calls, Gens>>
\* Histories to replay: a letter per call, upper case if the model is to be replaced.
Ops == {"g", "m", "t", "c", "f", "k", "o", "G", "M", "T", "C", "F", "K", "O"}
Emit == /\ Generate /\ n < MaxOps /\ n' = n + 1 /\ \E op \in Ops : h' = Append(h, op)
        /\ UNCHANGED <<place, pr, calls, seen, st, fails>>
Starts == \E p \in Procs : Start(p)
Looks == \E p \in Procs : Look(p)
Opens == \E p \in Procs : Open(p)
Unpacks == \E p \in Procs : Unpack(p)
Asides == \E p \in Procs : Aside(p)
Intos == \E p \in Procs : Into(p)
Dies == \E p \in Procs : Die(p)
Next == Starts \/ Looks \/ Opens \/ Unpacks \/ Asides \/ Intos \/ Dies \/ Emit
Spec == Init /\ [][Next]_vars
\* Nobody ever finds part of a model, however calls overlap and wherever they die.
NeverPartial == Vis(place) >= 0 /\ seen >= 0
Accepted == fails = {}
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
