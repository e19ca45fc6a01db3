-------------------------------- MODULE ReproMC --------------------------------
(* Two instances of an abstract environment, each with a generator of its own *)
(* (seed and number of draws) and an episode state; a global generator; an    *)
(* observer that can be attached.  The implementation may have one leak; TLC  *)
(* checks that without one every behaviour is accepted, that with each of     *)
(* them some behaviour is rejected (action Caught), and generates the         *)
(* interleavings that are replayed into the code.                             *)
EXTENDS Repro, Json
CONSTANTS Depth, Leaks, Generate
VARIABLES env, glob, leak, st, fails, hist, caught
vars == <<env, glob, leak, st, fails, hist, caught>>
E0 == [seed |-> 0, draws |-> 0, world |-> <<>>, count |-> 0, obs |-> FALSE]
Init == /\ env = <<E0, E0>> /\ glob = 0 /\ leak \in Leaks /\ fails = {} /\ hist = <<>> /\ caught = FALSE
        /\ st = ReproAfter(ReproAfter(ReproInit, [e |-> "Make", i |-> 1, kind |-> "k"]), [e |-> "Make", i |-> 2, kind |-> "k"])
Num(s) == IF Len(s) = 0 THEN 7 ELSE (s[1] * 31 + s[2] * 7 + s[3] * 1009 + Len(s)) % 100003
\* A draw is a number that depends on everything the generator has been through.
Draw(e) == CASE leak = "global" -> (e.seed * 1000 + e.draws * 10 + glob * 50021) % 100003
             [] leak = "carry"  -> (e.seed * 1000 + e.draws * 10 + e.count * 30011) % 100003
             [] leak = "observed" -> (e.seed * 1000 + e.draws * 10 + (IF e.obs THEN 40009 ELSE 0)) % 100003
             [] leak = "shared" -> (e.seed * 1000 + (env[1].draws + env[2].draws) * 10) % 100003
             [] leak = "unseeded" -> (e.draws * 10) % 100003
             [] OTHER -> (e.seed * 1000 + e.draws * 10) % 100003
Feed(r) == /\ st' = ReproAfter(st, r) /\ fails' = fails \cup ReproFails(st, r)
Nm(i) == IF i = 1 THEN "A" ELSE "B"
Seed(i, s) == /\ Len(hist) < Depth /\ env' = [env EXCEPT ![i] = [@ EXCEPT !.seed = s, !.draws = 0]]
              /\ Feed([e |-> "Seed", i |-> i, s |-> s]) /\ hist' = Append(hist, Nm(i) \o "S" \o ToString(s))
              /\ UNCHANGED <<glob, leak, caught>>
Reset(i) == /\ Len(hist) < Depth
            /\ LET w == <<Draw(env[i]), 0, 0>> IN
               /\ env' = [env EXCEPT ![i] = [@ EXCEPT !.world = w, !.draws = @ + 1, !.count = @ + 1]]
               /\ Feed([e |-> "Call", i |-> i, op |-> "R", dig |-> Num(w), strong |-> TRUE])
            /\ hist' = Append(hist, Nm(i) \o "R") /\ UNCHANGED <<glob, leak, caught>>
Step(i, a) == /\ Len(hist) < Depth
              /\ LET w == <<Num(env[i].world), a, Draw(env[i])>> IN
                 /\ env' = [env EXCEPT ![i] = [@ EXCEPT !.world = w, !.draws = @ + 1]]
                 /\ Feed([e |-> "Call", i |-> i, op |-> IF a = 1 THEN "x" ELSE "y", dig |-> Num(w), strong |-> TRUE])
              /\ hist' = Append(hist, Nm(i) \o (IF a = 1 THEN "x" ELSE "y")) /\ UNCHANGED <<glob, leak, caught>>
Other == /\ Len(hist) < Depth /\ glob' = glob + 1 /\ hist' = Append(hist, "N") /\ UNCHANGED <<env, leak, st, fails, caught>>
Watch(i) == /\ Len(hist) < Depth /\ env' = [env EXCEPT ![i].obs = ~@] /\ hist' = Append(hist, Nm(i) \o "O")
            /\ UNCHANGED <<glob, leak, st, fails, caught>>
Caught == /\ leak # "none" /\ fails # {} /\ ~caught /\ caught' = TRUE /\ UNCHANGED <<env, glob, leak, st, fails, hist>>
Next == \/ \E i \in 1..2, s \in 1..2 : Seed(i, s)
        \/ \E i \in 1..2 : Reset(i)
        \/ \E i \in 1..2, a \in 1..2 : Step(i, a)
        \/ Other \/ Caught
        \/ \E i \in 1..2 : Watch(i)
Spec == Init /\ [][Next]_vars
Accepted == leak = "none" => fails = {}
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))
===============================================================================
