------------------------------ MODULE RegistryMC ------------------------------
(* A catalogue that hands out new objects, environments that run side by side,  *)
(* and a store of models that may be broken off while one is being fetched.     *)
(* With a Fault, some behaviour of theirs is not accepted.                      *)
EXTENDS Registry, Json
CONSTANTS MaxOps, Fault, Generate
VARIABLES st, own, next, envs, shared, disk, fails, n, h
vars == <<st, own, next, envs, shared, disk, fails, n, h>>
Init == /\ st = RegInit /\ own = <<>> /\ next = 10 /\ envs = <<>> /\ shared = 0 /\ disk = "none" /\ fails = {} /\ n = 0 /\ h = <<>>
Do(op, r) == /\ n < MaxOps /\ n' = n + 1 /\ h' = Append(h, op)
             /\ IF Generate THEN UNCHANGED <<st, fails>> ELSE st' = RegAfter(st, r) /\ fails' = RegFails(st, r)
Mach == <<own, next, envs, shared, disk>>
Same == UNCHANGED Mach
Names == IF Generate THEN {"mine"} ELSE {"mine", "relative_random_simple"}
\* Numbers up to 9 are the catalogue's own experiments.
Has(name) == name = "relative_random_simple" \/ name \in DOMAIN own
Exp(name) == IF name \in DOMAIN own THEN own[name] ELSE 1
Look == \E name \in Names : Do("L", [e |-> "Lookup", kind |-> "eval", name |-> name, what |-> IF Has(name) THEN "ok" ELSE "ValueError",
                                    exp |-> IF Has(name) THEN Exp(name) ELSE 0]) /\ Same
LookOdd == Generate /\ Do("l", [e |-> "None"]) /\ Same
Add == \E name \in Names : /\ Do("R", [e |-> "Register", name |-> name, exp |-> next, raised |-> FALSE])
                           /\ next' = next + 1
                           /\ own' = (IF Has(name) /\ Fault # "overwrite" THEN own ELSE (name :> next) @@ own)
                           /\ UNCHANGED <<envs, shared, disk>>
AddTaken == Generate /\ Do("r", [e |-> "None"]) /\ Same
Make == LET i == IF Fault = "cached" THEN 10 ELSE next IN
        /\ Do("B", [e |-> "Build", kind |-> "eval", name |-> "relative_random_simple", ids |-> <<i, i + 1, i + 2, i + 3>>, raised |-> FALSE,
                    adapter |-> "relative", lo |-> S15, hi |-> S15, dist |-> Bond, features |-> "graphene", goal |-> "single_silicon",
                    acts |-> 2, rates |-> "simple", image |-> 2000000])
        /\ next' = next + 4 /\ UNCHANGED <<own, envs, shared, disk>>
Open == /\ Len(envs) < 2 /\ \E s \in (IF Generate THEN {1} ELSE {1, 2}) :
          /\ Do("E", [e |-> "None"]) /\ envs' = Append(envs, [seed |-> s, k |-> 0, at |-> 10 * s])
        /\ UNCHANGED <<own, next, shared, disk>>
\* Where an environment is after a step depends on where it was.
Go(i) == LET e == envs[i] p == (IF Fault = "alias" THEN shared ELSE e.at) q == (3 * p + e.seed) % 101 IN
         /\ Do("A", [e |-> "Advance", kind |-> "eval", name |-> "relative_random_simple", seed |-> e.seed, k |-> e.k, digest |-> q,
                     obs |-> TRUE, dwell |-> <<S15>>, raised |-> FALSE])
         /\ envs' = [envs EXCEPT ![i].k = @ + 1, ![i].at = q] /\ shared' = (IF Fault = "alias" THEN q ELSE shared)
Advance == IF Generate THEN Do("A", [e |-> "None"]) /\ Same
           ELSE \E i \in DOMAIN envs : Go(i) /\ UNCHANGED <<own, next, disk>>
Play == Generate /\ Do("G", [e |-> "None"]) /\ Same
\* The archive arrives, is unpacked beside the models, and the model is moved into place.
Fetch(f) ==
  LET here == disk # "none" IN
  /\ Do(CASE f = "none" -> "P" [] f = "download" -> "D" [] OTHER -> "X",
        [e |-> "Agent", kind |-> "microscope", name |-> "ppo_v3_2s", fault |-> f, urls |-> IF here THEN <<>> ELSE <<Store \o "230422_ppo_v3_2s.zip">>,
         raised |-> f # "none" /\ ~here, path |-> "230422_ppo_v3_2s", whole |-> ~here \/ disk = "whole", left |-> <<>>])
  /\ disk' = (IF here THEN disk ELSE CASE f = "none" -> "whole" [] f = "extract" /\ Fault = "in_place" -> "part" [] OTHER -> "none")
  /\ UNCHANGED <<own, next, envs, shared>>
Fetched == Fetch("none")
Cut == Fetch("download")
Torn == Fetch("extract")
Next == Look \/ LookOdd \/ Add \/ AddTaken \/ Make \/ Open \/ Advance \/ Play \/ Fetched \/ Cut \/ Torn
Spec == Init /\ [][Next]_vars
View == <<st, Mach, fails, n>>
Accepted == fails = {}
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
