------------------------------- MODULE SplitsMC -------------------------------
(* Data sets of up to MaxN examples are bootstrapped draw by draw, or split   *)
(* by a permutation drawn element by element, then augmented and cut.  Every  *)
(* outcome must be accepted.  Configurations are printed for the driver.      *)
EXTENDS Splits, TLC, Json
CONSTANTS MaxN, Generate
VARIABLES n, how, num, draws, done, fails, augment
vars == <<n, how, num, draws, done, fails, augment>>
Den == 4
G == 2
Row(x) == <<x, x>>
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE Expand(_, _)
Expand(s, g) == IF s = <<>> THEN <<>> ELSE [i \in 1..g |-> Row(Head(s))] \o Expand(Tail(s), g)
Init == /\ n \in 1..MaxN /\ how \in {"boot", "split"} /\ num \in 0..2 /\ augment \in BOOLEAN
        /\ (how = "boot" => num = 0) /\ draws = <<>> /\ done = FALSE /\ fails = {}
Draw(x) == /\ ~Generate /\ ~done /\ Len(draws) < n /\ x \in Ids(n)
           /\ (how = "split" => \A i \in DOMAIN draws : draws[i] # x)
           /\ draws' = Append(draws, x) /\ UNCHANGED <<n, how, num, done, fails, augment>>
K == (n * num) \div Den
Train == IF how = "boot" THEN draws ELSE SubSeq(draws, K + 1, n)
Test == IF how = "boot" THEN Asc(Ids(n) \ {draws[i] : i \in DOMAIN draws}) ELSE SubSeq(draws, 1, K)
Rows(s) == Expand(s, 1)
Finish ==
  /\ ~Generate /\ ~done /\ Len(draws) = n /\ done' = TRUE /\ UNCHANGED <<n, how, num, draws, augment>>
  /\ LET one == IF how = "boot"
                THEN BootFails([raised |-> FALSE, n |-> n, train |-> Rows(Train), test |-> Rows(Test), again |-> TRUE, kept |-> TRUE])
                ELSE SplitFails([raised |-> FALSE, n |-> n, num |-> num, den |-> Den, train |-> Rows(Train),
                                 test |-> Rows(Test), again |-> TRUE, kept |-> TRUE])
         g == IF augment THEN G ELSE 1
         many == ManyFails([raised |-> FALSE, n |-> n, splits |-> 1, how |-> how, num |-> num, den |-> Den, augment |-> augment,
                            group |-> G, trains |-> <<Expand(Train, g)>>, tests |-> <<Expand(Test, g)>>, again |-> TRUE])
     IN fails' = one \cup many
Next == (\E x \in 0..(MaxN - 1) : Draw(x)) \/ Finish
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
\* The order matters: augmenting before splitting would put copies of a test
\* example in the training set.
Disjoint == done => {Train[i] : i \in DOMAIN Train} \cap {Test[i] : i \in DOMAIN Test} = {}
Gen == Generate => PrintT("GEN " \o ToJson([n |-> n, how |-> how, num |-> num, augment |-> augment]))
===============================================================================
