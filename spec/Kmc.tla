--------------------------------- MODULE Kmc ---------------------------------
(* The kinetic Monte Carlo law, as probabilities of events counted over many  *)
(* exposures.  Times are measured in half lives ln2 / (total rate), so that   *)
(* an exponential waiting time falls into [k, k+1) with probability 2^-(k+1). *)
(* Probabilities are integers in units of 1e-4.                               *)
EXTENDS Fixed
C(name, ok) == IF ok THEN {} ELSE {name}

Half(k) == CASE k = 1 -> 5000 [] k = 2 -> 2500 [] k = 3 -> 1250 [] k = 4 -> 625
             [] k = 5 -> 312 [] k = 6 -> 156 [] OTHER -> 0
\* cnt[1..m-1]: waiting times in [k-1, k) half lives, cnt[m]: longer ones.
WaitProb(k, m) == IF k = m THEN Half(m - 1) ELSE Half(k)
\* Poisson(k ln 2), j = 0, 1, 2
PoissonHalf(k, j) ==
  CASE k = 1 -> (CASE j = 0 -> 5000 [] j = 1 -> 3466 [] OTHER -> 1201)
    [] k = 2 -> (CASE j = 0 -> 2500 [] j = 1 -> 3466 [] OTHER -> 2402)
    [] k = 3 -> (CASE j = 0 -> 1250 [] j = 1 -> 2599 [] OTHER -> 2703)
    [] OTHER -> 0

KmcFails(r) ==
  CASE r.e = "WAIT" ->
         C("C02:exponential_wait", SumSeq(r.cnt) = r.n /\ \A k \in DOMAIN r.cnt :
              Plausible(r.cnt[k], r.n, WaitProb(k, Len(r.cnt))))
    [] r.e = "PAIR" ->
         C("C02:independent_waits", Plausible(r.c, r.n, 2500))
    [] r.e = "COUNT" ->
         C("C02:transitions_within_dwell", \A j \in DOMAIN r.cnt :
              Plausible(r.cnt[j], r.n, PoissonHalf(r.k, j - 1)))
    [] r.e = "PICK" ->
         C("C02:zero_rate_never_picked", \A i \in DOMAIN r.w : r.w[i] = 0 => r.cnt[i] = 0)
         \cup C("C02:proportional_to_rate", SumSeq(r.cnt) = r.n /\ \A i \in DOMAIN r.w :
              Plausible(r.cnt[i], r.n, (10000 * r.w[i]) \div SumSeq(r.w)))
    [] r.e = "NEVER" -> C("C02:no_rate_no_transition", r.c = 0)
    [] OTHER -> {}
=============================================================================
