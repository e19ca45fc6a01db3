------------------------------- MODULE Training -------------------------------
(* Training of transition rates.  A network gives an example logits for the   *)
(* states it may go to and a total rate; here all are multiples of ln 2, so   *)
(* likelihoods are powers of two.  Parameters th (one per output) are added   *)
(* to what the examples themselves say.                                       *)
(*   example  a: logits, R: total rate (even), t: time in halves, s: the next *)
(*            state (0: none), in units of ln 2 and 1/2                       *)
(*   Loss     rows, th, cw, rw (weights in tenths), noise -> loss, cl, rl     *)
(*            (1e-5), rates (1e-4), state: the network state handed on        *)
(*   Fit      rows, tests, bs, epochs, moves (of the optimiser) -> seen: the  *)
(*            examples in the order shown, at: parameters and grads: the      *)
(*            gradients (1e-5, in units of ln 2) the optimiser was given,     *)
(*            th: final parameters, met: metrics by epoch (1e-5)              *)
(*   Distill  teach, th0, moves, n, mean, scale -> pts (1e-5), loss (1e-4)    *)
(*   Eval     outputs of a real network: together, one by one, other keys     *)
(*   Learn    losses of a real network while it trains                        *)
EXTENDS Fixed, FiniteSets, TLC

TC(name, ok) == IF ok THEN {} ELSE {name}
TNone == <<>>
TrainingInit == [orders |-> TNone, inits |-> {}, z |-> [n |-> 0, up |-> 0, in |-> 0]]

LN2 == 69315
LnTable == <<
  0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495,
  263906, 270805, 277259, 283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810,
  329584, 333220, 336730, 340120, 343399, 346574, 349651, 352636, 355535, 358352, 361092, 363759, 366356,
  368888, 371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120, 389182, 391202, 393183, 395124,
  397029, 398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888, 417439,
  418965, 420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671,
  436945, 438203, 439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086,
  452179, 453260, 454329, 455388, 456435, 457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439,
  465396, 466344, 467283, 468213, 469135, 470048, 470953, 471850, 472739, 473620, 474493, 475359, 476217,
  477068, 477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203, 485981, 486753,
  487520, 488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284,
  496981, 497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986,
  505625, 506260, 506890, 507517, 508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990,
  513580, 514166, 514749, 515329, 515906, 516479, 517048, 517615, 518178, 518739, 519296, 519850, 520401,
  520949, 521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750, 526269, 526786, 527300,
  527811, 528320, 528827, 529330, 529832, 530330, 530827, 531321, 531812, 532301, 532788, 533272, 533754,
  534233, 534711, 535186, 535659, 536129, 536598, 537064, 537528, 537990, 538450, 538907, 539363, 539816,
  540268, 540717, 541165, 541610, 542053, 542495, 542935, 543372, 543808, 544242, 544674, 545104, 545532,
  545959, 546383, 546806, 547227, 547646, 548064, 548480, 548894, 549306, 549717, 550126, 550533, 550939,
  551343, 551745, 552146, 552545, 552943, 553339, 553733, 554126, 554518, 554908, 555296, 555683, 556068>>
\* -ln(1 - 2^-m)
LnMiss == <<69315, 28768, 13353, 6454, 3175, 1575, 784, 391, 196, 98, 49, 24, 12, 6, 3, 2>>
\* Exponents may be as low as -2: all are shifted by two.
SHIFT == 2
TAdd(a, b) == [j \in DOMAIN a |-> a[j] + b[j]]
Logits(x, th, noise) == [j \in DOMAIN x.a |-> x.a[j] + th[j] + SHIFT + (IF noise /\ j = 1 THEN 1 ELSE 0)]
RECURSIVE SumPow(_, _)
SumPow(b, j) == IF j = 0 THEN 0 ELSE 2^b[j] + SumPow(b, j - 1)
Total(x, th) == x.R + th[Len(th)]
Halvings(x, th) == (Total(x, th) * x.t) \div 2

\* Minus the logarithm of the likelihood of what was observed, in 1e-5.
ClassLoss(x, th, noise) ==
  IF x.s = 0 THEN 0
  ELSE LET b == Logits(x, th, noise) IN LnTable[SumPow(b, Len(b))] - b[x.s] * LN2
RateLoss(x, th) ==
  LET m == Halvings(x, th) IN
  IF x.s = 0 THEN m * LN2 ELSE IF m > 16 THEN 0 ELSE LnMiss[m]
Weighted10(x, y, cw, rw) == (x * cw) \div 10 + (y * rw) \div 10
Whole(x, th, cw, rw, noise) == Weighted10(ClassLoss(x, th, noise), RateLoss(x, th), cw, rw)
\* The rates of the states, in 1e-4.
RateOf(x, th, noise, j) ==
  LET b == Logits(x, th, noise) IN ((Total(x, th) * 6931) * 2^b[j]) \div SumPow(b, Len(b))

\* Derivatives with respect to the parameters, in 1e-5 of ln 2.
GradClass(x, th, noise, j) ==
  IF x.s = 0 THEN 0
  ELSE LET b == Logits(x, th, noise) IN
       (100000 * 2^b[j]) \div SumPow(b, Len(b)) - (IF j = x.s THEN 100000 ELSE 0)
GradRate(x, th) ==
  LET m == Halvings(x, th) IN
  IF x.s = 0 THEN x.t * 50000 ELSE IF m > 16 THEN 0 ELSE -((x.t * 50000) \div (2^m - 1))
GradAt(x, th, cw, rw, noise, j) ==
  IF j = Len(th) THEN (GradRate(x, th) * rw) \div 10 ELSE (GradClass(x, th, noise, j) * cw) \div 10

RECURSIVE SumGrad(_, _, _, _, _, _, _, _)
SumGrad(rows, ids, th, cw, rw, noise, j, i) ==
  IF i = 0 THEN 0 ELSE GradAt(rows[ids[i]], th, cw, rw, noise, j) + SumGrad(rows, ids, th, cw, rw, noise, j, i - 1)
MeanGrad(rows, ids, th, cw, rw, noise, j) == SumGrad(rows, ids, th, cw, rw, noise, j, Len(ids)) \div Len(ids)
RECURSIVE SumOf(_, _, _, _, _, _, _)
SumOf(rows, th, cw, rw, noise, what, i) ==
  IF i = 0 THEN 0
  ELSE (CASE what = "class" -> ClassLoss(rows[i], th, noise)
          [] what = "rate" -> RateLoss(rows[i], th)
          [] OTHER -> Whole(rows[i], th, cw, rw, noise)) + SumOf(rows, th, cw, rw, noise, what, i - 1)
MeanOf(rows, th, cw, rw, noise, what) == SumOf(rows, th, cw, rw, noise, what, Len(rows)) \div Len(rows)

RECURSIVE Moved(_, _, _)
Moved(th0, moves, k) == IF k = 0 THEN th0 ELSE TAdd(Moved(th0, moves, k - 1), moves[k])
Tol5(x) == 30 + Abs(x) \div 5000

LossFails(r) ==
  IF r.raised THEN {"C32:raises"} ELSE
  LET n == Len(r.rows)
      hard(i) == r.rows[i].s # 0 /\ Halvings(r.rows[i], r.th) = 0
      easy == {i \in 1..n : ~hard(i)}
  IN TC("C32:one_loss_for_each_example", Len(r.cl) = n /\ Len(r.rl) = n /\ Len(r.rates) = n)
     \cup (IF Len(r.cl) # n \/ Len(r.rl) # n \/ Len(r.rates) # n THEN {} ELSE
     TC("C32:loss_of_the_next_state", \A i \in 1..n : Near(r.cl[i], ClassLoss(r.rows[i], r.th, r.noise), Tol5(r.cl[i])))
     \cup TC("C32:loss_of_the_time", \A i \in easy : Near(r.rl[i], RateLoss(r.rows[i], r.th), Tol5(r.rl[i])))
     \cup TC("C32:impossible_is_costly_but_finite", \A i \in 1..n \ easy : r.rl[i] > 1200000 /\ r.rl[i] < 3000000)
     \cup TC("C32:mean_weighted_loss",
             Near(r.loss, SumSeq([i \in 1..n |-> Weighted10(r.cl[i], r.rl[i], r.cw, r.rw)]) \div n, Tol5(r.loss)))
     \cup TC("C32:rates_of_the_states",
             \A i \in 1..n : /\ Len(r.rates[i]) = Len(r.rows[i].a)
                             /\ \A j \in DOMAIN r.rates[i] : Near(r.rates[i][j], RateOf(r.rows[i], r.th, r.noise, j), 5 + r.rates[i][j] \div 2000)))
     \cup TC("C32:network_state_handed_on", r.state = 1)

\* The examples shown in epoch e.
ShownIn(r, per, b, e) == SubSeq(r.seen, (e - 1) * per * b + 1, e * per * b)
TOrders(st, r, per, b) ==
  LET old == IF Len(r.rows) \in DOMAIN st.orders THEN st.orders[Len(r.rows)] ELSE <<>>
  IN old \o [e \in 1..r.epochs |-> ShownIn(r, per, b, e)]
FitFails(st, r) ==
  IF r.raised THEN {"C32:raises"} ELSE
  LET n == Len(r.rows)
      b == Min2(r.bs, n)
      per == n \div b
      steps == r.epochs * per
      shape == Len(r.seen) = steps * b /\ Len(r.at) = steps /\ Len(r.grads) = steps
  IN TC("C32:every_batch_is_used_once", shape)
     \cup (IF ~shape THEN {} ELSE
     TC("C32:an_example_at_most_once_per_epoch",
        \A e \in 1..r.epochs : LET s == ShownIn(r, per, b, e) IN
          /\ \A i \in DOMAIN s : s[i] \in 1..n
          /\ Cardinality({s[i] : i \in DOMAIN s}) = Len(s))
     \cup TC("C32:steps_follow_each_other",
             /\ \A k \in 1..steps : r.at[k] = Moved(r.th0, r.moves, k - 1)
             /\ r.th = Moved(r.th0, r.moves, steps))
     \cup TC("C32:gradient_of_the_batch",
             \A k \in 1..steps : LET ids == SubSeq(r.seen, (k - 1) * b + 1, k * b) IN
               (\A i \in DOMAIN ids : ids[i] \in 1..n) =>
               \A j \in DOMAIN r.th : Near(r.grads[k][j], MeanGrad(r.rows, ids, r.at[k], r.cw, r.rw, r.noise, j), Tol5(r.grads[k][j])))
     \cup TC("C32:metrics_of_every_epoch",
             \A m \in DOMAIN r.met : /\ Len(r.met[m]) = r.epochs
             /\ \A e \in 1..r.epochs :
                LET th == Moved(r.th0, r.moves, e * per)
                    Right(rows, what) == LET x == MeanOf(rows, th, 10, 10, FALSE, what) IN Near(r.met[m][e], x, Tol5(x))
                    Losses(rows) == Right(rows, "whole") \/ LET x == MeanOf(rows, th, r.cw, r.rw, FALSE, "whole") IN Near(r.met[m][e], x, Tol5(x))
                IN CASE m = "train_rate_loss" -> Right(r.rows, "rate")
                     [] m = "train_class_loss" -> Right(r.rows, "class")
                     [] m = "test_rate_loss" -> Right(r.tests, "rate")
                     [] m = "test_class_loss" -> Right(r.tests, "class")
                     [] m = "train_loss" -> Losses(r.rows)
                     [] m = "test_loss" -> Losses(r.tests)
                     [] OTHER -> TRUE)
     \cup TC("C32:metrics_are_named", r.model => {"train_loss", "test_loss", "train_rate_loss", "train_class_loss", "test_rate_loss", "test_class_loss"} \subseteq DOMAIN r.met)
     \cup TC("C32:shuffled", LET o == TOrders(st, r, per, b) IN
              \A i \in 1..(Len(o) - 2) : ~(n >= 7 /\ n = b * per /\ o[i] = o[i + 1] /\ o[i] = o[i + 2]))
     \cup TC("C32:models_start_apart", r.init \notin st.inits))
     \cup TC("C32:same_key_same_result", r.again)

\* Rates (1e-3) of student or teacher for points above or below the mean.
DRate(th, up, noise, j) ==
  LET x == [a |-> SubSeq(th, 1, Len(th) - 1), R |-> th[Len(th)] + (IF up THEN 2 ELSE 0)]
  IN RateOf(x, [i \in DOMAIN th |-> 0], noise, j) \div 10
RECURSIVE SumTeach(_, _, _, _)
SumTeach(ts, up, j, m) == IF m = 0 THEN 0 ELSE DRate(ts[m], up, FALSE, j) + SumTeach(ts, up, j, m - 1)
Sq(x) == (x * x) \div 100
RECURSIVE DSum(_, _, _, _, _)
DSum(th, ts, up, noise, j) ==
  IF j = 0 THEN 0
  ELSE Sq(DRate(th, up, noise, j) - SumTeach(ts, up, j, Len(ts)) \div Len(ts)) + DSum(th, ts, up, noise, j - 1)
\* The loss (1e-4) when u of n points lie above the mean.
DLoss(th, ts, noise, u, n) ==
  LET k == Len(th) - 1 hi == DSum(th, ts, TRUE, noise, k) lo == DSum(th, ts, FALSE, noise, k)
  IN (hi \div n) * u + ((hi % n) * u) \div n + (lo \div n) * (n - u) + ((lo % n) * (n - u)) \div n
Ups(p, mean) == Cardinality({i \in DOMAIN p : p[i][1] > mean[1]})
TolD(x) == 40 + x \div 100
DistillFails(st, r) ==
  IF r.raised THEN {"C32:raises"} ELSE
  LET steps == Len(r.pts)
      each(k) == DLoss(Moved(r.th0, r.moves, k - 1), r.teach, r.noise, Ups(r.pts[k], r.mean), r.n)
  IN TC("C32:distills_batch_by_batch", steps = r.steps /\ (\A k \in 1..steps : Len(r.pts[k]) = r.n) /\ Len(r.loss) * r.per = steps)
     \cup TC("C32:distillation_loss", (Len(r.loss) * r.per = steps) =>
             \A e \in DOMAIN r.loss : LET x == SumSeq([i \in 1..r.per |-> each((e - 1) * r.per + i)]) \div r.per IN
               Near(r.loss[e], x, TolD(x)))
     \cup TC("C32:steps_follow_each_other", r.stepped => r.th = Moved(r.th0, r.moves, steps))
     \cup TC("C32:synthetic_inputs_like_the_data",
             \A k \in 1..steps : \A i \in DOMAIN r.pts[k] : \A c \in DOMAIN r.mean :
               Abs(r.pts[k][i][c] - r.mean[c]) <= 7 * r.scale[c] + 5)
     \cup TC("C32:fresh_inputs", r.scale[1] > 0 => Cardinality({r.pts[k] : k \in 1..steps}) = steps)

DPool(st, r) == LET z == st.z
                    good == IF r.raised THEN {} ELSE {<<k, i>> \in (1..Len(r.pts)) \X (1..r.n) : i <= Len(r.pts[k])}
                    c == Len(r.mean)
                IN IF r.raised \/ r.scale[c] = 0 THEN z
                   ELSE [n |-> z.n + Cardinality(good),
                         up |-> z.up + Cardinality({g \in good : r.pts[g[1]][g[2]][c] > r.mean[c]}),
                         in |-> z.in + Cardinality({g \in good : Abs(r.pts[g[1]][g[2]][c] - r.mean[c]) <= r.scale[c]})]

TrainingFails(st, r) ==
  CASE r.e = "Loss" -> LossFails(r)
    [] r.e = "Fit" -> FitFails(st, r)
    [] r.e = "Distill" -> DistillFails(st, r)
    [] r.e = "Eval" -> IF r.raised THEN {"C32:raises"} ELSE
         TC("C32:outputs_not_negative", \A i \in DOMAIN r.all : \A j \in DOMAIN r.all[i] : r.all[i][j] >= 0)
         \cup TC("C32:one_rate_and_one_logit_per_state", \A i \in DOMAIN r.all : Len(r.all[i]) = r.k + 1)
         \cup TC("C32:an_answer_does_not_depend_on_other_questions", \A i \in DOMAIN r.all : NearSeq(r.all[i], r.one[i], 20))
         \cup TC("C32:answers_are_not_random", \A i \in DOMAIN r.all : NearSeq(r.all[i], r.other[i], 20))
    [] r.e = "Learn" -> IF r.raised THEN {"C32:raises"} ELSE
         TC("C32:learns", r.last * 10 < r.first * 9)
    [] r.e = "End" -> TC("C32:synthetic_inputs_like_the_data",
         st.z.n > 100 => Plausible(st.z.up, st.z.n, 5000) /\ Plausible(st.z.in, st.z.n, 6827))
    [] OTHER -> {}
TPut(f, k, x) == (k :> x) @@ f
TrainingAfter(st, r) ==
  CASE r.e = "Fit" -> IF r.raised THEN st ELSE
         LET n == Len(r.rows) b == Min2(r.bs, n) per == n \div b
             o == TOrders(st, r, per, b)
         IN [st EXCEPT !.orders = TPut(@, n, SubSeq(o, Max2(1, Len(o) - 1), Len(o))),
                       !.inits = @ \cup (IF r.init = 0 THEN {} ELSE {r.init})]
    [] r.e = "Distill" -> [st EXCEPT !.z = DPool(st, r)]
    [] OTHER -> st
===============================================================================
