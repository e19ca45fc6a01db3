-------------------------------- MODULE Learner --------------------------------
(* The script that trains rates from recorded trajectories: it reads them,    *)
(* trains what it was asked to train and leaves models, metrics and pictures  *)
(* in its directory, where a later run replaces them.                         *)
(*   Script  dir, cfg, points: na, kv, dwell (1e-4) and state s of every      *)
(*           usable transition -> files, metrics by name (dimensions), calls: *)
(*           pictures with their context (1e-4) and answers (1e-6)            *)
(*   Model   dir, i: what a saved classifier was trained on: nin inputs, n    *)
(*           examples, their mean (1e-4); classes it knows                    *)
(*   Vote    dir, classes and probs (1e-6) of the saved models, ens of the    *)
(*           saved ensemble for the same inputs                               *)
(*   Reload  dir, the saved network: ctx it was exported with, got: answers   *)
(*           of the export, net: of the reloaded ensemble, asked: predict     *)
(*   Picture a picture of known rates: grid asked for, maxima (1e-4)          *)
(*   Drawings pictures of transitions: names of the files, states of the      *)
(*           usable transitions; drawn: where things were (1e-6 of the field  *)
(*           of view before), got: where they are drawn (1e-3 of a pixel)     *)
EXTENDS Fixed, FiniteSets, TLC

JC(name, ok) == IF ok THEN {} ELSE {name}
JNone == <<>>
LearnerInit == [disk |-> JNone]

IsNet(c) == c.learner \in {"rate_network", "classification_network"}
\* What a point says besides where the beam was.
ContextOf(c, p) == (IF c.na THEN <<p.na>> ELSE <<>>) \o (IF c.kv THEN <<p.kv>> ELSE <<>>)
                   \o (IF c.learner # "rate_network" THEN <<p.dwell>> ELSE <<>>)
Width(c) == Len(ContextOf(c, [na |-> 0, kv |-> 0, dwell |-> 0]))
Column(c, ps, j) == [i \in DOMAIN ps |-> ContextOf(c, ps[i])[j]]
Sorted(s) == SortSeq(s, <)
Median(s) == LET o == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE (o[n \div 2] + o[n \div 2 + 1]) \div 2
Medians(c, ps) == [j \in 1..Width(c) |-> Median(Column(c, ps, j))]
Minima(c, ps) == [j \in 1..Width(c) |-> Sorted(Column(c, ps, j))[1]]
Maxima(c, ps) == [j \in 1..Width(c) |-> Sorted(Column(c, ps, j))[Len(ps)]]
RECURSIVE MeanInt(_, _)
MeanInt(s, i) == IF i = 0 THEN 0 ELSE s[i] \div Len(s) + MeanInt(s, i - 1)
Close(a, b) == Near(a, b, 12 + Abs(b) \div 50000)
CloseSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i])

Pictures == {"max_context_rates.png", "min_context_rates.png", "avg_context_rates.png"}
NetMetrics == {"train_loss", "test_loss", "train_rate_loss", "train_class_loss", "test_rate_loss", "test_class_loss"}
ModelFiles(c) == IF IsNet(c) THEN {"0.ckpt", "config.json", "saved_model.pb"}
                 ELSE {c.learner \o "_" \o ToString(i) \o ".joblib" : i \in 0..(c.models - 1)} \cup {c.learner \o "_ensemble.joblib"}
Expected(c) == {"raw_data.png", "augmented_data.png"} \cup ModelFiles(c)
               \cup (IF c.log THEN {"metrics.npz"} ELSE {}) \cup (IF c.vis THEN Pictures ELSE {})
               \cup (IF c.plot /\ IsNet(c) THEN {m \o ".png" : m \in NetMetrics} ELSE {})
ScriptFails(st, r) ==
  IF r.raised THEN {"C33:raises"} ELSE
  LET c == r.cfg fs == {r.files[i] : i \in DOMAIN r.files} IN
  JC("C33:writes_what_was_asked", Expected(c) \subseteq fs)
  \cup JC("C33:writes_nothing_else_asked",
          r.dir \notin DOMAIN st.disk => (~c.log => "metrics.npz" \notin fs) /\ (~c.vis => fs \cap Pictures = {}))
  \cup (IF ~c.log THEN {} ELSE
        LET names == IF IsNet(c) THEN NetMetrics ELSE {"train_accuracy", "test_accuracy"} IN
        JC("C33:metrics_of_every_model",
           /\ names \subseteq DOMAIN r.metrics
           /\ \A m \in names \cap DOMAIN r.metrics : r.metrics[m] = IF IsNet(c) THEN <<c.models, c.epochs>> ELSE <<1, c.models>>)
        \cup JC("C33:metrics_are_numbers", r.finite))
  \cup JC("C33:same_seed_same_result", r.again)
  \cup JC("C33:other_seed_other_samples", r.other)
  \cup UNION {LET k == r.calls[i] want == CASE k.name = "max_context_rates.png" -> Maxima(c, r.points)
                                            [] k.name = "min_context_rates.png" -> Minima(c, r.points)
                                            [] OTHER -> Medians(c, r.points) IN
              JC("C33:pictures_at_the_contexts_of_the_data", CloseSeq(k.ctx, want))
              \cup JC("C33:pictures_of_the_saved_model", NearSeq(k.got, k.saved, 300)) : i \in DOMAIN r.calls}

\* Turned and mirrored copies of an example cancel the mean of the beam positions.
Copies(c) == IF c.augment THEN 6 ELSE 1
ModelFails(st, r) ==
  IF r.raised THEN {"C33:model_can_be_loaded"} ELSE
  LET d == st.disk[r.dir] c == d.cfg n == Len(d.points)
      m == IF c.boot THEN n ELSE n - (n * c.val) \div 10
  IN JC("C33:trained_on_context_and_position", r.nin = Width(c) + 2)
     \cup JC("C33:trained_on_all_examples", r.n = m * Copies(c))
     \cup JC("C33:trained_on_what_was_measured",
             (Len(r.mean) = Width(c) + 2 /\ ~c.boot /\ c.val = 0) =>
             /\ \A j \in 1..Width(c) : Near(r.mean[j], MeanInt(Column(c, d.points, j), n), n + 20)
             /\ c.augment => Near(r.mean[Width(c) + 1], 0, 30) /\ Near(r.mean[Width(c) + 2], 0, 30))
     \cup JC("C33:every_model_has_its_own_sample",
             (c.boot /\ r.i > 0 /\ d.mean # <<>>) => r.mean # d.mean)
     \cup JC("C33:settings_of_the_model", r.hyper # <<>> => r.hyper = <<c.decay, c.epochs, c.rate>>)
     \cup JC("C33:knows_only_states_of_the_data",
             \A i \in DOMAIN r.classes : \/ r.classes[i] = 0 /\ \E p \in DOMAIN d.points : d.points[p].s = 0
                                         \/ r.classes[i] \in 1..3 /\ \E p \in DOMAIN d.points : d.points[p].s # 0)

RECURSIVE Votes(_, _, _, _)
Votes(r, x, s, m) ==
  IF m = 0 THEN 0
  ELSE (IF \E j \in DOMAIN r.classes[m] : r.classes[m][j] = s
        THEN r.probs[m][x][CHOOSE j \in DOMAIN r.classes[m] : r.classes[m][j] = s] ELSE 0) + Votes(r, x, s, m - 1)
VoteFails(st, r) ==
  IF r.raised THEN {"C33:ensemble_can_be_loaded"} ELSE
  JC("C33:ensemble_of_all_models", Len(r.classes) = st.disk[r.dir].cfg.models)
  \cup JC("C33:ensemble_is_the_mean",
          \A x \in DOMAIN r.ens : /\ Len(r.ens[x]) = 4
                                  /\ \A s \in 0..3 : Near(r.ens[x][s + 1], Votes(r, x, s, Len(r.classes)) \div Len(r.classes), 3))

ReloadFails(st, r) ==
  IF r.raised THEN {"C33:model_can_be_loaded"} ELSE
  LET d == st.disk[r.dir] IN
  JC("C33:exported_at_the_median_context", CloseSeq(r.ctx, Medians(d.cfg, d.points)))
  \cup JC("C33:export_answers_like_the_model", NearSeq(r.got, r.net, 300))
  \cup JC("C33:predicts_after_loading", NearSeq(r.asked, r.net, 300))

PictureFails(r) ==
  IF r.raised THEN {"C33:raises"} ELSE
  JC("C33:grid_covers_the_range",
     /\ r.lo = <<-r.range, -r.range>> /\ r.hi = <<r.range, r.range>>
     /\ r.side * r.side <= r.points /\ (r.side + 1) * (r.side + 1) > r.points /\ r.n = r.side * r.side)
  \cup JC("C33:context_everywhere", r.ctxok)
  \cup JC("C33:maxima_of_the_rates", \A i \in 1..3 : Near(r.max[i], r.true[i], 3))
  \cup JC("C33:writes_what_was_asked", r.file)

\* Positions in pixels; rows count from the top.
InPixels(p, n) == <<(p[1] * n) \div 1000, 1000 * n - ((p[2] * n) \div 1000)>>
AtPixel(got, p, n) == Len(got) = 2 /\ LET w == InPixels(p, n) IN Near(got[1], w[1], 3) /\ Near(got[2], w[2], 3)
Sq(a, b) == LET x == (a[1] - b[1]) \div 100 y == (a[2] - b[2]) \div 100 IN x * x + y * y
Cross(o, a, b) == LET x1 == (a[1] - o[1]) \div 100 y1 == (a[2] - o[2]) \div 100 x2 == (b[1] - o[1]) \div 100 y2 == (b[2] - o[2]) \div 100
                  IN x1 * y2 - y1 * x2
FileOf(s, i, what) == "class_" \o ToString(s) \o "/transition_" \o ToString(i) \o what
DrawnFails(d) ==
  LET g == d.got IN
  JC("C33:everything_is_where_it_was",
     /\ g.n = d.n /\ g.n2 = d.n2
     /\ AtPixel(g.beam, d.beam, d.size) /\ AtPixel(g.si, d.si, d.size) /\ AtPixel(g.si2, d.si2, d.size)
     /\ [i \in DOMAIN g.nb |-> g.nb[i][1]] = <<1, 2, 3>>
     /\ \A i \in DOMAIN g.nb : \E j \in 1..3 : AtPixel(<<g.nb[i][2], g.nb[i][3]>>, d.near[j], d.size))
  \cup JC("C33:marks_where_the_silicon_went", g.marked = IF d.s = 0 THEN <<>> ELSE <<d.s>>)
  \cup (IF Len(g.nb) # 3 THEN {} ELSE
        LET at(i) == d.near[CHOOSE j \in 1..3 : AtPixel(<<g.nb[i][2], g.nb[i][3]>>, d.near[j], d.size)] IN
        IF \E i \in 1..3 : ~\E j \in 1..3 : AtPixel(<<g.nb[i][2], g.nb[i][3]>>, d.near[j], d.size) THEN {} ELSE
        JC("C33:neighbours_in_their_order",
           /\ Sq(at(1), d.beam) <= Sq(at(2), d.beam) + 8000 /\ Sq(at(1), d.beam) <= Sq(at(3), d.beam) + 8000
           /\ \A i \in 1..3 : Cross(d.si, at(i), at((i % 3) + 1)) > 0
           /\ d.s > 0 => \A i \in 1..3 : Sq(at(d.s), d.si2) <= Sq(at(i), d.si2) + 8000))
DrawingsFails(r) ==
  IF r.raised THEN {"C33:raises"} ELSE
  LET n == Len(r.states) IN
  JC("C33:a_picture_of_every_used_transition",
     /\ {r.names[i] : i \in DOMAIN r.names} =
          {FileOf(r.states[i], i, "_transition.png") : i \in 1..n} \cup (IF r.label THEN {FileOf(r.states[i], i, "_label.png") : i \in 1..n} ELSE {})
     /\ Len(r.drawn) = n)
  \cup UNION {DrawnFails(r.drawn[i]) : i \in DOMAIN r.drawn}

LearnerFails(st, r) ==
  CASE r.e = "Script" -> ScriptFails(st, r)
    [] r.e = "Model" -> ModelFails(st, r)
    [] r.e = "Vote" -> VoteFails(st, r)
    [] r.e = "Reload" -> ReloadFails(st, r)
    [] r.e = "Picture" -> PictureFails(r)
    [] r.e = "Drawings" -> DrawingsFails(r)
    [] OTHER -> {}
LearnerAfter(st, r) ==
  IF r.e = "New" THEN LearnerInit
  ELSE IF r.e = "Model" /\ r.dir \in DOMAIN st.disk /\ r.i = 0 THEN [st EXCEPT !.disk[r.dir].mean = r.mean]
  ELSE IF r.e # "Script" THEN st
  ELSE [st EXCEPT !.disk = (r.dir :> [cfg |-> r.cfg, points |-> r.points, mean |-> <<>>]) @@ @]
===============================================================================
