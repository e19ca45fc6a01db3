-------------------------------- MODULE Learned --------------------------------
(* A learned rate predictor: an ensemble of networks that are trained,         *)
(* distilled, saved and loaded, and asked about scenes.  Positions in 1e-4 A.  *)
(*   Fresh   obj                      a new predictor                          *)
(*   Train / Distill  obj             its networks change                      *)
(*   Save    obj, dir, fixed          current and voltage fixed or not         *)
(*   Load    obj, dir -> raised                                                *)
(*   Net     raw: outputs of every network for one input (1e-4); rel: rates    *)
(*           of every model relative to its total (1e-6); lg: their logarithms *)
(*           (1e-4); tw: totals relative to the sum of totals; ens: rates of   *)
(*           the ensemble relative to the mean total (1e-6)                    *)
(*   Predict obj, probe, n: neighbours relative to the silicon in the order    *)
(*           given, lab: their labels, beam, na, kv -> got; net: the rates the *)
(*           ensemble gives for input ctx (all relative, 1e-6), tot: logarithm *)
(*   Export  dir, the exported model and the ensemble for the same input       *)
EXTENDS Fixed, FiniteSets, TLC

EC(name, ok) == IF ok THEN {} ELSE {name}
ENone == <<>>
LearnedInit == [v |-> ENone, pack |-> ENone, disk |-> ENone, memo |-> ENone, next |-> 1]

RECURSIVE ENewton(_, _)
ENewton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ENewton(n, y)
ESqrt(n) == IF n = 0 THEN 0 ELSE ENewton(n, Min2(46340, (n \div 2) + 1))
EDot(p, q) == p[1] * q[1] + p[2] * q[2]
ECross(p, q) == p[1] * q[2] - p[2] * q[1]

\* The neighbours that may count as nearest to the beam, and the order of all
\* counter-clockwise from one of them.
Firsts(r) == {i \in DOMAIN r.n : \A j \in DOMAIN r.n : D2m(r.n[i], r.beam) <= D2m(r.n[j], r.beam) + 20000}
OrderFrom(n, i) == LET left == {j \in DOMAIN n \ {i} : ECross(n[i], n[j]) > 0}
                       a == CHOOSE j \in left : TRUE
                       b == CHOOSE j \in DOMAIN n \ ({i} \cup left) : TRUE
                   IN <<i, a, b>>
\* The input in canonical orientation, in angstroms as in the training data.
CanonicalAt(r, i) == LET w == ESqrt(EDot(r.n[i], r.n[i]))
                         m == Len(r.ctx)
                     IN Near(r.ctx[m - 1], EDot(r.n[i], r.beam) \div w, 12) /\ Near(r.ctx[m], ECross(r.n[i], r.beam) \div w, 12)
Extras(cfg, na, kv) == (IF cfg.current THEN <<na>> ELSE <<>>) \o (IF cfg.voltage THEN <<kv>> ELSE <<>>)
Wanted(st, r) == IF st.pack[r.obj] # ENone THEN st.pack[r.obj] ELSE Extras(r.cfg, r.na, r.kv)
Tol(x) == 60 + x \div 2000
Key(st, r) == <<st.v[r.obj], r.probe, Wanted(st, r)>>
\* Rates of one weight version are remembered by the label of the neighbour.
ByLabel(r) == [l \in {r.lab[k] : k \in DOMAIN r.lab} |-> r.got[CHOOSE k \in DOMAIN r.lab : r.lab[k] = l]]
PredictFails(st, r) ==
  IF r.raised THEN {"C27:raises"} ELSE
  EC("C27:input_in_training_order", SubSeq(r.ctx, 1, Len(r.ctx) - 2) = Wanted(st, r))
  \cup EC("C27:rates_of_the_neighbours_asked_for",
          /\ Len(r.got) = Len(r.n)
          /\ \E i \in Firsts(r) : /\ CanonicalAt(r, i)
                                  /\ LET o == OrderFrom(r.n, i) IN \A k \in 1..3 : Near(r.got[o[k]], r.net[k], Tol(r.net[k])))
  \cup EC("C27:finite_and_not_negative", \A k \in DOMAIN r.got : 0 <= r.got[k] /\ r.got[k] <= 1000100)
  \cup EC("C27:same_weights_same_rates",
          Key(st, r) \in DOMAIN st.memo =>
            LET m == st.memo[Key(st, r)] g == ByLabel(r) IN
            /\ DOMAIN m.rates = DOMAIN g /\ \A l \in DOMAIN g : Near(g[l], m.rates[l], 2 * Tol(g[l]))
            /\ Near(r.tot, m.tot, 60))
  \cup EC("C27:input_unchanged", r.kept)

RECURSIVE Weighted(_, _, _)
Weighted(r, k, m) == IF m = 0 THEN 0 ELSE (r.tw[m] * (r.rel[m][k] \div 100)) \div 100 + Weighted(r, k, m - 1)
NetFails(r) ==
  IF r.raised THEN {"C27:raises"} ELSE
  EC("C27:probabilities_times_total",
     \A m \in DOMAIN r.rel :
       /\ Near(SumSeq(r.rel[m]), 1000000, 200)
       /\ \A j, k \in 1..3 : (r.rel[m][j] > 100 /\ r.rel[m][k] > 100) => Near(r.lg[m][j] - r.lg[m][k], r.raw[m][j] - r.raw[m][k], 60)
       /\ r.raw[m][4] >= 0)
  \cup EC("C27:ensemble_is_the_mean", /\ Len(r.rel) = r.models
                                      /\ \A k \in 1..3 : Near(r.ens[k], Weighted(r, k, Len(r.rel)), 1500))

LearnedFails(st, r) ==
  CASE r.e = "Predict" -> PredictFails(st, r)
    [] r.e = "Net" -> NetFails(r)
    [] r.e = "Fresh" -> EC("C27:raises", ~r.raised)
    [] r.e \in {"Train", "Distill"} -> EC("C27:raises", ~r.raised)
    [] r.e = "Save" -> EC("C27:save", ~r.raised)
    [] r.e = "Load" -> EC("C27:load", r.raised = (r.dir \notin DOMAIN st.disk))
    [] r.e = "Export" -> EC("C27:exported_model", ~r.raised /\ NearSeq(r.got, r.net, 200) /\ r.fixed = st.disk[r.dir].pack)
    [] OTHER -> {}

Put(f, k, x) == (k :> x) @@ f
New1(st, o) == [st EXCEPT !.v = Put(@, o, st.next), !.pack = Put(@, o, ENone), !.next = @ + 1]
LearnedAfter(st, r) ==
  CASE r.e = "New" -> LearnedInit
    [] r.e \in {"Fresh", "Train", "Distill"} -> New1(st, r.obj)
    [] r.e = "Save" -> IF r.raised THEN st
                       ELSE [st EXCEPT !.disk = Put(@, r.dir, [v |-> st.v[r.obj], pack |-> r.fixed]), !.pack = Put(@, r.obj, r.fixed)]
    [] r.e = "Load" -> IF r.raised \/ r.dir \notin DOMAIN st.disk THEN st
                       ELSE [st EXCEPT !.v = Put(@, r.obj, st.disk[r.dir].v), !.pack = Put(@, r.obj, st.disk[r.dir].pack)]
    [] r.e = "Predict" -> IF r.raised THEN st ELSE [st EXCEPT !.memo = Put(@, Key(st, r), [rates |-> ByLabel(r), tot |-> r.tot])]
    [] OTHER -> st
===============================================================================
