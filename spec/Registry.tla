-------------------------------- MODULE Registry --------------------------------
(* The catalogue of experiments and what is built from it.  Objects are known   *)
(* by numbers; dwell times and durations in microseconds, lengths in 1e-4 A.    *)
(*   New                       a fresh catalogue                                *)
(*   Lookup kind name, what    "ok", "ValueError" or something else; exp        *)
(*   Register name exp                                                          *)
(*   Build  kind name, ids of adapter, features, goal (, material)             *)
(*          and what they do                                                    *)
(*   Advance kind name seed k, digest, obs, dwell       step k of an environment*)
(*   Agent  kind name, ids, agent, n, within, along, across;                    *)
(*          fault, urls, path, whole, left              what was fetched        *)
EXTENDS Fixed, FiniteSets, TLC

GC(name, ok) == IF ok THEN {} ELSE {name}
Bond == 14200
S15 == 1500000
S10 == 10000000
Rel(lo, hi, d) == [adapter |-> "relative", lo |-> lo, hi |-> hi, dist |-> d, features |-> "graphene"]
Mat == [adapter |-> "material", lo |-> 5000000, hi |-> 5000000, dist |-> 0, features |-> "material"]
Pix(lo, hi) == [adapter |-> "relative", lo |-> lo, hi |-> hi, dist |-> Bond, features |-> "image"]
Dir == [adapter |-> "direct", lo |-> S15, hi |-> S15, dist |-> 0, features |-> "image"]

Setting(kind, name) ==
  CASE name \in {"relative_random", "relative_simple_rates", "relative_prior_rates", "relative_random_simple", "relative_random_prior_rates"} -> Rel(S15, S15, Bond)
    [] name = "relative_random_long" -> Rel(1000000, 5000000, 2 * Bond)
    [] name = "relative_random_extra_long" -> Rel(1000000, 5000000, 3 * Bond)
    [] name \in {"ppo_learned_tf_2s", "ppo_learned_tf_3s", "ppo_learned_tf_4s"} -> Rel(1000000, S10, Bond)
    [] name \in {"ppo_v3_2s", "ppo_v3_3s", "ppo_v3_4s"} -> Rel(S15, 2 * S10, 3 * Bond)
    [] name \in {"ppo_simple_images_tf", "relative_simple_rates_from_images"} -> Pix(S15, S15)
    [] name = "relative_simple_rates_from_images_variable_time" -> Pix(1000000, S10)
    [] name = "direct_simple_rates_from_images" -> Dir
    [] OTHER -> Mat

Greedy == [greedy_on_neighbor |-> <<14200, 0>>, greedy_short_of_neighbor |-> <<5800, 0>>,
           greedy_on_neighbor_offset_horizontally |-> <<14200, 4200>>,
           greedy_from_learned_rates_v3 |-> <<18687, 0>>, greedy_from_learned_rates_v5 |-> <<21717, -1515>>]
Ppo == [ppo_simple_images_tf |-> "ppo_simple_images_tf", ppo_learned_tf_2s |-> "230127_from_state_2s",
        ppo_learned_tf_3s |-> "230127_from_state_3s", ppo_learned_tf_4s |-> "230127_from_state_4s",
        ppo_v3_2s |-> "230422_ppo_v3_2s", ppo_v3_3s |-> "230422_ppo_v3_3s", ppo_v3_4s |-> "230422_ppo_v3_4s"]
Store == "https://storage.googleapis.com/spr_data_bucket_public/"

Random == {"relative_random", "relative_random_long", "relative_random_extra_long"}
MicroscopeNames == Random \cup DOMAIN Greedy \cup DOMAIN Ppo
TrainNames == {"relative_simple_rates", "relative_prior_rates", "relative_simple_rates_from_images",
               "relative_simple_rates_from_images_variable_time", "direct_simple_rates_from_images"}
EvalNames == {"relative_random_simple", "relative_random_prior_rates", "ppo_simple_images_tf"}
Prior == {"relative_prior_rates", "relative_random_prior_rates"}

\* exps: which experiment every name has been seen to stand for; own: added names;
\* made: objects that have been handed out; runs: digests; disk: fetched models.
RegInit == [exps |-> <<>>, own |-> {}, made |-> {}, runs |-> <<>>, disk |-> {}]
Known(st, kind, name) == CASE kind = "microscope" -> name \in MicroscopeNames
                           [] kind = "train" -> name \in TrainNames
                           [] OTHER -> name \in EvalNames \cup st.own
Seen(st, kind, name) == <<kind, name>> \in DOMAIN st.exps

LookupFails(st, r) ==
  IF ~Known(st, r.kind, r.name) THEN GC("C28:unknown_name_is_refused", r.what = "ValueError")
  ELSE GC("C28:known_name_is_found", r.what = "ok")
       \cup GC("C28:name_keeps_its_experiment", r.what = "ok" /\ Seen(st, r.kind, r.name) => st.exps[<<r.kind, r.name>>] = r.exp)

BuildFails(st, r) ==
  IF r.raised THEN {"C28:raises"} ELSE
  LET s == Setting(r.kind, r.name) timed == s.lo # s.hi IN
  GC("C28:fresh_instances", /\ \A k \in DOMAIN r.ids : r.ids[k] \notin st.made
                            /\ Cardinality({r.ids[k] : k \in DOMAIN r.ids}) = Len(r.ids))
  \cup GC("C28:configured_adapter", r.adapter = s.adapter)
  \cup GC("C28:configured_dwell_times", Near(r.lo, s.lo, 1) /\ Near(r.hi, s.hi, 1))
  \cup GC("C28:configured_distance", s.dist > 0 => Near(r.dist, s.dist, 2))
  \cup GC("C28:configured_features", r.features = s.features)
  \cup GC("C28:goal", r.goal = "single_silicon")
  \cup GC("C28:action_spec", r.acts = (IF timed THEN 3 ELSE 2))
  \cup (IF r.kind = "microscope" THEN {} ELSE
        GC("C28:configured_rates", r.rates = (IF r.name \in Prior THEN "prior" ELSE "simple"))
        \cup GC("C28:configured_image_duration", r.image = 2000000))

AdvanceFails(st, r) ==
  IF r.raised THEN {"C28:raises"} ELSE
  LET key == <<r.kind, r.name, r.seed, r.k>> IN
  GC("C28:observations_match_their_spec", r.obs)
  \cup GC("C28:configured_dwell_times", \A k \in DOMAIN r.dwell : r.dwell[k] >= Setting(r.kind, r.name).lo - 1 /\ r.dwell[k] <= Setting(r.kind, r.name).hi + 1)
  \cup GC("C28:instances_are_independent", key \in DOMAIN st.runs => st.runs[key] = r.digest)

\* A fetch may be broken off ("download", "extract"): it fails, and what it left is not taken for the model.
AgentFails(st, r) ==
  IF r.name \in DOMAIN Ppo THEN
    LET m == Ppo[r.name] here == m \in st.disk IN
    GC("C28:model_is_fetched_once", r.urls = (IF here THEN <<>> ELSE <<Store \o m \o ".zip">>))
    \cup (IF r.fault # "none" /\ ~here THEN GC("C28:broken_fetch_is_reported", r.raised)
          ELSE IF r.raised THEN {"C28:raises"}
          ELSE GC("C28:agent_loads_its_model", r.path = m)
               \cup GC("C28:model_is_whole", r.whole)
               \cup GC("C28:nothing_left_behind", r.left = <<>>))
  ELSE IF r.raised THEN {"C28:raises"}
  ELSE GC("C28:fresh_instances", \A k \in DOMAIN r.ids : r.ids[k] \notin st.made)
       \cup GC("C28:actions_within_spec", r.n = (IF Setting(r.kind, r.name).lo # Setting(r.kind, r.name).hi THEN 3 ELSE 2) /\ r.within)
       \cup GC("C28:configured_agent", IF r.name \in DOMAIN Greedy
                                       THEN r.agent = "greedy" /\ NearSeq(<<r.along, r.across>>, Greedy[r.name], 5)
                                       ELSE r.agent = "random")

RegFails(st, r) ==
  CASE r.e = "Lookup" -> LookupFails(st, r)
    [] r.e = "Build" -> BuildFails(st, r)
    [] r.e = "Advance" -> AdvanceFails(st, r)
    [] r.e = "Agent" -> AgentFails(st, r)
    [] r.e = "Register" -> GC("C28:raises", ~r.raised)
    [] OTHER -> {}
RegAfter(st, r) ==
  CASE r.e = "New" -> RegInit
    [] r.e = "Lookup" -> IF r.what = "ok" /\ ~Seen(st, r.kind, r.name) THEN [st EXCEPT !.exps = (<<r.kind, r.name>> :> r.exp) @@ @] ELSE st
    [] r.e = "Register" -> IF r.name \in EvalNames \cup st.own THEN st
                           ELSE [st EXCEPT !.own = @ \cup {r.name}, !.exps = (<<"eval", r.name>> :> r.exp) @@ @]
    [] r.e = "Build" -> [st EXCEPT !.made = @ \cup {r.ids[k] : k \in DOMAIN r.ids}]
    [] r.e = "Advance" -> IF r.raised THEN st ELSE [st EXCEPT !.runs = (<<r.kind, r.name, r.seed, r.k>> :> r.digest) @@ @]
    [] r.e = "Agent" -> IF r.raised THEN st
                        ELSE IF r.name \in DOMAIN Ppo THEN [st EXCEPT !.disk = @ \cup {Ppo[r.name]}]
                        ELSE [st EXCEPT !.made = @ \cup {r.ids[k] : k \in DOMAIN r.ids}]
    [] OTHER -> st
===============================================================================
