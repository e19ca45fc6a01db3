--------------------------------- MODULE Repro ---------------------------------
(* Reproducibility.  Instances of different kinds are made, seeded and called *)
(* in any order; what a call yields is logged as a digest.  Seeding and then  *)
(* resetting an instance begins a history; what a call yields is a function   *)
(* of kind, seed and history since then, whatever happened before it, to      *)
(* other instances, to global random state or to observers in the meantime.   *)
(*   Make  i, kind       Seed  i, s       Call  i, op ("R" resets), dig       *)
(*   Again  i, op, dig   a call that repeats one logged before                *)
(*   Other               anything that must not matter                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RC(name, ok) == IF ok THEN {} ELSE {name}
\* inst: <<kind, seed, history, live>> for each instance
ReproInit == [inst |-> <<>>, memo |-> <<>>]

Grown(s, i, x) == IF i \in DOMAIN s THEN [s EXCEPT ![i] = x]
                  ELSE s \o [k \in 1..(i - Len(s)) |-> x]
Blank(kind) == [kind |-> kind, seed |-> -1, hist |-> <<>>, live |-> FALSE]
Live(c, op) == c.seed >= 0 /\ (c.live \/ op = "R")
Key(c, op) == <<c.kind, c.seed, Append(c.hist, op)>>

IsCall(r) == r.e \in {"Call", "Again"}
ReproFails(st, r) ==
  IF ~IsCall(r) \/ r.i \notin DOMAIN st.inst THEN {} ELSE
  LET c == st.inst[r.i]
      k == Key(c, r.op)
  IN IF ~Live(c, r.op) THEN {}
     ELSE RC("C11:reproducible", k \in DOMAIN st.memo => st.memo[k] = r.dig)
          \cup RC("C11:seeds_differ",
                  (Len(k[3]) = 1 /\ r.strong) =>
                    \A q \in DOMAIN st.memo : (q[1] = k[1] /\ q[2] # k[2] /\ q[3] = k[3]) => st.memo[q] # r.dig)

ReproAfter(st, r) ==
  CASE r.e = "New" -> [st EXCEPT !.inst = <<>>]
    [] r.e = "Make" -> [st EXCEPT !.inst = Grown(@, r.i, Blank(r.kind))]
    [] r.e = "Seed" -> [st EXCEPT !.inst[r.i] = [@ EXCEPT !.seed = r.s, !.hist = <<>>, !.live = FALSE]]
    [] IsCall(r) ->
         LET c == st.inst[r.i] IN
         IF ~Live(c, r.op) THEN [st EXCEPT !.inst[r.i].seed = -1]   \* goes on with an old episode
         ELSE [inst |-> [st.inst EXCEPT ![r.i] = [@ EXCEPT !.hist = Append(@, r.op), !.live = TRUE]],
               memo |-> IF Key(c, r.op) \in DOMAIN st.memo THEN st.memo ELSE (Key(c, r.op) :> r.dig) @@ st.memo]
    [] OTHER -> st
===============================================================================
