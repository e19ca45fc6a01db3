--------------------------------- MODULE Sim ---------------------------------
(* The simulator: material, clock, field of view, observers.                  *)
(*                                                                            *)
(* A history of the simulator is the sequence of calls made to it, what each  *)
(* returned, and what a registered observer was told during it.  Records:     *)
(*   Begin   a call starts: kind "reset" or "step", its controls, whether an  *)
(*           image was asked for                                              *)
(*   ORESET, OFOV, OCTRL, OTRANS, OIMG, OGEN   observer callbacks             *)
(*   RATE    the rate function was consulted by the material                  *)
(*   End     the call returned: the observation, the material and what every  *)
(*           other observer saw                                               *)
(* State of the specification:                                                *)
(*   sites   lattice sites (1e-4 A), si the site of the silicon               *)
(*   fov     <<llx, lly, urx, ury>> the field of view, cur the field of view  *)
(*           known from the observer's events                                 *)
(*   call    the pending call, evs what happened during it, in order          *)
EXTENDS Fixed, FiniteSets

\* ------------------------------------------------------------- geometry
FovW(f) == f[3] - f[1]
FovH(f) == f[4] - f[2]
InFov(p, f, m) == /\ p[1] >= f[1] - m /\ p[1] <= f[3] + m
                  /\ p[2] >= f[2] - m /\ p[2] <= f[4] + m
\* The silicon is in the central half of the frame, m units away from its edge.
Safe(p, f, m) == /\ 4 * (p[1] - f[1]) >= FovW(f) + 4 * m
                 /\ 4 * (f[3] - p[1]) >= FovW(f) + 4 * m
                 /\ 4 * (p[2] - f[2]) >= FovH(f) + 4 * m
                 /\ 4 * (f[4] - p[2]) >= FovH(f) + 4 * m
Centred(p, f, tol) == /\ Near(f[1] + f[3], 2 * p[1], 2 * tol)
                      /\ Near(f[2] + f[4], 2 * p[2], 2 * tol)
CentredFov(p, half) == <<p[1] - half, p[2] - half, p[1] + half, p[2] + half>>
ToMicro(p, f) == <<Ratio6(p[1] - f[1], FovW(f)), Ratio6(p[2] - f[2], FovH(f))>>
ToMaterial(u, f) == <<f[1] + Scale6(u[1], FovW(f)), f[2] + Scale6(u[2], FovH(f))>>

\* The silicon may hop to one of the three sites nearest to where it is.
Closer(sites, a, b, tol) ==
  {i \in DOMAIN sites : i # a /\ D2c(sites[i], sites[a]) < D2c(sites[b], sites[a]) - tol}
MayHop(sites, a, b) == a # b /\ Cardinality(Closer(sites, a, b, 5000)) <= 2

\* ------------------------------------------------------------- acceptor
Idle == [k |-> "none", ctrls |-> <<>>, image |-> FALSE]
NoRate == [si |-> 0, succ |-> <<>>, pos |-> <<>>]
SimInit == [ready |-> FALSE, sites |-> <<>>, si |-> 0, fov |-> <<0, 0, 0, 0>>,
            cur |-> <<0, 0, 0, 0>>, dur |-> 0, call |-> Idle, evs |-> <<>>,
            nctrl |-> 0, dwell |-> 0, imgs |-> 0, movs |-> 0, gens |-> 0, rst |-> 0,
            rate |-> NoRate, digs |-> <<>>, all |-> <<>>,
            ctrl |-> 0, lastt |-> 0, phase |-> "idle", gen |-> 0]

C(name, ok) == IF ok THEN {} ELSE {name}

GridOk(m) == C("C01:one_silicon", m.nsi = 1)
             \cup C("C01:only_carbon", m.nother = 0)

\* Lengths compare within 1e-3 A, frame coordinates within 5e-5.
TolL == 10
TolU == 50

RECURSIVE SumDwell(_)
SumDwell(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).dwell + SumDwell(Tail(cs))

SameCtrl(a, b) == /\ NearSeq(a.u, b.u, 2) /\ a.dwell = b.dwell
                  /\ Near(a.kv, b.kv, 2) /\ Near(a.na, b.na, 2)
SameCtrls(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameCtrl(a[i], b[i])

VisibleOk(st, sites, fov, atoms) ==
  LET W == {atoms[i].w : i \in DOMAIN atoms}
      Inside == {i \in DOMAIN sites : InFov(sites[i], fov, -2)}
  IN C("C04:no_extra_atom",
         /\ Cardinality(W) = Len(atoms)
         /\ \A i \in DOMAIN atoms : /\ atoms[i].w \in DOMAIN sites
                                    /\ InFov(sites[atoms[i].w], fov, 2))
     \cup C("C04:no_missing_atom", Inside \subseteq W)
     \cup C("C04:mapped", \A i \in DOMAIN atoms : atoms[i].w \in DOMAIN sites =>
              NearSeq(ToMicro(sites[atoms[i].w], fov), <<atoms[i].u, atoms[i].v>>, TolU))

ElementsOk(si, atoms) ==
  C("C04:element", \A i \in DOMAIN atoms : atoms[i].z = IF atoms[i].w = si THEN 14 ELSE 6)
  \cup C("C04:silicon_visible", \E i \in DOMAIN atoms : atoms[i].w = si)

FovResetOk(si, sites, f) ==
  C("C04:square", Near(FovW(f), FovH(f), 2))
  \cup C("C04:size", FovW(f) >= 150000 - 2 /\ FovW(f) <= 300000 + 2)
  \cup C("C04:centred", Centred(sites[si], f, TolL))

FovStepOk(st, si, f) ==
  LET old == st.fov
      p == st.sites[si]
      kept == NearSeq(f, old, 2)
      recentred == Centred(p, f, TolL)
  IN C("C04:size_kept", Near(FovW(f), FovW(old), 4) /\ Near(FovH(f), FovH(old), 4))
     \cup C("C04:kept_when_safe", Safe(p, old, 20) => kept)
     \cup C("C04:recentred_when_unsafe", ~Safe(p, old, -20) => recentred)
     \cup C("C04:kept_or_recentred", kept \/ recentred)

\* ---- what an observer may be told, and when
FailsBegin(st, r) ==
  C("C01:material_untouched_between_calls", r.k = "reset" \/ ~st.ready \/ r.si = st.si)
  \cup C("C01:sites_fixed_between_calls", r.k = "reset" \/ ~st.ready \/ r.moved = 0)

FailsORESET(st, r) ==
  GridOk(r) \cup C("C05:reset_order", st.call.k = "reset" /\ st.rst = 0 /\ st.imgs = 0
                                      /\ st.gens = 0)
FailsOFOV(st, r) ==
  C("C05:fov_order", \/ st.call.k = "reset" /\ st.rst = 1 /\ st.movs = 0 /\ st.imgs = 0
                     \/ st.call.k = "step" /\ st.nctrl = Len(st.call.ctrls)
                        /\ st.movs = 0 /\ st.gens = 0 /\ st.imgs = 1)
\* While dwell time is left, the rates of the present state are in force.
Exposed(st) == C("C02:exposed_until_the_end",
  st.nctrl > 0 /\ st.nctrl <= Len(st.call.ctrls)
    /\ st.lastt < st.call.ctrls[st.nctrl].dwell => st.rate.si = st.si)
FailsOCTRL(st, r) ==
  Exposed(st) \cup
  IF ~(st.call.k = "step" /\ st.nctrl < Len(st.call.ctrls) /\ st.imgs = 0)
  THEN {"C05:control_order"}
  ELSE LET c == st.call.ctrls[st.nctrl + 1]
       IN C("C05:control_dwell", r.dwell = c.dwell)
          \cup C("C05:control_position", NearSeq(r.p, ToMaterial(c.u, st.fov), TolL))
          \cup C("C05:control_beam", Near(r.kv, c.kv, 2) /\ Near(r.na, c.na, 2))
FailsOTRANS(st, r) ==
  C("C05:transition_order", st.call.k = "step" /\ st.nctrl > 0 /\ st.imgs = 0)
  \cup GridOk(r)
  \cup C("C01:sites_fixed", r.moved = 0)
  \cup C("C01:hop_to_neighbour", r.si \in DOMAIN st.sites /\ MayHop(st.sites, st.si, r.si))
  \cup C("C01:offered_successor", \E i \in DOMAIN st.rate.succ : st.rate.succ[i] = r.si)
  \cup C("C01:rates_of_current_state,C02:reevaluated", st.rate.si = st.si)
  \cup (IF st.nctrl > 0 /\ st.nctrl <= Len(st.call.ctrls)
        THEN C("C02:within_dwell,C05:transition_time", r.t <= st.call.ctrls[st.nctrl].dwell /\ r.t >= 0)
        ELSE {})
  \cup C("C02:times_ordered,C05:transition_time", r.t >= st.lastt)
  \cup C("C02:zero_rate_never_picked", \E i \in DOMAIN st.rate.pos : st.rate.pos[i] = r.si)
FailsRATE(st, r) ==
  C("C05:current_material", st.call.k = "step" /\ r.si = st.si)
  \cup (IF st.call.k = "step" /\ st.nctrl > 0 /\ st.nctrl <= Len(st.call.ctrls)
        THEN C("C02:beam_position,C05:beam_position",
               NearSeq(r.p, ToMaterial(st.call.ctrls[st.nctrl].u, st.fov), TolL))
        ELSE {"C05:exposure_announced"})
  \cup C("C01:successors_move_only_silicon", \A i \in DOMAIN r.succ : r.succ[i] # 0)
FailsOIMG(st, r) ==
  (IF st.imgs = 0 THEN Exposed(st) ELSE {}) \cup
  C("C05:image_order", /\ st.imgs = st.movs - (IF st.call.k = "reset" THEN 1 ELSE 0)
                       /\ st.gens = 0
                       /\ st.call.k # "none"
                       /\ st.call.k = "step" => st.nctrl = Len(st.call.ctrls)
                       /\ st.call.k = "reset" => st.rst = 1)
  \cup C("C05:image_fov", NearSeq(r.fov, st.cur, 2))
  \cup C("C05:image_duration", r.dur = st.dur)
FailsOGEN(st, r) ==
  C("C05:generated_order", st.call.image /\ st.gens = 0 /\ st.imgs > 0)

Moved(st, r) == st.call.k = "step" /\ ~NearSeq(r.fov, st.fov, 2)
Images(st, r) == IF Moved(st, r) THEN 2 ELSE 1

SeenOk(st, r) == \A i \in DOMAIN r.seen :
   LET s == r.seen[i] IN IF s.reg THEN s.digs = st.digs ELSE s.digs = <<>>
EventLogOk(st, r) == r.evlog = st.all

FailsEnd(st, r) ==
  LET k == st.call.k
      isReset == k = "reset"
      sites == IF isReset THEN r.sites ELSE st.sites
      si == r.si
      siok == si \in DOMAIN sites
  IN GridOk(r)
     \cup C("C01:sites_fixed", r.moved = 0)
     \cup C("C01:only_transitions_move_silicon,C05:replayed_silicon", si = st.si)
     \cup C("C03:elapsed", r.elapsed = SumDwell(st.call.ctrls) + Images(st, r) * st.dur)
     \cup C("C03:controls_reported", SameCtrls(r.ctrls, st.call.ctrls))
     \cup (IF ~siok THEN {"C01:silicon_on_site"} ELSE
             (IF isReset THEN FovResetOk(si, sites, r.fov) ELSE FovStepOk(st, si, r.fov))
             \cup VisibleOk(st, sites, r.fov, r.atoms) \cup ElementsOk(si, r.atoms))
     \cup C("C05:replayed_fov", NearSeq(r.fov, st.cur, 2))
     \cup C("C05:replayed_clock", r.elapsed = st.dwell + st.imgs * st.dur)
     \cup C("C05:every_control", st.nctrl = Len(st.call.ctrls))
     \cup C("C05:every_image", st.imgs = Images(st, r))
     \cup C("C05:every_fov_change", st.movs = IF isReset \/ Moved(st, r) THEN 1 ELSE 0)
     \cup C("C05:every_reset", st.rst = IF isReset THEN 1 ELSE 0)
     \cup C("C05:generated_image", /\ st.gens = IF st.call.image THEN 1 ELSE 0
                                   /\ r.hasimg = st.call.image
                                   /\ st.call.image => st.gen = r.imgdig)
     \cup C("C05:same_sequence_for_all", SeenOk(st, r))
     \cup C("C05:event_observer", EventLogOk(st, r))
     \cup C("C05:observing_changes_nothing", r.dig = r.twin)

SimFails(st, r) ==
  CASE r.e = "Begin" -> FailsBegin(st, r)
    [] r.e = "ORESET" -> FailsORESET(st, r)
    [] r.e = "OFOV" -> FailsOFOV(st, r)
    [] r.e = "OCTRL" -> FailsOCTRL(st, r)
    [] r.e = "OTRANS" -> FailsOTRANS(st, r)
    [] r.e = "RATE" -> FailsRATE(st, r)
    [] r.e = "OIMG" -> FailsOIMG(st, r)
    [] r.e = "OGEN" -> FailsOGEN(st, r)
    [] r.e = "End" -> FailsEnd(st, r)
    [] OTHER -> {}

\* Everything the EventObserver keeps: all but field of view changes, since
\* the last reset.
Log(st, r) == [st EXCEPT !.digs = Append(@, r.dig),
                         !.all = IF r.e = "ORESET" THEN <<r.dig>>
                                 ELSE IF r.e = "OFOV" THEN @ ELSE Append(@, r.dig)]

SimAfter(st, r) ==
  CASE r.e = "New" -> [SimInit EXCEPT !.dur = r.dur]
    [] r.e = "Begin" ->
         [st EXCEPT !.call = [k |-> r.k, ctrls |-> r.ctrls, image |-> r.image],
                    !.nctrl = 0, !.dwell = 0, !.imgs = 0, !.movs = 0, !.gens = 0,
                    !.rst = 0, !.digs = <<>>, !.lastt = 0, !.gen = 0]
    [] r.e = "ORESET" -> [Log(st, r) EXCEPT !.rst = @ + 1, !.si = r.si, !.cur = r.fov]
    [] r.e = "OFOV" -> [Log(st, r) EXCEPT !.movs = @ + 1, !.cur = r.fov]
    [] r.e = "OCTRL" -> [Log(st, r) EXCEPT !.nctrl = @ + 1, !.dwell = @ + r.dwell, !.lastt = 0,
                                           !.rate = NoRate]
    [] r.e = "OTRANS" -> [Log(st, r) EXCEPT !.si = r.si, !.lastt = r.t, !.rate = NoRate]
    [] r.e = "RATE" -> [st EXCEPT !.rate = [si |-> r.si, succ |-> r.succ, pos |-> r.pos]]
    [] r.e = "OIMG" -> [Log(st, r) EXCEPT !.imgs = @ + 1]
    [] r.e = "OGEN" -> [Log(st, r) EXCEPT !.gens = @ + 1, !.gen = r.img]
    [] r.e = "End" ->
         [st EXCEPT !.sites = IF st.call.k = "reset" THEN r.sites ELSE @,
                    !.si = r.si, !.fov = r.fov, !.cur = r.fov, !.ready = TRUE,
                    !.call = Idle]
    [] OTHER -> st
=============================================================================
