--------------------------------- MODULE Proto ---------------------------------
(* Serialised data comes back equal.  Objects are logged structurally:        *)
(*   grid: <<[p, z], ...>>   control: [p, dwell, kv, na] ("none" = absent)    *)
(*   obs: [grid, fov, controls, t, image, label]   image: "none" or identity  *)
(*   tr (transition), traj (sequence of obs), drift, lab                      *)
(* and record files as the sequence of the identities written to them.        *)
EXTENDS Fixed, FiniteSets

PC(name, ok) == IF ok THEN {} ELSE {name}
ProtoInit == [files |-> {}]                 \* <<name, content>> of files written

N(a, b) == Near(a, b, 3 + Abs(a) \div 3000000)
NN(a, b) == /\ Len(a) = Len(b) /\ \A i \in DOMAIN a : N(a[i], b[i])
\* An optional number is a sequence of length 0 or 1.
SameGrid(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in DOMAIN a : a[i].z = b[i].z /\ NN(a[i].p, b[i].p)
SameControl(a, b) == /\ NN(a.p, b.p) /\ N(a.dwell, b.dwell) /\ NN(a.kv, b.kv) /\ NN(a.na, b.na)
SameControls(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameControl(a[i], b[i])

ObsFails(a, b) ==
  PC("C12:grid", SameGrid(a.grid, b.grid)) \cup PC("C12:field_of_view", NN(a.fov, b.fov))
  \cup PC("C12:controls", SameControls(a.controls, b.controls))
  \cup PC("C12:elapsed_time", N(a.t, b.t)) \cup PC("C12:image", a.image = b.image)
  \cup PC("C12:label_image", a.label = b.label)
TrajFails(a, b) == IF Len(a) # Len(b) THEN {"C12:number_of_observations"}
                   ELSE UNION {ObsFails(a[i], b[i]) : i \in DOMAIN a}
DriftFails(a, b) == PC("C12:drift", NN(a.d, b.d))
                    \cup PC("C12:jitter", Len(a.j) = Len(b.j) /\ \A i \in DOMAIN a.j : NN(a.j[i], b.j[i]))

ObjFails(kind, a, b) ==
  CASE kind = "grid" -> PC("C12:grid", SameGrid(a, b))
    [] kind = "control" -> PC("C12:controls", SameControl(a, b))
    [] kind = "fov" -> PC("C12:field_of_view", NN(a, b))
    [] kind = "obs" -> ObsFails(a, b)
    [] kind = "tr" ->
         PC("C12:grid", SameGrid(a.grid0, b.grid0) /\ SameGrid(a.grid1, b.grid1))
         \cup PC("C12:field_of_view", NN(a.fov0, b.fov0) /\ NN(a.fov1, b.fov1))
         \cup PC("C12:controls", SameControls(a.controls, b.controls))
         \cup PC("C12:image", a.image0 = b.image0 /\ a.image1 = b.image1)
         \cup PC("C12:label_image", a.label0 = b.label0 /\ a.label1 = b.label1)
    [] kind = "traj" -> TrajFails(a, b)
    [] kind = "drift" -> DriftFails(a, b)
    [] kind = "lab" -> TrajFails(a.traj, b.traj)
         \cup (IF Len(a.drifts) # Len(b.drifts) THEN {"C12:drift"}
               ELSE UNION {DriftFails(a.drifts[i], b.drifts[i]) : i \in DOMAIN a.drifts})

\* A round trip through the message and one through bytes.
TripFails(r) ==
  IF r.raised THEN {"C12:raises"}
  ELSE ObjFails(r.kind, r.a, r.msg) \cup ObjFails(r.kind, r.a, r.bytes)
       \cup PC("C12:object_untouched", r.kept)

Content(st, f) == (CHOOSE x \in st.files : x[1] = f)[2]
FileFails(st, r) ==
  CASE r.e = "Write" -> IF r.good THEN PC("C12:write", ~r.raised)
                        ELSE PC("C12:unknown_extension", r.raised)
    [] r.e = "Read" -> IF ~r.good THEN PC("C12:unknown_extension", r.raised)
                       ELSE IF r.raised THEN {"C12:read"}
                       ELSE LET want == Content(st, r.file) IN
                            PC("C12:record_count", Len(r.items) = Len(want))
                            \cup PC("C12:record_type", r.typed)
                            \cup (IF Len(r.items) # Len(want) THEN {}
                                  ELSE IF r.raw THEN PC("C12:raw_records", r.items = [i \in DOMAIN want |-> want[i].raw])
                                  ELSE UNION {ObjFails(r.kind, want[i].a, r.items[i]) : i \in DOMAIN want})
    [] OTHER -> {}

ProtoFails(st, r) == CASE r.e = "Trip" -> TripFails(r)
                       [] r.e \in {"Write", "Read"} -> FileFails(st, r)
                       [] OTHER -> {}
ProtoAfter(st, r) ==
  CASE r.e = "New" -> ProtoInit
    [] r.e = "Write" /\ r.good -> [files |-> {x \in st.files : x[1] # r.file} \cup {<<r.file, r.items>>}]
    [] OTHER -> st
=============================================================================
