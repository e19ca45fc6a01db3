------------------------------- MODULE ProtoMC -------------------------------
(* Objects of one kind with any combination of their optional parts are put   *)
(* together, written to a record file (replacing it), and read back as        *)
(* objects or as raw bytes.  The wire format is modelled as the set of fields *)
(* that are present in a message.  Histories are printed for replay: "P3" =   *)
(* an object whose optional parts are the bits of 3.                          *)
EXTENDS Proto, TLC, Json
CONSTANTS Kinds, Depth, MaxPut, Generate
VARIABLES kind, pending, file, hist, st, fails, id
vars == <<kind, pending, file, hist, st, fails, id>>
Bits(k) == CASE k = "tr" -> 0..15 [] k \in {"obs", "control"} -> 0..3 [] OTHER -> {0}
Bit(m, i) == (m \div i) % 2 = 1
Im(m, i, n) == IF Bit(m, i) THEN "im" \o ToString(n) ELSE "none"
Opt(m, i, n) == IF Bit(m, i) THEN <<n>> ELSE <<>>
G == <<[p |-> <<1, 2>>, z |-> 14]>>
Obj(k, m, n) ==
  CASE k = "tr" -> [grid0 |-> G, grid1 |-> <<>>, fov0 |-> <<n>>, fov1 |-> <<4>>, controls |-> <<>>,
                    image0 |-> Im(m, 1, n), image1 |-> Im(m, 2, n), label0 |-> Im(m, 4, n), label1 |-> Im(m, 8, n)]
    [] k = "obs" -> [grid |-> G, fov |-> <<n>>, controls |-> <<>>, t |-> n, image |-> Im(m, 1, n), label |-> Im(m, 2, n)]
    [] k = "control" -> [p |-> <<n, 2>>, dwell |-> n, kv |-> Opt(m, 1, 60), na |-> Opt(m, 2, 1)]
    [] k = "drift" -> [d |-> <<n, 2>>, j |-> <<>>]
\* The wire: fields that are present, by name.
Fields(k) == CASE k = "tr" -> {"image0", "image1", "label0", "label1"} [] k = "obs" -> {"image", "label"}
               [] k = "control" -> {"kv", "na"} [] OTHER -> {}
Absent(k) == IF k = "control" THEN <<>> ELSE "none"
Encode(k, o) == [rest |-> o, there |-> {f \in Fields(k) : o[f] # Absent(k)}]
Decode(k, w) == [f \in DOMAIN w.rest |-> IF f \in Fields(k) /\ f \notin w.there THEN Absent(k) ELSE w.rest[f]]
Init == /\ kind \in Kinds /\ pending = <<>> /\ file = <<>> /\ hist = <<>> /\ st = ProtoInit /\ fails = {} /\ id = 0
Put(m) ==
  /\ m \in Bits(kind) /\ Len(hist) < Depth /\ Len(pending) < MaxPut
  /\ LET o == Obj(kind, m, id + 1) w == Encode(kind, o) b == Decode(kind, w) IN
     /\ pending' = Append(pending, [a |-> o, raw |-> ToString(id + 1), w |-> w])
     /\ fails' = ProtoFails(st, [e |-> "Trip", kind |-> kind, raised |-> FALSE, a |-> o, msg |-> b, bytes |-> b, kept |-> TRUE])
  /\ id' = id + 1
  /\ hist' = Append(hist, "P" \o ToString(m)) /\ UNCHANGED <<kind, file, st>>
Write == /\ Len(hist) < Depth /\ (hist # <<>> => hist[Len(hist)] # "W")
         /\ file' = [i \in DOMAIN pending |-> pending[i].w]
         /\ LET r == [e |-> "Write", file |-> "f", good |-> TRUE, raised |-> FALSE, items |-> pending] IN
            fails' = ProtoFails(st, r) /\ st' = ProtoAfter(st, r)
         /\ pending' = <<>> /\ hist' = Append(hist, "W") /\ UNCHANGED <<kind, id>>
ReadBack == /\ Len(hist) < Depth /\ st.files # {} /\ hist[Len(hist)] # "R"
        /\ fails' = ProtoFails(st, [e |-> "Read", file |-> "f", kind |-> kind, good |-> TRUE, raised |-> FALSE, raw |-> FALSE,
                                    typed |-> TRUE, items |-> [i \in DOMAIN file |-> Decode(kind, file[i])]])
        /\ hist' = Append(hist, "R") /\ UNCHANGED <<kind, pending, file, st, id>>
Next == (\E m \in 0..15 : Put(m)) \/ Write \/ ReadBack
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
\* Absent stays absent, present stays present, each part independently.
Independent == \A i \in DOMAIN pending : LET p == pending[i] IN
  \A f \in Fields(kind) : f \in p.w.there <=> p.a[f] # Absent(kind)
ReadsLastWrite == st.files # {} => Len(file) = Len(Content(st, "f"))
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist, kind |-> kind]))
=============================================================================
