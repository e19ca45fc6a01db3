------------------------------ MODULE ProtoTrace ------------------------------
EXTENDS Harness, Proto
TInit == ProtoInit
TFails(s, r) == ProtoFails(s, r)
TAfter(s, r) == ProtoAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Trip" -> {r.kind}
         \cup (IF r.kind # "tr" THEN {} ELSE
               Tag("label_without_image", (r.a.image0 = "none" /\ r.a.label0 # "none")
                                          \/ (r.a.image1 = "none" /\ r.a.label1 # "none"))
               \cup Tag("image_without_label", r.a.image0 # "none" /\ r.a.label0 = "none"))
         \cup (IF r.kind # "control" THEN {} ELSE Tag("no_voltage", r.a.kv = <<>>) \cup Tag("no_current", r.a.na = <<>>))
         \cup (IF r.kind # "grid" THEN {} ELSE Tag("empty_grid", r.a = <<>>))
         \cup (IF r.kind # "traj" THEN {} ELSE Tag("empty_trajectory", r.a = <<>>))
    [] r.e = "Write" -> IF r.good THEN {"write"} \cup Tag("overwrite", \E x \in s.files : x[1] = r.file) ELSE {"bad_write"}
    [] r.e = "Read" -> IF r.good THEN (IF r.raw THEN {"raw"} ELSE {"typed"}) ELSE {"bad_read"}
    [] OTHER -> {}
=============================================================================
