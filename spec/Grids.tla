--------------------------------- MODULE Grids ---------------------------------
(* Comparing, hashing and shifting grids.  A grid is a sequence of atoms       *)
(* <<x, y, element>>; lengths are in units of 1e-5 so that a thousandth is 100. *)
(*   Eq     a, b -> ab, ba, ne (a # b), twin hashes ha, hb                      *)
(*   Hash   hs: hashes of the same grid with its atoms in different orders      *)
(*   Shift  a, by -> out, kept                                                  *)
EXTENDS Fixed, FiniteSets, TLC

GC(name, ok) == IF ok THEN {} ELSE {name}
GridsInit == [none |-> 0]
Tenth == 100
Close(p, q) == LET dx == Abs(p[1] - q[1]) dy == Abs(p[2] - q[2]) IN
  dx <= Tenth /\ dy <= Tenth /\ (dx * dx) + (dy * dy) <= Tenth * Tenth
Covers(a, b) == \A i \in DOMAIN b : \E j \in DOMAIN a : a[j][3] = b[i][3] /\ Close(a[j], b[i])
Same(a, b) == Len(a) = Len(b) /\ Covers(a, b) /\ Covers(b, a)

EqFails(r) ==
  IF r.raised THEN {"C23:comparison_raises"}
  ELSE LET s == Same(r.a, r.b) IN
       GC("C23:equal_grids_differ", s => r.ab /\ r.ba)
       \cup GC("C23:different_grids_equal", ~s => ~r.ab /\ ~r.ba)
       \cup GC("C23:symmetric", r.ab = r.ba)
       \cup GC("C23:not_equal_is_the_opposite", r.ne = ~r.ab)
       \cup GC("C23:reflexive", r.aa)
       \cup GC("C23:inputs_unmodified", r.kept)
HashFails(r) == IF r.raised THEN {"C23:hash_raises"}
                ELSE GC("C23:hash_ignores_order", \A i, j \in DOMAIN r.hs : r.hs[i] = r.hs[j])
                     \cup GC("C23:orders_are_equal", r.eq)
ShiftFails(r) ==
  IF r.raised THEN {"C23:shift_raises"}
  ELSE GC("C23:shift_translates", /\ Len(r.out) = Len(r.a)
            /\ \A i \in DOMAIN r.a : /\ Near(r.out[i][1], r.a[i][1] + r.by[1], 3)
                                     /\ Near(r.out[i][2], r.a[i][2] + r.by[2], 3)
                                     /\ r.out[i][3] = r.a[i][3])
       \cup GC("C23:inputs_unmodified", r.kept)
GridsFails(st, r) == CASE r.e = "Eq" -> EqFails(r) [] r.e = "Hash" -> HashFails(r) [] r.e = "Shift" -> ShiftFails(r) [] OTHER -> {}
GridsAfter(st, r) == st
===============================================================================
