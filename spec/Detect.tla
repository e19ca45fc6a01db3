--------------------------------- MODULE Detect ---------------------------------
(* Atoms found in a picture that has been told apart into blobs.  Lengths in    *)
(* 1e-2 pixels from the picture's upper left corner.                            *)
(*   New   size <<width, height>>                                               *)
(*   Add z pos / Drop k / Size size        change the picture (Size clears it)  *)
(*   Find  via, buf (1e-4 of the picture), out: <<z, x, y>>, kept, seen         *)
EXTENDS Fixed, FiniteSets

DC(name, ok) == IF ok THEN {} ELSE {name}
DetectInit == [size |-> <<1, 1>>, blobs |-> <<>>]
DDrop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
DetectAfter(st, r) ==
  CASE r.e \in {"New", "Size"} -> [size |-> r.size, blobs |-> <<>>]
    [] r.e = "Add" -> [st EXCEPT !.blobs = Append(@, <<r.z, r.pos[1], r.pos[2]>>)]
    [] r.e = "Drop" -> [st EXCEPT !.blobs = DDrop(@, r.k)]
    [] OTHER -> st

\* Far enough (by d) inside the border that is ignored.
In(st, b, buf, d) == \A i \in {1, 2} : LET m == (st.size[i] * buf) \div 10000 IN b[i + 1] - m > d /\ st.size[i] - m - b[i + 1] > d
Exact == 200
Found(b, o) == b[1] = o[1] /\ Near(b[2], o[2], Exact) /\ Near(b[3], o[3], Exact)
FindFails(st, r) ==
  IF r.raised THEN {"C30:raises"} ELSE
  LET B == DOMAIN st.blobs O == DOMAIN r.out IN
  DC("C30:every_atom_found_once",
     \A k \in B : LET c == Cardinality({o \in O : Found(st.blobs[k], r.out[o])}) IN
                  /\ In(st, st.blobs[k], r.buf, Exact) => c = 1
                  /\ c <= 1)
  \cup DC("C30:nothing_else_found", \A o \in O : \E k \in B : Found(st.blobs[k], r.out[o]))
  \cup DC("C30:border_is_ignored", r.buf > 0 => \A o \in O : In(st, r.out[o], r.buf, -2))
  \cup DC("C30:input_unchanged", r.kept)
  \cup DC("C30:what_the_model_is_shown", r.seen)
DetectFails(st, r) == IF r.e = "Find" THEN FindFails(st, r) ELSE {}
===============================================================================
