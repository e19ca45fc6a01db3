-------------------------------- MODULE AlignMC --------------------------------
(* Two aligners observe sheets of Sites sites; each keeps its past             *)
(* observations as site positions, estimates the offset from the sites that    *)
(* the views share, shifts, merges, and forgets.  Every observation has to be  *)
(* accepted, and without a limit on the shift everything stays in the frame of *)
(* the first observation.  Sequences are printed for the driver.               *)
EXTENDS Align, Json
CONSTANTS MaxOps, Offsets, Sites, Keep, Clips, Generate
VARIABLES al, acc, fails, n, h, lim, base, drops
vars == <<al, acc, fails, n, h, lim, base, drops>>
AL == 1..2
All == 1..Sites
\* With limited shifts views drift apart; then only one is kept.
KeepOf == IF lim < 30000 THEN 1 ELSE Keep
Unit == 1000
Vec(o) == <<o * Unit, -o * Unit>>
Off(k) == IF k = 3 THEN 3 ELSE -k
\* An observation as stored: a function from its sites to their displacement.
Shown(v) == IF v = 0 THEN All ELSE All \ {v}
Max3(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == /\ al = [i \in AL |-> <<>>] /\ n = 0 /\ h = <<>> /\ fails = {} /\ lim \in Clips /\ base = [i \in AL |-> <<0, 0>>]
        /\ drops = 0
        /\ acc = [al |-> [i \in AL |-> [keep |-> KeepOf, clip |-> lim, joined |-> FALSE, hist |-> <<>>]]]
Feed(r) == fails' = AlignFails(acc, r) /\ acc' = AlignAfter(acc, r)
Go(op) == n < MaxOps /\ n' = n + 1 /\ h' = (IF Generate THEN Append(h, op) ELSE h) /\ UNCHANGED lim
DispAt(o, s) == o[s]
Has(o, s) == s \in DOMAIN o
\* The reference point of a site: the latest stored view that has it.
Ref(obs, s) == LET k == Max3({q \in DOMAIN obs : Has(obs[q], s)}) IN obs[k][s]
MeanOf(obs, s) == LET K == {q \in DOMAIN obs : Has(obs[q], s)} IN
  [sum |-> LET RECURSIVE Go2(_) Go2(q) == IF q = 0 THEN <<0, 0>> ELSE LET t == Go2(q - 1) IN IF q \in K THEN Add2(t, obs[q][s]) ELSE t IN Go2(Len(obs)),
   n |-> Cardinality(K)]
Observe(i, ko, v) ==
  /\ Go([op |-> "O", i |-> i, o |-> Off(ko), v |-> v])
  /\ LET o == Off(ko)
         sites == Shown(v)
         shared == {s \in sites : \E q \in DOMAIN al[i] : Has(al[i][q], s)}
         s0 == CHOOSE s \in shared : TRUE
         full == IF al[i] = <<>> \/ shared = {} THEN <<0, 0>> ELSE Sub2(Ref(al[i], s0), Vec(o))
         ap == Clipped(full, lim)
         view == [s \in sites |-> Add2(Vec(o), ap)]
         obs == Append(al[i], view)
         seen == UNION {DOMAIN obs[q] : q \in DOMAIN obs}
         zs == [k \in 1..Cardinality(sites) |-> 6]
         RECURSIVE Asc(_)
         Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o Asc(S \ {m})
         out == [k \in 1..Cardinality(seen) |-> LET s == Asc(seen)[k] t == MeanOf(obs, s) IN <<s, t.sum[1] \div t.n, t.sum[2] \div t.n, 6>>]
     IN /\ shared # {} \/ al[i] = <<>>
        /\ al' = [al EXCEPT ![i] = IF Len(obs) > KeepOf THEN SubSeq(obs, Len(obs) - KeepOf + 1, Len(obs)) ELSE obs]
        /\ base' = [base EXCEPT ![i] = IF al[i] = <<>> THEN Vec(o) ELSE @]
        /\ Feed([e |-> "Obs", i |-> i, off |-> Vec(o), sites |-> Asc(sites), z |-> zs, out |-> out,
                 shift |-> Neg2(ap), kept |-> Min2(Len(obs), KeepOf), was |-> <<>>, now |-> <<>>, raised |-> FALSE])
  /\ UNCHANGED drops
ResetOp(i) ==
  /\ Go([op |-> "R", i |-> i, o |-> 0, v |-> 0])
  /\ al' = [al EXCEPT ![i] = <<>>] /\ base' = [base EXCEPT ![i] = <<0, 0>>]
  /\ Feed([e |-> "Reset", i |-> i]) /\ UNCHANGED drops
LostOp(i) ==
  /\ Go([op |-> "L", i |-> i, o |-> 0, v |-> 0])
  /\ drops < 2 /\ drops' = drops + 1
  /\ al' = [al EXCEPT ![i] = <<>>] /\ base' = [base EXCEPT ![i] = <<0, 0>>]
  /\ Feed([e |-> "Lost", i |-> i, told |-> Vec(i), shift |-> Vec(i), out |-> <<>>, raised |-> FALSE])
MoveOp(i, o) ==
  /\ Go([op |-> "M", i |-> i, o |-> o, v |-> 0])
  /\ o # 0 /\ drops < 2 /\ drops' = drops + 1
  /\ al' = [al EXCEPT ![i] = [k \in DOMAIN @ |-> [s \in DOMAIN @[k] |-> Add2(@[k][s], Vec(o))]]]
  /\ base' = [base EXCEPT ![i] = Add2(@, Vec(o))]
  /\ Feed([e |-> "Move", i |-> i, by |-> Vec(o)])
Next == \/ \E i \in AL : \E k \in Offsets : \E v \in 0..1 : Observe(i, k, v)
        \/ \E i \in AL : ResetOp(i)
        \/ \E i \in AL : LostOp(i)
        \/ \E i \in AL : \E o \in {1, -1} : MoveOp(i, o)
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
Big == 30000
FirstFrame == lim >= Big => \A i \in AL : \A k \in DOMAIN al[i] : \A s \in DOMAIN al[i][k] : al[i][k][s] = base[i]
Bounded == \A i \in AL : Len(al[i]) <= Keep
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
