-------------------------------- MODULE DetectMC --------------------------------
(* A picture of cells is painted on and cleaned; a detector goes through it row  *)
(* by row, reports what it finds in units of the picture from its lower left,    *)
(* and leaves out the border.  With a Fault, what it finds is not accepted.      *)
EXTENDS Detect, Json, TLC
CONSTANTS MaxOps, Fault, Generate
VARIABLES st, img, n, h
vars == <<st, img, n, h>>
W == 5
H == 3
Cell == 1200
Blank == [i \in 1..H |-> [j \in 1..W |-> 0]]
Init == img = Blank /\ n = 0 /\ h = <<>> /\ st = [DetectInit EXCEPT !.size = <<W * Cell, H * Cell>>]
Do(op, r) == n < MaxOps /\ n' = n + 1 /\ h' = Append(h, op) /\ (IF Generate THEN UNCHANGED st ELSE st' = DetectAfter(st, r))
Free(i, j) == \A a \in 1..H, b \in 1..W : Abs(a - i) <= 1 /\ Abs(b - j) <= 1 => img[a][b] = 0
Paint(z) == \E i \in 1..H, j \in 1..W :
  /\ Free(i, j) /\ (Generate => i = 1 /\ j = 1)
  /\ Do(IF z = 6 THEN "C" ELSE "S", [e |-> "Add", z |-> z, pos |-> <<j * Cell - Cell \div 2, i * Cell - Cell \div 2>>])
  /\ IF Generate THEN UNCHANGED img ELSE img' = [img EXCEPT ![i][j] = z]
Carbon == Paint(6)
Silicon == Paint(14)
Clean == /\ Generate \/ st.blobs # <<>>
         /\ Do("D", [e |-> "Drop", k |-> 1])
         /\ IF Generate THEN UNCHANGED img
            ELSE img' = [img EXCEPT ![(st.blobs[1][3] + Cell \div 2) \div Cell][(st.blobs[1][2] + Cell \div 2) \div Cell] = 0]
Fresh == Do("Z", [e |-> "Size", size |-> <<W * Cell, H * Cell>>]) /\ img' = Blank
Next == Carbon \/ Silicon \/ Clean \/ Fresh
Spec == Init /\ [][Next]_vars
View == <<st, img, n>>

\* In units of the picture, in 1e-5, from the lower left.
Unit(i, j) == LET x == j * Cell - Cell \div 2 y == i * Cell - Cell \div 2
                  w == IF Fault = "swapped" THEN H * Cell ELSE W * Cell
                  v == IF Fault = "swapped" THEN W * Cell ELSE H * Cell
              IN CASE Fault = "corner" -> <<0, 100000>>
                   [] Fault = "upside_down" -> <<(x * 100000) \div w, (y * 100000) \div v>>
                   [] OTHER -> <<(x * 100000) \div w, 100000 - (y * 100000) \div v>>
RECURSIVE Scan(_, _)
Scan(k, buf) ==
  IF k = 0 THEN <<>>
  ELSE LET i == ((k - 1) \div W) + 1 j == ((k - 1) % W) + 1 u == Unit(i, j) b == buf * 10 IN
       Scan(k - 1, buf) \o (IF img[i][j] # 0 /\ \A q \in {1, 2} : u[q] > b /\ u[q] < 100000 - b
                            THEN LET o == <<img[i][j], (u[1] * W * Cell) \div 100000, H * Cell - (u[2] * H * Cell) \div 100000>> IN
                                 IF Fault = "double" THEN <<o, o>> ELSE <<o>>
                            ELSE <<>>)
Accepted == \A buf \in {0, 500, 2000} :
  FindFails(st, [raised |-> FALSE, buf |-> buf, out |-> Scan(W * H, IF Fault = "no_border" THEN 0 ELSE buf), kept |-> TRUE, seen |-> TRUE]) = {}
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
