------------------------------- MODULE ImagingMC -------------------------------
(* A camera in front of a material of 1 A wide cells, one pixel to a cell.     *)
(* The camera paints its raster from the lower left, atom by atom, and then    *)
(* turns it over.  Whatever happens to the scene, what it shows is accepted,   *)
(* and reading the picture back gives the atoms in view.  With a Fault, not.   *)
EXTENDS Imaging, Json
CONSTANTS MaxOps, Fault, Generate
VARIABLES st, cells, at, n, h
vars == <<st, cells, at, n, h>>
W == 3
H == 2
Fov(p) == <<1000 * p[1], 1000 * p[2], 1000 * W, 1000 * H>>
Init == /\ cells = {} /\ at = <<0, 0>> /\ n = 0 /\ h = <<>>
        /\ st = [ImagingInit EXCEPT !.fov = Fov(<<0, 0>>)]
Do(op, r) == ~Generate /\ n < MaxOps /\ n' = n + 1 /\ h' = Append(h, op) /\ st' = ImagingAfter(st, r)
AddAtom(z) == \E x \in 0..W, y \in 0..H :
  /\ \A c \in cells : <<c[2], c[3]>> # <<x, y>>
  /\ Do(IF z = 6 THEN "C" ELSE "S", [e |-> "Add", z |-> z, pos |-> <<1000 * x + 500, 1000 * y + 500>>])
  /\ cells' = cells \cup {<<z, x, y>>} /\ UNCHANGED at
Remove == /\ st.atoms # <<>> /\ Do("D", [e |-> "Drop", k |-> 1])
          /\ cells' = {c \in cells : <<c[1], 1000 * c[2] + 500, 1000 * c[3] + 500>> # st.atoms[1]} /\ UNCHANGED at
Move == \E d \in {<<1, 0>>, <<0, 1>>, <<-1, -1>>} :
          /\ Do("P", [e |-> "Pan", d |-> <<1000 * d[1], 1000 * d[2]>>]) /\ at' = <<at[1] + d[1], at[2] + d[2]>> /\ UNCHANGED cells
Zoom == /\ Do("Z", [e |-> "View", fov |-> Fov(<<0, 0>>)]) /\ at' = <<0, 0>> /\ UNCHANGED cells
Abstract == /\ Generate /\ \E op \in {"C", "S", "D", "P", "Z"} : n < MaxOps /\ n' = n + 1 /\ h' = Append(h, op) /\ UNCHANGED <<st, cells, at>>
Carbon == AddAtom(6)
Silicon == AddAtom(14)
Next == Carbon \/ Silicon \/ Remove \/ Move \/ Zoom \/ Abstract
Spec == Init /\ [][Next]_vars
View == <<st, cells, at, n>>
\* The camera.
Raster == [x \in 0..(W - 1) |-> [y \in 0..(H - 1) |->
             LET s == IF Fault = "pan" THEN -1 ELSE 1
                 C == {c \in cells : c[2] - s * at[1] = x /\ c[3] - s * at[2] = y}
             IN IF C = {} THEN 0 ELSE (CHOOSE c \in C : TRUE)[1]]]
Picture == CASE Fault = "unflipped" -> [i \in 1..H |-> [j \in 1..W |-> Raster[j - 1][i - 1]]]
             [] Fault = "mirrored" -> [i \in 1..H |-> [j \in 1..W |-> Raster[W - j][H - i]]]
             [] Fault = "transposed" -> [i \in 1..W |-> [j \in 1..H |-> Raster[i - 1][j - 1]]]
             [] OTHER -> [i \in 1..H |-> [j \in 1..W |-> Raster[j - 1][H - i]]]
Accepted == MaskFails(st, [raised |-> FALSE, size |-> <<W, H>>, exp |-> 17, img |-> Picture, kept |-> TRUE, again |-> TRUE]) = {}
\* Reading it back, pixel by pixel.
Read == {<<Picture[i][j], (ColX(st.fov, W, j) - 500) \div 1000, (RowY(st.fov, H, i) - 500) \div 1000>> : i \in 1..H, j \in 1..W}
ReadBack == Fault = "none" => {c \in Read : c[1] # 0} = {c \in cells : c[2] - at[1] \in 0..(W - 1) /\ c[3] - at[2] \in 0..(H - 1)}
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
