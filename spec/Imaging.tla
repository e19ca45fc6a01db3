-------------------------------- MODULE Imaging --------------------------------
(* Pictures of a scene.  The scene is a set of atoms on the material and a     *)
(* field of view, both in 1e-3 A; row 1 of a picture is its top row.           *)
(*   New / Add z pos / Drop k / Pan d / View fov     change the scene          *)
(*   Mask   size <<columns, rows>>, exp, img        element of every pixel     *)
(*   Clean  size, exp, buf (1e-2 of the picture), img    brightness, in 1e-4   *)
(*   Noisy  size, shape, lo, hi, finite, again, kept                           *)
(*   Step   how, amt, img, out                      one of the noises, in 1e-4 *)
EXTENDS Fixed, TLC, FiniteSets

IC(name, ok) == IF ok THEN {} ELSE {name}
ImagingInit == [atoms |-> <<>>, fov |-> <<0, 0, 1000, 1000>>]

Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
ImagingAfter(st, r) ==
  CASE r.e = "New" -> [atoms |-> <<>>, fov |-> r.fov]
    [] r.e = "Add" -> [st EXCEPT !.atoms = Append(@, <<r.z, r.pos[1], r.pos[2]>>)]
    [] r.e = "Drop" -> [st EXCEPT !.atoms = Drop(@, r.k)]
    [] r.e = "Pan" -> [st EXCEPT !.fov = <<@[1] + r.d[1], @[2] + r.d[2], @[3], @[4]>>]
    [] r.e = "View" -> [st EXCEPT !.fov = r.fov]
    [] OTHER -> st

\* Weight of an element relative to carbon's (1e-3): (Z / 6) ^ exp.
Weight(z, e) == IF z = 6 THEN 1000
                ELSE CASE e = 10 -> 2333 [] e = 14 -> 3275 [] e = 17 -> 4222 [] OTHER -> 5444

\* Centres of the pixels of column c and row r, c and r from 1, in 1e-3 A.
ColX(f, w, c) == f[1] + ((2 * c - 1) * f[3]) \div (2 * w)
RowY(f, h, r) == f[2] + f[4] - ((2 * r - 1) * f[4]) \div (2 * h)
\* The mask of an atom is a disc of squared radius 0.1 A^2 times its weight.
Disc(a, e) == 100 * Weight(a[1], e)
Close(a, x, y) == Abs(x - a[2]) <= 1000 /\ Abs(y - a[3]) <= 1000
Gap(a, x, y) == (x - a[2]) * (x - a[2]) + (y - a[3]) * (y - a[3])
MaskPixel(st, e, x, y, v) ==
  LET near == {k \in DOMAIN st.atoms : Close(st.atoms[k], x, y) /\ Gap(st.atoms[k], x, y) < Disc(st.atoms[k], e) + 3000}
  IN \/ \E k \in near : st.atoms[k][1] = v
     \/ v = 0 /\ \A k \in near : Gap(st.atoms[k], x, y) > Disc(st.atoms[k], e) - 3000
Rectangle(img, w, h) == Len(img) = h /\ \A r \in 1..h : Len(img[r]) = w
MaskFails(st, r) ==
  LET w == r.size[1] h == r.size[2] IN
  IF r.raised THEN {"C29:raises"}
  ELSE IF ~Rectangle(r.img, w, h) THEN {"C29:size_of_mask"}
  ELSE IC("C29:mask_shows_atoms_where_they_are",
          \A i \in 1..h : \A j \in 1..w : MaskPixel(st, r.exp, ColX(st.fov, w, j), RowY(st.fov, h, i), r.img[i][j]))
       \cup IC("C29:input_unchanged", r.kept) \cup IC("C29:repeatable", r.again)

\* exp(-q), q in 1e-4, result in 1e-5.
ExpWhole == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1, 0>>
Taylor(f) == LET s == 200000
                 e6 == s - (f * s) \div 60000
                 e5 == s - (f * e6) \div 50000
                 e4 == s - (f * e5) \div 40000
                 e3 == s - (f * e4) \div 30000
                 e2 == s - (f * e3) \div 20000
             IN s - (f * e2) \div 10000
Decay(q) == IF q >= 100000 THEN 0 ELSE (Taylor(q % 10000) * ExpWhole[q \div 10000 + 1]) \div 20000

\* Pixels (from 0, of the part that is shown) of a coordinate: the histogram
\* covers the picture and a border of `buf` percent of it all around.
Pixel(x, lo, len, size, buf) ==
  LET bw == (buf * size) \div 100
      all == size + 2 * bw
      p == (((x - lo) * 100 + buf * len) * all) \div ((100 + 2 * buf) * len)
  IN (IF (x - lo) * 100 = (100 + buf) * len THEN p - 1 ELSE p) - bw
Counted(x, lo, len, buf) == (x - lo) * 100 + buf * len >= 0 /\ (x - lo) * 100 <= (100 + buf) * len
\* Gaussians of standard deviation 1 / 2.15 A, n pixels of size len / size away.
Bell(n, len, size) == LET t == (Abs(n) * len * 10) \div size IN
                      IF t > 30000 THEN 0 ELSE Decay((((t * t) \div 10000) * 23112) \div 10000)
CleanFails(st, r) ==
  LET s == r.size f == st.fov
      D == {k \in DOMAIN st.atoms : Counted(st.atoms[k][2], f[1], f[3], r.buf) /\ Counted(st.atoms[k][3], f[2], f[4], r.buf)}
      col == [k \in D |-> Pixel(st.atoms[k][2], f[1], f[3], s, r.buf)]
      row == [k \in D |-> s - 1 - Pixel(st.atoms[k][3], f[2], f[4], s, r.buf)]
      gx == [k \in D |-> [c \in 1..s |-> Bell(c - 1 - col[k], f[3], s)]]
      gy == [k \in D |-> [i \in 1..s |-> Bell(i - 1 - row[k], f[4], s)]]
      one == [k \in D |-> [i \in 1..s |-> [c \in 1..s |->
               ((((gx[k][c] \div 10) * (gy[k][i] \div 10)) \div 1000) * Weight(st.atoms[k][1], r.exp)) \div 1000]]]
      RECURSIVE Sum(_, _, _)
      Sum(K, i, c) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN one[k][i][c] + Sum(K \ {k}, i, c)
      all == [i \in 1..s |-> [c \in 1..s |-> Sum(D, i, c)]]
      top == LET T == {all[i][c] : i \in 1..s, c \in 1..s} IN CHOOSE m \in T : \A t \in T : t <= m
  IN
  IF r.raised THEN {"C29:raises"}
  ELSE IF ~Rectangle(r.img, s, s) THEN {"C29:size_of_image"}
  ELSE LET flat == {r.img[i][c] : i \in 1..s, c \in 1..s} IN
       IC("C29:image_shows_atoms_where_they_are",
          top > 1000 => \A i \in 1..s : \A c \in 1..s : Near(r.img[i][c], Ratio6(all[i][c], top) \div 100, 30 + 500000 \div top))
       \cup IC("C29:normalised", /\ \A v \in flat : 0 <= v /\ v <= 10000
                                 /\ top > 1000 => 10000 \in flat
                                 /\ D = {} => flat = {0})
       \cup IC("C29:input_unchanged", r.kept) \cup IC("C29:repeatable", r.again)

NoisyFails(st, r) ==
  IF r.raised THEN {"C29:raises"}
  ELSE IC("C29:size_of_image", r.shape = <<r.size, r.size>>)
       \cup IC("C29:between_zero_and_one", r.finite /\ 0 <= r.lo /\ r.lo <= r.hi /\ r.hi <= 10000)
       \cup IC("C29:repeatable", r.again) \cup IC("C29:input_unchanged", r.kept)

Values(img) == UNION {{img[i][c] : c \in DOMAIN img[i]} : i \in DOMAIN img}
Top(img) == CHOOSE m \in Values(img) : \A v \in Values(img) : v <= m
Rolled(a, b) == \E k \in 0..(Len(a) - 1) : \A c \in DOMAIN a : b[c] = a[((c - 1 + k) % Len(a)) + 1]
Cells(img) == {<<i, c>> : i \in DOMAIN img, c \in DOMAIN img[1]}
StepRight(r) ==
  LET a == r.img b == r.out Q == Cells(a)
      A(q) == a[q[1]][q[2]] B(q) == b[q[1]][q[2]]
      blank == Top(a) = 0
  IN CASE r.how = "jitter" -> \A i \in DOMAIN a : IF r.amt = 0 THEN a[i] = b[i] ELSE Rolled(a[i], b[i])
       [] r.how = "pepper" -> \A q \in Q : B(q) \in {A(q)} \cup (IF r.amt = 0 THEN {} ELSE {0, 10000})
       [] r.how = "poisson" -> /\ \A q \in Q : A(q) = 0 => B(q) = 0
                               /\ Top(b) \in {0, 10000}
       [] r.how = "contrast" -> /\ \A q \in Q : A(q) \in {0, 10000} => Near(B(q), A(q), 1)
                                /\ \A q \in Q, p \in Q : A(q) <= A(p) => B(q) <= B(p)
                                /\ r.amt = 100 => \A q \in Q : Near(A(q), B(q), 1)
       [] r.how = "blur" -> /\ IF blank THEN Top(b) = 0 ELSE Top(b) = 10000
                            /\ r.amt = 0 => \A q \in Q : Near(B(q), (A(q) * 10000) \div Max2(1, Top(a)), 3)
       [] r.how \in {"uniform", "exponential"} ->
            \* Something that is not negative is added, then all is scaled.
            /\ Top(b) \in {0, 10000}
            /\ r.amt = 0 => \A q \in Q : Near(B(q), (A(q) * 10000) \div Max2(1, Top(a)), 3)
            /\ r.how = "uniform" => \A q \in Q : B(q) + 2 >= (A(q) * 10000) \div (Top(a) + Max2(1, r.amt * 100))
       [] OTHER -> r.amt = 0 => \A q \in Q : Near(A(q), B(q), 1)
StepFails(st, r) ==
  IF r.raised THEN {"C29:raises"}
  ELSE IF ~Rectangle(r.out, Len(r.img[1]), Len(r.img)) THEN {"C29:size_of_image"}
  ELSE IC("C29:noise_" \o r.how, StepRight(r))
       \cup IC("C29:between_zero_and_one", \A v \in Values(r.out) : 0 <= v /\ v <= 10000)
       \cup IC("C29:repeatable", r.again) \cup IC("C29:input_unchanged", r.kept)

ImagingFails(st, r) ==
  CASE r.e = "Mask" -> MaskFails(st, r)
    [] r.e = "Clean" -> CleanFails(st, r)
    [] r.e = "Noisy" -> NoisyFails(st, r)
    [] r.e = "Step" -> StepFails(st, r)
    [] OTHER -> {}
===============================================================================
