------------------------------- MODULE GreedyMC -------------------------------
(* The greedy choice on a regular neighbourhood in every orientation (30      *)
(* degree steps), every order of the neighbours and goals all around, with    *)
(* the algorithm of the agent (nearest to the goal, rotation by its angle,    *)
(* from a table of cosines) against the relation of Greedy.                   *)
EXTENDS Greedy, TLC, Json
CONSTANTS Goals, Radii, Points, Generate
VARIABLES theta, perm, gdir, grad, p, act
vars == <<theta, perm, gdir, grad, p, act>>
Cos == <<10000, 8660, 5000, 0, -5000, -8660, -10000, -8660, -5000, 0, 5000, 8660>>
Co(k) == Cos[1 + (k % 12)]
Si(k) == Cos[1 + ((k + 9) % 12)]
Scale(x, c) == (x * c + 5000) \div 10000
Polar(r, k) == <<Scale(r, Co(k)), Scale(r, Si(k))>>
Perms == {q \in [1..3 -> 0..2] : \A i, j \in 1..3 : i # j => q[i] # q[j]}
N(t, q) == [i \in 1..3 |-> Polar(14200, t + 4 * q[i])]
Goal == Polar(grad, gdir)
Rot(v, k) == <<Scale(v[1], Co(k)) - Scale(v[2], Si(k)), Scale(v[1], Si(k)) + Scale(v[2], Co(k))>>
Pick(n, g) == CHOOSE i \in 1..3 : \A j \in 1..3 : Further(n[i], n[j], g) <= 0
Algorithm(t, q, g) == LET i == Pick(N(t, q), g) IN Rot(p, t + 4 * q[i])
Opts == <<<<14200, 0>>, <<5800, 0>>, <<14200, 4200>>, <<21717, -1515>>, <<-7000, 3000>>>>
Init == /\ theta \in 0..11 /\ perm \in Perms /\ gdir \in Goals /\ grad \in Radii
        /\ p \in {Opts[i] : i \in Points} /\ act = <<0, 0>>
Act == /\ act = <<0, 0>> /\ act' = Algorithm(theta, perm, Goal) /\ UNCHANGED <<theta, perm, gdir, grad, p>>
Next == Act
Spec == Init /\ [][Next]_vars
Rec == [e |-> "Greedy", n |-> N(theta, perm), g |-> Goal, p |-> p, act |-> act, raised |-> FALSE, kept |-> TRUE]
Acted == act # <<0, 0>>
Accepted == Acted => GreedyFails(GreedyInit, Rec) = {}
Decided == Cardinality(BestOf(N(theta, perm), Goal)) = 1
\* The order of the neighbours is irrelevant; the action turns with the scene.
OrderFree == Acted /\ Decided => \A q \in Perms : Algorithm(theta, q, Goal) = act
Turns == Acted /\ Decided =>
           \A k \in {3, 6, 9} : LET a == Algorithm(theta + k, perm, Polar(grad, gdir + k)) b == Rot(act, k) IN
             Near(a[1], b[1], 4) /\ Near(a[2], b[2], 4)
\* No other direction would be accepted.
Selective == Acted /\ Decided => \A k \in 1..11 : GreedyFails(GreedyInit, [Rec EXCEPT !.act = Rot(act, k)]) # {}
Gen == Generate /\ Acted => PrintT("GEN " \o ToJson([t |-> theta, q |-> perm, d |-> gdir, r |-> grad, p |-> p]))
===============================================================================
