---------------------------- MODULE MC_LevelSet ----------------------------
(***************************************************************************)
(* Exhaustive: a point walks through small level sets (tilted planes of    *)
(* every slope, and single raised voxels) in quarter-voxel moves.          *)
(***************************************************************************)
EXTENDS LevelSet, TLC, Json
CONSTANT Big

VARIABLES g, made, at          \* the level set, what it was made from, the point (in quarter voxels)
vars == <<g, made, at>>

N == <<4, 4, 4>>
Lo == <<-1, -2, -1>>
Idx(k) == <<Lo[1] + ((k-1) \div 16), Lo[2] + (((k-1) \div 4) % 4), Lo[3] + ((k-1) % 4)>>
Ks == IF Big THEN -2..2 ELSE {-1, 0, 2}
Planes == { [kind |-> "plane", k |-> <<i, j, m>>, b |-> b] : i \in Ks, j \in Ks, m \in Ks, b \in IF Big THEN {0, 1} ELSE {1} }
Bumps  == { [kind |-> "bump", k |-> <<i, j, m>>, b |-> b] : i \in -1..2, j \in -2..1, m \in -1..2, b \in IF Big THEN {-3, 2} ELSE {-3} }
Value(x, i) == IF x.kind = "plane" THEN Int2Num(x.k[1] * i[1] + x.k[2] * i[2] + x.k[3] * i[3] + x.b)
               ELSE IF i = x.k THEN Int2Num(x.b) ELSE One
Set(x) == [h |-> Half, lo |-> Lo, n |-> N, phi |-> [k \in 1..64 |-> Value(x, Idx(k))]]
Quarter == 4
Lowest(d)  == (Lo[d] + 1) * Quarter
Highest(d) == (Lo[d] + 2) * Quarter - 1
Pt(p) == [d \in 1..3 |-> Rat(p[d], Quarter) (.) Half]

Init == made \in Planes \cup Bumps /\ g = Set(made) /\ at = [d \in 1..3 |-> Lowest(d)]
Move(d) == at[d] < Highest(d) /\ at' = [at EXCEPT ![d] = @ + 1] /\ UNCHANGED <<g, made>>
Next == \E d \in 1..3 : Move(d)
Spec == Init /\ [][Next]_vars

X == Pt(at)
Exact(u, v) == NAbs(u (-) v) \preceq Dec("1e-12")
OnVoxel == \A d \in 1..3 : at[d] % Quarter = 0
AtVoxels == OnVoxel => Phi(g, X) = Voxel(g, [d \in 1..3 |-> at[d] \div Quarter])
\* a plane is reproduced, with its normal, everywhere
PlaneOk == made.kind = "plane" =>
  /\ Exact(Phi(g, X), Rat(made.k[1] * at[1] + made.k[2] * at[2] + made.k[3] * at[3] + Quarter * made.b, Quarter))
  /\ \A d \in 1..3 : Exact(Grad(g, X)[d], Int2Num(2 * made.k[d]))
\* between voxels nothing lies outside what the voxels around say
Between == LET b == BaseOf(Point3(g, X)) C == {Voxel(g, Plus(b, <<i, j, k>>)) : i \in 0..1, j \in 0..1, k \in 0..1} IN
  (\E v \in C : v \preceq Phi(g, X)) /\ (\E v \in C : Phi(g, X) \preceq v)
UnitNormal == LET m == VNorm(Grad(g, X)) IN
  IF made.kind = "plane" /\ made.k = <<0, 0, 0>> THEN LsNormal(g, X) = VZero(3)
  ELSE Zero \prec m => Exact(VNorm(LsNormal(g, X)), One)
Determined == Known(g, X) /\ Smooth(g, X) /\ ~Beyond(g, X)
\* the distance changes gently, and uphill along the normal
Continuous == [][NAbs(Phi(g, Pt(at')) (-) Phi(g, X)) \preceq Rat(6, 4)]_vars
Uphill == [][made.kind = "plane" /\ made.k # <<0, 0, 0>> =>
             LET step == [d \in 1..3 |-> Pt(at')[d] (-) X[d]] up == Dot(step, LsNormal(g, X)) IN
             (Dec("1e-9") \prec up => Phi(g, X) \prec Phi(g, Pt(at'))) /\ (up \prec Dec("-1e-9") => Phi(g, Pt(at')) \prec Phi(g, X))]_vars
\* ------------------------------------------- behaviours for the real code --
Still == Init /\ [][FALSE]_vars
Emit == PrintT("CASE " \o ToJson([g |-> g, lowest |-> at]))
=============================================================================
