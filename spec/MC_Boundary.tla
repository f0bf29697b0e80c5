----------------------------- MODULE MC_Boundary ----------------------------
(***************************************************************************)
(* Exhaustive: every kind of plate (moving or not) and terrain, every      *)
(* contact law, friction from none to overwhelming, nodes on a raster of   *)
(* places and velocities.  A node meets the boundary, then meets it again; *)
(* the plate moves on for a few steps of different length.                 *)
(***************************************************************************)
EXTENDS Boundary, Json
CONSTANT Big

VARIABLES k, X, v0, v, hits, pl, t, trail
vars == <<k, X, v0, v, hits, pl, t, trail>>

R(n) == Rat(n, 2)
Frs  == IF Big THEN {Zero, Rat(1,4), One, Rat(20,1)} ELSE {Zero, Rat(1,4), Rat(20,1)}
Bcs  == {"NoSlip", "SlipStick", "SlipFree"}
Vels == IF Big THEN {-3, -1, 0, 1, 2} ELSE {-2, 0, 1}
Types3 == {"top", "bottom", "left", "right", "front", "back"}
Types2 == {"top", "bottom", "left", "right"}
PlateCases ==
  { [what |-> "plate", dim |-> d, type |-> ty, bc |-> b, fr |-> f, mibf |-> FALSE, objs |-> <<>>, vmin |-> Two, load |-> ld, v |-> SubSeq(pv, 1, d), pls |-> <<[type |-> ty, bc |-> b, fr |-> f]>>, pos |-> Zero, lower |-> Rat(-1,1), upper |-> One]
    : d \in {2, 3}, ty \in Types3, b \in Bcs, f \in Frs, ld \in {Zero, One}, pv \in {<<Zero, Zero, Zero>>, <<One, Rat(-1,2), Rat(1,4)>>} }
ObjCases ==
  { [what |-> "terrain", dim |-> d, type |-> kd, bc |-> b, fr |-> f, mibf |-> FALSE, pls |-> <<>>, objs |-> <<[kind |-> kd, bc |-> b, fr |-> f, arg |-> IF kd = "plane" THEN <<Rat(3,5), Rat(4,5), Zero, Zero>> ELSE <<Zero>>]>>]
    : d \in {2, 3}, kd \in {"ground", "curve", "bump", "ramp", "gate", "silo", "plane"}, b \in Bcs, f \in Frs }
Cases == {q \in PlateCases \cup ObjCases : /\ (q.type \in {"front", "back", "silo"} => q.dim = 3)
                                           /\ (q.type = "plane" => q.dim = 3)
                                           /\ (~Big /\ q.what = "plate" => q.load = One)}
Spots(d) == LET A == IF Big THEN {-2, -1, 1, 2} ELSE {-1, 1} IN
            IF d = 2 THEN {<<Rat(a, 3), Rat(b, 5)>> : a \in A, b \in {-2, 0, 1}} ELSE {<<Rat(a, 3), Rat(b, 5), Rat(e, 7)>> : a \in A, b \in {-2, 0, 1}, e \in {-2, 3}}
Velocities(d) == IF d = 2 THEN {<<R(a), R(b)>> : a \in Vels, b \in Vels} ELSE {<<R(a), R(b), R(e)>> : a \in Vels, b \in Vels, e \in {-1, 1}}

State0(q) == IF q.what = "plate" THEN << <<q.pos, q.lower, q.upper>> \o q.v >> ELSE <<>>
Init == /\ k \in Cases /\ X \in Spots(k.dim) /\ v0 \in Velocities(k.dim)
        /\ v = v0 /\ hits = 0 /\ pl = State0(k) /\ t = Zero /\ trail = <<>>
Sure == NNeg(One)
Meet == /\ hits < 2 /\ trail = <<>>
        /\ v' \in ContactOutcomes(k, pl, X, Sure, Zero, v)
        /\ hits' = hits + 1 /\ UNCHANGED <<k, X, v0, pl, t, trail>>
Watched == v0 = [d \in 1..k.dim |-> IF d = 3 THEN R(-1) ELSE Zero] /\ X = [d \in 1..k.dim |-> CASE d = 1 -> Rat(1, 3) [] d = 2 -> Zero [] OTHER -> Rat(3, 7)]
MovePlate == /\ k.what = "plate" /\ hits = 2 /\ Watched /\ Len(trail) < (IF Big THEN 4 ELSE 3)
             /\ \E dt \in {Rat(1,4), Half} :
                  /\ pl' = << PlateMoved(k, pl[1], dt, One, t) >>
                  /\ t' = t (+) dt /\ trail' = Append(trail, <<t, dt>>)
             /\ UNCHANGED <<k, X, v0, v, hits>>
Next == Meet \/ MovePlate
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- the contact --
In == IF k.what = "plate" THEN PlateInside(k.type, State0(k)[1], X) ELSE InsideObj(k.objs[1], X)
W  == IF k.what = "plate" THEN k.v ELSE VZero(k.dim)                \* velocity of the boundary
Nrm == IF k.what = "plate" THEN [d \in 1..k.dim |-> IF d = PlateAxis(k.type) THEN Int2Num(PlateSide(k.type)) ELSE Zero] ELSE Normal(k.objs[1], X)
n(u) == Dot(VSub(u, W), Nrm)
tan(u) == LET r == VSub(u, W) IN VSub(r, VScale(Dot(r, Nrm), Nrm))
Eps == Dec("1e-12")
Free     == ~In => v = v0
Held     == (In /\ hits > 0 /\ k.bc = "NoSlip") => v = W
NoEntry  == (In /\ hits > 0) => NNeg(Eps) \preceq n(v)
Stuck    == (In /\ hits > 0 /\ k.bc = "SlipStick") => NAbs(n(v)) \preceq Eps
Leaves   == (In /\ k.bc = "SlipFree" /\ Zero \prec n(v0)) => v = v0
Dissipates == (In /\ hits > 0) => VNorm(tan(v)) \preceq VNorm(tan(v0)) (+) Eps
Along    == (In /\ hits > 0) => NNeg(Eps) \preceq Dot(tan(v), tan(v0))
Limited  == (In /\ hits > 0 /\ k.bc # "NoSlip") => VNorm(tan(v0)) (-) k.fr (.) NAbs(n(v0)) \preceq VNorm(tan(v)) (+) Eps
Settled  == [][(hits = 1 /\ hits' = 2) => VClose(v', v, Two)]_vars
\* ------------------------------------------------------------- the geometry --
H == Dec("1e-5")
Shift(a) == VAdd(X, VScale(a, Nrm))
UnitOut  == k.what = "terrain" => /\ Close(VNorm(Nrm), One, One)
                                  /\ LET lvl(Y) == Level(k.objs[1], Y)
                                         slope == (lvl(Shift(H)) (-) lvl(Shift(NNeg(H)))) (/) (Two (.) H)
                                     IN NAbs(slope (-) VNorm(Grad(k.objs[1], X))) \preceq Dec("1e-3") (.) (One (+) VNorm(Grad(k.objs[1], X)))
\* ---------------------------------------------------------- motion of plates --
Moved == k.what = "plate" =>
  /\ \A d \in 1..k.dim : trail # <<>> =>
        LET last == trail[Len(trail)] IN Close(PlateVel(pl[1])[d], IF last[1] \prec k.load THEN k.v[d] (/) k.vmin ELSE k.v[d], One)
  /\ Close(PlateUpper(pl[1]) (-) PlateLower(pl[1]), k.upper (-) k.lower, One)
  /\ LET V(i, a) == IF trail[i][1] \prec k.load THEN k.v[a] (/) k.vmin ELSE k.v[a]
         path(a) == Sum([i \in 1..Len(trail) |-> trail[i][2] (.) V(i, a)])
     IN /\ Close(PlatePos(pl[1]), k.pos (+) path(PlateAxis(k.type)), One)
        /\ ExtentAxis(k.type) # 0 => Close(PlateLower(pl[1]), k.lower (+) path(ExtentAxis(k.type)), One)
\* ------------------------------------------- behaviours for the real code --
Emit == hits = 0 => PrintT("CASE " \o ToJson([k |-> k, X |-> X, v |-> v0]))
Still == Init /\ [][FALSE]_vars
=============================================================================
