----------------------------- MODULE MC_Transfer ----------------------------
(***************************************************************************)
(* Exhaustive: two particles on a quarter-cell raster with velocities,     *)
(* affine matrices and deformations from small sets, every transfer mode,  *)
(* both spline degrees, with and without re-projection; no boundaries.     *)
(* What the transfers must conserve is stated on every reachable state.    *)
(***************************************************************************)
EXTENDS Machine, Json

CONSTANT Big      \* the larger instance?

Places  == IF Big THEN {0, 1, 2, 3, 4} ELSE {0, 1, 2}
Others  == IF Big THEN {<<3, 2>>, <<-5, 1>>, <<8, 4>>} ELSE {<<3, 2>>}
Speeds  == IF Big THEN {<<-1, 2>>, <<2, 1>>} ELSE {<<-1, 2>>}
Bs      == IF Big THEN {0, 1, 2} ELSE {0, 1}
Fs      == IF Big THEN {0, 1, 2} ELSE {0, 1}
Degs    == {2, 3}
Flipset == {<<-2, 1>>, <<-19, 20>>, <<1, 1>>, <<0, 1>>} \cup IF Big THEN {<<-1, 1>>, <<2, 5>>} ELSE {}

Rats(S) == {Rat(a[1], a[2]) : a \in S}
Mat(k) == CASE k = 0 -> <<<<Zero, Zero>>, <<Zero, Zero>>>>
            [] k = 1 -> <<<<Q(1,4), Q(1,8)>>, <<Q(-1,2), Q(1,16)>>>>
            [] k = 2 -> <<<<Zero, Q(-1,4)>>, <<Q(1,4), Zero>>>>
Def(k) == CASE k = 0 -> Ident(2)
            [] k = 1 -> <<<<Q(9,8), Q(1,8)>>, <<Zero, Q(7,8)>>>>
            [] k = 2 -> <<<<Q(7,8), Zero>>, <<Q(1,4), One>>>>
Configs == { [Config0 EXCEPT !.flip = Rat(f[1], f[2]), !.deg = d, !.musl = m] : f \in Flipset, d \in Degs, m \in BOOLEAN }
Sets(cf) ==
  { << [x |-> <<Rat(x1, 4), Rat(y1, 4)>>, v |-> <<One, Half>>, B |-> Mat(b), F |-> Def(f1)],
       [x |-> <<Rat(o[1], 4), Rat(o[2], 4)>>, v |-> <<Rat(u[1], 2), Rat(u[2], 2)>>, B |-> Mat(1), F |-> Def(f2)] >>
    : x1 \in Places, y1 \in Places, o \in Others, u \in Speeds, b \in Bs, f1 \in Fs, f2 \in Fs }
Init == MInit(Configs, Sets)
Next == MNext
Spec == Init /\ [][Next]_vars

N == 1..Len(s.gm)
Ax == Axes(c, s)
Size == Rat(100, 1)
GridMomentum(gv) == [d \in 1..2 |-> Dot(s.gm, [k \in N |-> gv[k][d]])]
GridSpin(gv) == Sum([k \in N |-> s.gm[k] (.) Cross2(NodePos(Ax, k), gv[k])])
MassOn == "p2g" \in done => Close(Sum(s.gm), Int2Num(s.np) (.) c.pmass, Size)
MomentumOn == ("p2g" \in done /\ "grid" \notin done) => VClose(GridMomentum(s.gv), Momentum(c, s.x, s.v), Size)
SpinOn == ("p2g" \in done /\ "grid" \notin done /\ Apic(c)) => Close(GridSpin(s.gv), Spin(c, s.x, s.v, s.B)[1], Size)
\* internal forces neither push nor turn the whole
ForceFree == ("grid" \in done /\ "musl" \notin done) =>
   /\ VClose(GridMomentum(s.gf), VScale(Sum(s.gm) (.) s.dt, s.grav), Size)
   /\ Close(GridSpin(s.gf), Sum([k \in N |-> s.gm[k] (.) s.dt (.) Cross2(NodePos(Ax, k), s.grav)]), Size)
\* over the step
Conserved ==
  (Stages(c) \subseteq done) =>
    /\ VClose(VSub(Momentum(c, s.x, s.v), Momentum(c, s0.x, s0.v)), VScale(Int2Num(s.np) (.) c.pmass (.) s.dt, s.grav), Size)
    /\ c.flip \prec NNeg(One) => VClose(VSub(Spin(c, s.x, s.v, s.B), Spin(c, s0.x, s0.v, s0.B)), VScale(s.dt, Torque(c, s0.x, s.grav)), Size)
    /\ s.np = s0.np
\* re-projection preserves momentum as well
Reprojected == ("musl" \in done) => VClose(GridMomentum(s.gv), Momentum(c, s.x, s.v), Size)
\* the grid reaches every node with weight
Covered == "mesh" \in done => \A k \in 1..2 : Covers(c, Ax[k], Extent(s0.x, k)) /\ Tight(c, Ax[k], Extent(s0.x, k)) /\ Regular(c, Ax[k])
\* ------------------------------------------- behaviours for the real code --
Emit == run = "setup" => PrintT("CASE " \o ToJson([c |-> c, s |-> s]))
Still == Init /\ [][FALSE]_vars
=============================================================================
