------------------------------ MODULE Boundary ------------------------------
(***************************************************************************)
(* Contact of grid nodes with plates and terrains: no slip, frictional     *)
(* slip that may separate (SlipFree), frictional slip bound to the surface *)
(* (SlipStick); Coulomb friction; and the motion of plates.                *)
(*                                                                         *)
(* Whether a place is behind a surface is a discontinuous test, so a place *)
(* closer to the surface than rounding error has two admissible answers;   *)
(* outcomes are therefore SETS of velocities.                              *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets

\* ------------------------------------------------------- Coulomb friction --
\* vt: tangential relative velocity; vn: speed of approach removed by the contact
Coulomb(vt, vn, fr) ==
  LET s == VNorm(vt) IN
  IF fr \preceq Zero THEN vt
  ELSE IF s \preceq fr (.) vn THEN VZero(Len(vt))
  ELSE VScale((s (-) fr (.) vn) (/) s, vt)

\* ----------------------------------------------------------------- plates --
PlateAxis(type) == CASE type \in {"left", "right"} -> 1 [] type \in {"bottom", "top"} -> 2 [] OTHER -> 3
\* the plate's material side is above (+1) or below (-1) it along its axis
PlateSide(type) == IF type \in {"left", "bottom", "back"} THEN 1 ELSE -1
\* the axis along which the plate has limited extent (0: unlimited)
ExtentAxis(type) == CASE type \in {"left", "right"} -> 2 [] type \in {"bottom", "top"} -> 1 [] OTHER -> 0

\* s = <<pos, lower, upper, vx, vy(, vz)>>: the plate's present position, extent and velocity
PlatePos(s)   == s[1]
PlateLower(s) == s[2]
PlateUpper(s) == s[3]
PlateVel(s)   == SubSeq(s, 4, Len(s))

\* signed depth behind the plate (>= 0: at or behind), and slack to the ends of its extent
Behind(type, s, X) == IF PlateSide(type) = 1 THEN PlatePos(s) (-) X[PlateAxis(type)] ELSE X[PlateAxis(type)] (-) PlatePos(s)
PlateInside(type, s, X) ==
  /\ Zero \preceq Behind(type, s, X)
  /\ ExtentAxis(type) # 0 => /\ X[ExtentAxis(type)] \prec PlateUpper(s)
                             /\ PlateLower(s) \prec X[ExtentAxis(type)]
PlateDoubtful(type, s, X, eps) ==
  \/ NAbs(Behind(type, s, X)) \preceq eps
  \/ /\ ExtentAxis(type) # 0
     /\ \/ NAbs(X[ExtentAxis(type)] (-) PlateUpper(s)) \preceq eps
        \/ NAbs(X[ExtentAxis(type)] (-) PlateLower(s)) \preceq eps

\* velocity of a node in contact with a plate
PlateContact(type, bc, fr, s, v) ==
  LET V  == PlateVel(s)
      r  == VSub(v, V)
      a  == PlateAxis(type)
      rn == r[a]
      toward == IF PlateSide(type) = 1 THEN rn \prec Zero ELSE Zero \prec rn
      vt == [k \in 1..Len(v) |-> IF k = a THEN Zero ELSE r[k]]
  IN CASE bc = "NoSlip"    -> V
       [] bc = "SlipStick" -> VAdd(Coulomb(vt, NAbs(rn), fr), V)
       [] bc = "SlipFree"  -> IF toward THEN VAdd(Coulomb(vt, NAbs(rn), fr), V) ELSE v

\* --------------------------------------------------------------- terrains --
\* o = [kind, bc, fr, arg].  Level(o, X) <= 0 inside the terrain (for "strict" kinds < 0)
Level(o, X) ==
  CASE o.kind = "ground" -> X[2] (-) o.arg[1]
    [] o.kind = "curve"  -> X[2] (-) Sq(X[1])
    [] o.kind = "bump"   -> X[2] (-) (Dec("0.0475") (/) Cosh(Rat(25,1) (.) (X[1] (-) Dec("0.43"))))
    [] o.kind = "ramp"   -> X[2] (-) (Dec("0.1") (.) Tanh(Rat(-100,1) (.) X[1]))
    [] o.kind = "gate"   -> (o.arg[1] (+) Rat(100,1) (.) Sq(X[1])) (-) X[2]
    [] o.kind = "silo"   -> (Tanh(X[2]) (+) One) (-) Sqrt(Sq(X[1]) (+) Sq(X[3]))
    [] o.kind = "plane"  -> Dot(SubSeq(o.arg, 1, Len(X)), X) (-) o.arg[Len(X) + 1]
ClosedKind(o) == o.kind \in {"ground", "curve", "silo", "plane"}
InsideObj(o, X) ==
  /\ IF ClosedKind(o) THEN Level(o, X) \preceq Zero ELSE Level(o, X) \prec Zero
  /\ o.kind = "silo" => o.arg[1] \preceq X[2]
ObjDoubtful(o, X, eps) ==
  \/ NAbs(Level(o, X)) \preceq eps (.) (One (+) (IF o.kind \in {"curve", "gate", "ramp"} THEN Rat(400,1) (.) NAbs(X[1]) (+) Rat(10,1) ELSE One))
  \/ o.kind = "silo" /\ NAbs(X[2] (-) o.arg[1]) \preceq eps
\* unit outward normal = normalised gradient of Level
Grad(o, X) ==
  CASE o.kind = "ground" -> [k \in 1..Len(X) |-> IF k = 2 THEN One ELSE Zero]
    [] o.kind = "curve"  -> [k \in 1..Len(X) |-> IF k = 1 THEN Rat(-2,1) (.) X[1] ELSE IF k = 2 THEN One ELSE Zero]
    [] o.kind = "bump"   -> LET t == Rat(25,1) (.) (X[1] (-) Dec("0.43")) IN
                            [k \in 1..Len(X) |-> IF k = 1 THEN (Rat(25,1) (.) Dec("0.0475") (.) Tanh(t)) (/) Cosh(t) ELSE IF k = 2 THEN One ELSE Zero]
    [] o.kind = "ramp"   -> [k \in 1..Len(X) |-> IF k = 1 THEN Rat(10,1) (/) Sq(Cosh(Rat(100,1) (.) X[1])) ELSE IF k = 2 THEN One ELSE Zero]
    [] o.kind = "gate"   -> [k \in 1..Len(X) |-> IF k = 1 THEN Rat(200,1) (.) X[1] ELSE IF k = 2 THEN Rat(-1,1) ELSE Zero]
    [] o.kind = "silo"   -> LET r == Sqrt(Sq(X[1]) (+) Sq(X[3])) IN
                            << NNeg(X[1] (/) r), One (/) Sq(Cosh(X[2])), NNeg(X[3] (/) r) >>
    [] o.kind = "plane"  -> SubSeq(o.arg, 1, Len(X))
Normal(o, X) == LET g == TLCEval(Grad(o, X)) IN VScale(One (/) VNorm(g), g)

ObjContact(o, fr, n, v) ==
  LET vn == Dot(v, n)
      vt == TLCEval(VSub(v, VScale(vn, n)))
  IN CASE o.bc = "NoSlip"    -> VZero(Len(v))
       [] o.bc = "SlipStick" -> IF vn \prec Zero THEN Coulomb(vt, NNeg(vn), fr) ELSE vt
       [] o.bc = "SlipFree"  -> IF vn \prec Zero THEN Coulomb(vt, NNeg(vn), fr) ELSE v

\* ------------------------------------------------ a node meets everything --
\* X: where the node would be at the end of the step; eps: position uncertainty
\* nodefr: friction carried by the node (material-induced), used when c.mibf
RECURSIVE ObjFold(_, _, _, _, _, _)
ObjFold(c, k, X, eps, nodefr, S) ==
  IF k > Len(c.objs) THEN S
  ELSE LET o  == c.objs[k]
           fr == IF c.mibf THEN nodefr ELSE o.fr
           hit  == ObjDoubtful(o, X, eps) \/ InsideObj(o, X)
           miss == ObjDoubtful(o, X, eps) \/ ~InsideObj(o, X)
           T1 == IF hit THEN LET n == TLCEval(Normal(o, X)) IN { TLCEval(ObjContact(o, fr, n, v)) : v \in S } ELSE {}
           T2 == IF miss THEN S ELSE {}
       IN ObjFold(c, k + 1, X, eps, nodefr, T1 \cup T2)

RECURSIVE PlateFold(_, _, _, _, _, _, _)
PlateFold(c, pl, k, X, eps, nodefr, S) ==
  IF k > Len(c.pls) THEN S
  ELSE LET q  == c.pls[k]
           fr == IF c.mibf THEN nodefr ELSE q.fr
           db == PlateDoubtful(q.type, pl[k], X, eps)
           in == PlateInside(q.type, pl[k], X)
           T1 == IF db \/ in THEN { TLCEval(PlateContact(q.type, q.bc, fr, pl[k], v)) : v \in S } ELSE {}
           T2 == IF db \/ ~in THEN S ELSE {}
       IN PlateFold(c, pl, k + 1, X, eps, nodefr, T1 \cup T2)

TouchesObj(c, X, eps)    == \E k \in 1..Len(c.objs) : ObjDoubtful(c.objs[k], X, eps) \/ InsideObj(c.objs[k], X)
TouchesPlate(c, pl, X, eps) == \E k \in 1..Len(c.pls) : PlateDoubtful(c.pls[k].type, pl[k], X, eps) \/ PlateInside(c.pls[k].type, pl[k], X)

\* contact with a boundary whose law does not exist: surely, or possibly
BoundaryLaws == {"NoSlip", "SlipStick", "SlipFree"}
HasBadBoundary(c) == (\E k \in 1..Len(c.objs) : c.objs[k].bc \notin BoundaryLaws) \/ (\E k \in 1..Len(c.pls) : c.pls[k].bc \notin BoundaryLaws)
BadTouch(c, pl, X, eps, sure) ==
  \/ \E k \in 1..Len(c.objs) : c.objs[k].bc \notin BoundaryLaws /\ (IF ObjDoubtful(c.objs[k], X, eps) THEN ~sure ELSE InsideObj(c.objs[k], X))
  \/ \E k \in 1..Len(c.pls) : c.pls[k].bc \notin BoundaryLaws /\ (IF PlateDoubtful(c.pls[k].type, pl[k], X, eps) THEN ~sure ELSE PlateInside(c.pls[k].type, pl[k], X))

ContactOutcomes(c, pl, X, eps, nodefr, v) ==
  PlateFold(c, pl, 1, X, eps, nodefr, ObjFold(c, 1, X, eps, nodefr, {v}))

\* ------------------------------------------------------------ plate motion --
\* q: the plate's configuration; s: state before the step that started at time t
PlateMoved(q, s, dt, framedt, t) ==
  LET f  == IF t \prec q.load (.) framedt THEN One (/) q.vmin ELSE One
      V  == TLCEval(VScale(f, q.v))
      dp == dt (.) V[PlateAxis(q.type)]
      de == IF ExtentAxis(q.type) = 0 THEN Zero ELSE dt (.) V[ExtentAxis(q.type)]
  IN << PlatePos(s) (+) dp, PlateLower(s) (+) de, PlateUpper(s) (+) de >> \o V
=============================================================================
