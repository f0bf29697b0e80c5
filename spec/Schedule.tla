------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Time: step size, gravity ramp, frames, and the order of the stages of a *)
(* step.                                                                   *)
(***************************************************************************)
EXTENDS Num, FiniteSets

FrameDt(c) == One (/) c.fps
FinalTime(c) == Int2Num(c.endf) (.) FrameDt(c)
WaveSpeed(c) == Sqrt(c.E (/) c.rho)

DtRule(c, v, frame, time) ==
  LET vmax == MaxOf([p \in 1..Len(v) |-> VNorm(v[p])])
      caps == << (c.cfle (.) c.dx) (/) WaveSpeed(c),
                 FrameDt(c) (.) Int2Num(frame + 1) (-) time,
                 FinalTime(c) (-) time >>
      all  == IF Dec("1e-10") \prec vmax THEN caps \o << (c.cfl (.) c.dx) (/) vmax >> ELSE caps
  IN NMax(c.mindt, MinOf(all))
TimeTol(c, t) == Dec("1e-14") (.) NMax(FrameDt(c), NAbs(t))

Gravity(c, t) ==
  IF c.gspecial /\ t \prec c.gtime THEN VScale(t (/) c.gtime, c.g0) ELSE c.g0

\* Is the frame complete at time t?  (two answers within rounding of the criterion)
FrameSlack(c, frame, t) == FrameDt(c) (.) Int2Num(frame + 1) (-) t
FrameDone(c, frame, t) ==
  LET d == FrameSlack(c, frame, t) (-) Rat(11,10) (.) c.mindt IN
  IF NAbs(d) \preceq Dec("1e-15") (.) NMax(One, NAbs(t)) THEN {TRUE, FALSE} ELSE {d \prec Zero}

\* ---- the stages of a step and what must precede each of them --------------
Stages(c) == {"dt", "mesh", "p2g", "grid", "g2p", "pos", "move"}
             \cup (IF c.pbc THEN {"ghosts", "unghost"} ELSE {})
             \cup (IF c.musl THEN {"musl", "defo"} ELSE {})
Before(c, st) ==
  CASE st = "dt"      -> {}
    [] st = "mesh"    -> {}
    [] st = "ghosts"  -> {}
    [] st = "p2g"     -> {"mesh"} \cup (IF c.pbc THEN {"ghosts"} ELSE {})
    [] st = "grid"    -> {"p2g", "dt"}
    [] st = "unghost" -> {"grid"}
    [] st = "g2p"     -> {"grid"}
    [] st = "musl"    -> {"g2p"}
    [] st = "defo"    -> {"musl"}
    [] st = "pos"     -> {"g2p"} \cup (IF c.musl THEN {"defo"} ELSE {}) \cup (IF c.pbc THEN {"unghost"} ELSE {})
    [] st = "move"    -> {"grid"}
    [] OTHER          -> Stages(c)
=============================================================================
