------------------------------- MODULE Matter -------------------------------
(***************************************************************************)
(* The material point method as a state machine.  A state s is a record    *)
(*   np, x, v, pic, flip, B, F, tau, epd, epv, epp, dg, visc, mui           *)
(*        particles: position, velocity, gathered velocity and increment,  *)
(*        affine matrix, elastic deformation, Kirchhoff stress, plastic    *)
(*        strains, reported strain rate, viscosity, friction               *)
(*   gx, gy(, gz), gm, gv, gf, gfr      grid: axes, mass, velocity,         *)
(*        velocity increment, friction                                      *)
(*   plates, time, frame, step, dt, grav, exit                              *)
(* and each stage of a step is an operator that gives the part of the       *)
(* state it is responsible for.  The same operators are run forward by the  *)
(* exhaustive models MC_*.tla and compared with recorded executions of the  *)
(* real program by Trace.tla.                                               *)
(***************************************************************************)
EXTENDS Kernel, Transfer, Boundary, Constitutive, Mesh, Schedule, Periodic, Output

Axes(c, s) == IF c.dim = 2 THEN <<s.gx, s.gy>> ELSE <<s.gx, s.gy, s.gz>>

\* ------------------------------------------------------------------ P2G ----
P2GNode(c, ax, s, w1, l) == NodeGather(c, ax, s, w1, l)

\* ------------------------------------------------------------ grid update ---
\* velocity of node l if nothing is in its way; size: magnitude of what was added up
FreeNode(c, s, ax, w1, d1, l) ==
  LET nf == TLCEval(NodeForce(c, ax, s, w1, d1, l))
      k  == (s.dt (.) c.pvol) (/) s.gm[l]
  IN [v |-> TLCEval([d \in 1..c.dim |-> (s.gv[l][d] (-) k (.) nf.f[d]) (+) s.dt (.) s.grav[d]]),
      size |-> VMaxAbs(s.gv[l]) (+) k (.) nf.size (+) s.dt (.) VMaxAbs(s.grav) (+) Dec("1e-12")]
\* where the node would be, and how well that is known
NodeAhead(c, s, ax, l, fn) == TLCEval(VAdd(NodePos(ax, l), VScale(s.dt, fn.v)))
AheadTol(c, s, fn) == Dec("1e-9") (.) c.dx (+) Tol (.) s.dt (.) fn.size

\* -------------------------------------------------------------- deformation --
Trial(c, dt, F, L) ==
  LET Ft == TLCEval(MatAdd(F, MatScale(dt, MatMul(L, F))))
      S  == TLCEval(Spectral(Ft))
  IN [F |-> Ft, U |-> S.U, sg |-> S.sg, h |-> S.h, tr |-> S.tr, dev |-> S.dev, dn |-> S.dn,
      p |-> PressureOf(c, S), q |-> ShearOf(c, S)]
Memory(s, p) == [epd |-> s.epd[p], epv |-> s.epv[p], epp |-> s.epp[p]]
Extras(s, p) == [visc |-> s.visc[p], mui |-> s.mui[p]]
Observed(c, n, p, S) ==
  [p |-> PressureOf(c, S), q |-> ShearOf(c, S), epd |-> n.epd[p], epv |-> n.epv[p], epp |-> n.epp[p],
   rate |-> n.dg[p], visc |-> n.visc[p], mui |-> n.mui[p]]

\* ------------------------------------------------------------- balances ------
Momentum(c, x, v) == [d \in 1..c.dim |-> c.pmass (.) Sum([p \in 1..Len(v) |-> v[p][d]])]
\* angular momentum about the origin (pseudo-vector as a sequence), affine modes included
Cross2(a, b) == a[1] (.) b[2] (-) a[2] (.) b[1]
Cross3(a, b) == << a[2] (.) b[3] (-) a[3] (.) b[2], a[3] (.) b[1] (-) a[1] (.) b[3], a[1] (.) b[2] (-) a[2] (.) b[1] >>
CrossV(a, b) == IF Len(a) = 2 THEN <<Cross2(a, b)>> ELSE Cross3(a, b)
\* axial vector of sum_i (x_i - x_p) x v_i  given B = sum v (x_i - x_p)^T
AxialB(B) == IF Len(B) = 2 THEN << B[2][1] (-) B[1][2] >>
             ELSE << B[3][2] (-) B[2][3], B[1][3] (-) B[3][1], B[2][1] (-) B[1][2] >>
Spin(c, x, v, B) ==
  LET k == IF c.dim = 2 THEN 1 ELSE 3 IN
  [d \in 1..k |-> c.pmass (.) Sum([p \in 1..Len(x) |-> CrossV(x[p], v[p])[d] (+) AxialB(B[p])[d]])]
Torque(c, x, g) ==
  LET k == IF c.dim = 2 THEN 1 ELSE 3 IN
  [d \in 1..k |-> c.pmass (.) Sum([p \in 1..Len(x) |-> CrossV(x[p], g)[d]])]
=============================================================================
