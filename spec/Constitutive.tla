---------------------------- MODULE Constitutive ----------------------------
(***************************************************************************)
(* The material laws.  A particle's trial deformation is split into a      *)
(* rotation and principal logarithmic (Hencky) strains; the laws act on    *)
(* the pressure p and the shear stress q of the trial state, and on the    *)
(* plastic strains accumulated so far.  Outcomes(...) is the set of        *)
(* admissible results: more than one only when the trial state sits on a   *)
(* corner between two regimes (where rounding may take either) or when     *)
(* the law is met by an iterative solver within a stated tolerance.        *)
(*                                                                         *)
(* c   : configuration   dt : step size                                    *)
(* T   : trial state     [U, R, h, tr, dev, dn, p, q]                      *)
(* m   : memory before   [epd, epv, epp]                                   *)
(* out : result          [p, q, epd, epv, epp, rate, visc, mui]            *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets

\* ------------------------------------------------------------- elasticity --
Shear(c)  == c.E (/) (Two (.) (One (+) c.nu))
Lame1(c)  == (c.nu (.) c.E) (/) ((One (+) c.nu) (.) (One (-) Two (.) c.nu))
Bulk(c)   == Lame1(c) (+) (Two (.) Shear(c)) (/) Int2Num(c.dim)
EPre(c)   == Two (.) c.qpre (.) Shear(c)                \* q = EPre * |dev strain|
FPre(c)   == Two (.) c.qpre (.) c.qpre (.) Shear(c)     \* q_trial - q = FPre * plastic shear
DPre(c)   == One (/) c.qpre                             \* plastic shear = DPre * |dev strain|

MinStretch == Dec("1e-4")
\* rotation-free description of a deformation gradient
Spectral(F) ==
  LET eg == TLCEval(EigSym(MatMul(F, Transpose(F))))
      d  == Len(F)
      sg == TLCEval([k \in 1..d |-> Sqrt(NMax(eg[1][k], Dec("1e-300")))])
      h  == TLCEval([k \in 1..d |-> Ln(NMax(sg[k], MinStretch))])
      tr == Sum(h)
      dv == TLCEval([k \in 1..d |-> h[k] (-) (tr (/) Int2Num(d))])
  IN [U |-> eg[2], sg |-> sg, h |-> h, tr |-> tr, dev |-> dv, dn |-> VNorm(dv)]
Rotation(S, F) == MatMul(FromEig([k \in 1..Len(F) |-> One (/) S.sg[k]], S.U), F)

\* Kirchhoff stress of a deformation gradient F with spectral data S
Stress(c, F, S) ==
  IF c.em = "Hencky"
  THEN FromEig([k \in 1..c.dim |-> Lame1(c) (.) S.tr (+) Two (.) Shear(c) (.) S.h[k]], S.U)
  ELSE MatAdd(MatScale(Shear(c), MatSub(MatMul(F, Transpose(F)), Ident(c.dim))),
              MatScale(Lame1(c) (.) Ln(Det(F)), Ident(c.dim)))
PressureOf(c, S) == NNeg(Bulk(c) (.) S.tr)
ShearOf(c, S)    == EPre(c) (.) S.dn

\* the deformation gradient with pressure p and shear q along the trial state's own directions
Rebuilt(c, S, R, p, q) ==
  LET iso == NNeg(p (/) (Bulk(c) (.) Int2Num(c.dim)))
      a   == IF Zero \prec S.dn THEN q (/) (EPre(c) (.) S.dn) ELSE Zero
  IN MatMul(FromEig([k \in 1..c.dim |-> Exp(iso (+) a (.) S.dev[k])], S.U), R)

Yields(c) == c.pm # "NoPlasticity"

\* stresses closer than this are not distinguished
SigTol(c, p, q) == Tol (.) (NAbs(p) (+) NAbs(q)) (+) Dec("1e-11") (.) c.E

\* --------------------------------------------------------------- pieces ----
Result(p, q, epd, epv, epp, rate, visc, mui) ==
  [p |-> p, q |-> q, epd |-> epd, epv |-> epv, epp |-> epp, rate |-> rate, visc |-> visc, mui |-> mui]
\* accounting common to every law: plastic strains are what the return removed
Account(c, dt, p, q, T, m, epp, visc, mui) ==
  Result(p, q, m.epd (+) (T.q (-) q) (/) EPre(c), m.epv (+) (p (-) T.p) (/) Bulk(c), epp,
         (DPre(c) (.) ((T.q (-) q) (/) EPre(c))) (/) dt, visc, mui)
Elastic(c, T, m, epp, visc, mui) == Result(T.p, T.q, m.epd, m.epv, epp, Zero, visc, mui)

\* ------------------------------------------------- rate-independent laws ---
VonMises(c, dt, T, m, x) ==
  IF c.qmax \prec T.q THEN Account(c, dt, T.p, c.qmax, T, m, m.epp, x.visc, x.mui)
  ELSE Elastic(c, T, m, m.epp, x.visc, x.mui)

DruckerPrager(c, dt, T, m, x) ==
  LET qy == c.M (.) T.p (+) c.qcoh IN
  IF qy \prec Dec("1e-10") THEN Account(c, dt, NNeg(c.qcoh (/) c.M), Zero, T, m, m.epp, x.visc, x.mui)
  ELSE IF qy \prec T.q THEN Account(c, dt, T.p, qy, T, m, m.epp, x.visc, x.mui)
  ELSE Elastic(c, T, m, m.epp, x.visc, x.mui)

\* volume-correction memory: kept by tip returns, cleared otherwise
Shift(c, m)      == IF c.pradhana THEN NNeg(Bulk(c) (.) m.epp) ELSE Zero
KeepEpp(c, T, m, p) == IF c.pradhana THEN m.epp (+) (p (-) T.p) (/) Bulk(c) ELSE m.epp
ClearEpp(c, m)   == IF c.pradhana THEN Zero ELSE m.epp

SoftTip(c, e) == NNeg(c.qcoh (/) c.M) (.) Exp(NNeg(c.xi (.) e))
DPSoftTip(c, dt, T, m, x, pt) == Account(c, dt, pt, Zero, T, m, KeepEpp(c, T, m, pt), x.visc, x.mui)
DPSoftRight(c, dt, T, m, x) ==
  LET s  == Shift(c, m)
      qy == c.M (.) ((T.p (+) s) (-) SoftTip(c, m.epd)) IN
  IF T.q \preceq qy THEN {Elastic(c, T, m, ClearEpp(c, m), x.visc, x.mui)}
  ELSE LET p2 == TLCEval(SoftTip(c, m.epd (+) (T.q (-) qy) (/) EPre(c)))
           q2 == TLCEval(c.M (.) ((T.p (+) s) (-) p2))
           tip  == DPSoftTip(c, dt, T, m, x, p2)
           side == Account(c, dt, T.p, q2, T, m, ClearEpp(c, m), x.visc, x.mui)
           near == NAbs((T.p (+) s) (-) p2) \preceq SigTol(c, T.p, p2)
       IN IF near THEN {tip, side} ELSE IF T.p (+) s \prec p2 THEN {tip} ELSE {side}
DruckerPragerSoft(c, dt, T, m, x) ==
  LET pt == TLCEval(SoftTip(c, m.epd))
      ps == T.p (+) Shift(c, m)
      near == NAbs(ps (-) pt) \preceq SigTol(c, T.p, pt)
  IN (IF near \/ ps \preceq pt THEN {DPSoftTip(c, dt, T, m, x, pt)} ELSE {})
     \cup (IF near \/ pt \prec ps THEN DPSoftRight(c, dt, T, m, x) ELSE {})

\* ---------------------------------------------------------- Cam-Clay laws --
Hardened(c, epv) ==
  CASE c.hl = "NoHard" -> c.p0
    [] c.hl \in {"ExpoExpl", "ExpoImpl"} -> c.p0 (.) Exp(NNeg(c.xi (.) epv))
    [] c.hl \in {"SinhExpl", "SinhImpl"} -> Bulk(c) (.) Sinh(NNeg(c.xi (.) epv) (+) Asinh(c.p0 (/) Bulk(c)))
    [] OTHER -> c.p0
ImplicitLaw(c) == c.hl \in {"ExpoImpl", "SinhImpl"}
Floor0(c) == IF c.hl = "SinhImpl" THEN Dec("0.01") ELSE IF ImplicitLaw(c) \/ c.hl = "NoHard" THEN Zero ELSE c.stol
\* preconsolidation pressure in force at the start of the step
Precons(c, epv) == NMax(Floor0(c), Hardened(c, epv))
Ellipse(fr, c, pc, p, q) == (Sq(fr) (.) (p (-) pc) (.) (p (+) c.beta (.) pc)) (+) Sq(q)
OnEllipse(fr, c, pc, p)  == fr (.) Sqrt(NMax(Zero, (pc (-) p) (.) (c.beta (.) pc (+) p)))
Centre(c, pc) == Half (.) (pc (-) c.beta (.) pc)
\* q is that of the ellipse at p, a pressure known within the resolution of stresses (the ellipse is steep at its ends)
QOnEllipse(fr, c, pc, p, q, tol) ==
  LET t == SigTol(c, p, pc) u == OnEllipse(fr, c, pc, p (-) t) w == OnEllipse(fr, c, pc, p (+) t) y == OnEllipse(fr, c, pc, p) IN
  /\ q \preceq NMax(y, NMax(u, w)) (+) tol
  /\ NMin(y, NMin(u, w)) (-) tol \preceq q

\* closest point of a fixed ellipse (associated flow): bisection on p between centre and the
\* ellipse's end on the trial state's side.  Miss(p) > 0 while p is too close to the centre.
Miss(fr, c, pc, T, p) ==
  LET q == OnEllipse(fr, c, pc, p) IN
  NAbs(T.p (-) p) (.) FPre(c) (.) Two (.) q (-) (T.q (-) q) (.) Bulk(c) (.) Sq(fr) (.) Two (.) NAbs(p (-) Centre(c, pc))
RECURSIVE Bisect(_, _, _, _, _, _, _)
Bisect(fr, c, pc, T, lo, hi, n) ==
  IF n = 0 THEN TLCEval(Half (.) (lo (+) hi))
  ELSE LET md == TLCEval(Half (.) (lo (+) hi)) IN
       IF Zero \prec Miss(fr, c, pc, T, md) THEN Bisect(fr, c, pc, T, md, hi, n - 1)
       ELSE Bisect(fr, c, pc, T, lo, md, n - 1)
ClosestP(fr, c, pc, T) ==
  LET e == IF Centre(c, pc) \prec T.p THEN NMin(T.p, pc) ELSE NMax(T.p, NNeg(c.beta (.) pc))
  IN Bisect(fr, c, pc, T, Centre(c, pc), e, 60)

\* Is (p, q) an acceptable rate-independent return of trial T?  fr: slope (M, or mu_1)
\* A material softened (almost) completely has an ellipse shrunk to (almost) a point: all that can
\* be asked is that the stress is inside the range of that ellipse.
Spent(c, pc) == pc \prec Dec("1e-3") (.) c.p0
SpentNow(c, pn) == ImplicitLaw(c) /\ pn \prec Dec("3e-2") (.) c.p0
InRange(fr, c, pc, p, q, tol) ==
  /\ NNeg(c.beta (.) pc) (-) tol \preceq p /\ p \preceq pc (+) tol
  /\ q \preceq Half (.) fr (.) (One (+) c.beta) (.) pc (+) tol
\* the tensile or compressive end of the ellipse, beyond which the solvers clip
AtEnd(c, pc, pn, T, p, q) ==
  LET t == Dec("2e-2") (.) pc IN
  /\ q \preceq t
  /\ \/ T.p \preceq p /\ NAbs(p (+) c.beta (.) pn) \preceq t
     \/ p \preceq T.p /\ NAbs(p (-) pn) \preceq t
CamClayReturn(fr, c, T, m, p, q) ==
  LET pc == TLCEval(Precons(c, m.epv)) IN
  IF ~ImplicitLaw(c)
  THEN IF Spent(c, pc) THEN InRange(fr, c, pc, p, q, Dec("1e-2") (.) pc (+) SigTol(c, T.p, T.q)) ELSE
       LET ps == TLCEval(ClosestP(fr, c, pc, T)) IN
       \* (the solver stops at residuals of 1e-3, in units of stress: felt where the material has all but lost its strength)
       /\ NAbs(p (-) ps) \preceq Dec("1e-4") (.) pc (+) Dec("2e-3") (.) (One (+) One (/) (Sq(fr) (.) pc))
       /\ QOnEllipse(fr, c, pc, p, q, Dec("1e-7") (.) pc (+) SigTol(c, p, q))
  ELSE LET pn == TLCEval(NMax(Floor0(c), Hardened(c, m.epv (+) (p (-) T.p) (/) Bulk(c))))
           dg == (T.p (-) p) (/) (Bulk(c) (.) Sq(fr) (.) Two (.) (p (-) Centre(c, pn)))
           qf == T.q (/) (One (+) Two (.) Shear(c) (.) dg)
       IN IF Spent(c, pc) \/ SpentNow(c, pn)
          THEN InRange(fr, c, NMax(pc, pn), p, q, Dec("1e-2") (.) NMax(pc, pn) (+) SigTol(c, T.p, T.q))
          ELSE \/ AtEnd(c, pc, pn, T, p, q)
               \/ /\ NNeg(c.beta (.) pn) (-) SigTol(c, p, pn) \preceq p /\ p \preceq pn (+) SigTol(c, p, pn)
                  /\ QOnEllipse(fr, c, pn, p, q, Dec("1e-5") (.) pc (+) SigTol(c, p, q))
                  /\ \/ NAbs(p (-) Centre(c, pn)) \preceq Dec("3e-4") (.) pc
                     \/ NAbs(Ellipse(fr, c, pn, p, qf)) \preceq Dec("2e-4") (.) Sq(pc)
\* near an end of the ellipse, the implicit solver's tolerance (1e-4 of pc^2 in the yield function) leaves q this open
EndTol(c, pc, pn, p) ==
  LET t == Dec("1e-3") (.) pc IN
  IF ImplicitLaw(c) /\ (NAbs(p (+) c.beta (.) pn) \preceq t \/ NAbs(p (-) pn) \preceq t) THEN Dec("2e-2") (.) pc ELSE Zero
CamClayYields(fr, c, T, m)  == Zero \prec Ellipse(fr, c, Precons(c, m.epv), T.p, T.q)
CamClayNear(fr, c, T, m)    == LET pc == Precons(c, m.epv) IN
                               NAbs(Ellipse(fr, c, pc, T.p, T.q)) \preceq Dec("1e-9") (.) (Sq(pc) (+) Sq(T.p) (+) Sq(T.q)) (+) Dec("1e-16") (.) Sq(c.E)

\* ------------------------------------------------------- viscoplastic laws --
\* residual of the flow rule when the shear stress is q and the yield stress (after
\* hardening by this very flow) qy
FlowResidual(c, dt, qT, q, qy) ==
  LET dg == NMax(Zero, (qT (-) q) (/) FPre(c)) IN
  IF c.duvaut
  THEN ((qT (-) qy) (-) (qT (-) q)) (-) (FPre(c) (.) Pow((c.vtime (/) dt) (.) dg, c.vexp))
  ELSE (q (.) Pow(dt (/) ((c.vtime (.) dg) (+) dt), c.vexp)) (-) qy
\* the linear laws in closed form
ViscousShear(c, dt, qT, qy) ==
  IF c.duvaut THEN qT (-) (qT (-) qy) (/) (One (+) c.vtime (/) dt)
  ELSE qT (-) (FPre(c) (.) (qT (-) qy)) (/) (FPre(c) (+) (qy (.) c.vtime) (/) dt)
SolverTol == Dec("1.05e-2")

\* yield stress of the viscous von Mises law
VMYield(c, e) == c.qmin (+) (c.qmax (-) c.qmin) (.) Exp(NNeg(c.xi (.) e))
VMCap(c, m) == c.pmin (.) Exp(NNeg(c.xi (.) m.epv))
VMCapped(c, T, m) == T.p \prec VMCap(c, m)
VMCapNear(c, T, m) == NAbs(T.p (-) VMCap(c, m)) \preceq SigTol(c, T.p, T.q)

\* --------------------------------------------------------- mu(I) rheology --
FacQ(c) == c.Iref (/) (c.gd (.) Sqrt(c.rhos))
\* strain rate solving  qT - F dt g = qy + (mu2 - mu1) P g / (Q sqrt(ps) + g)
MuiRate(c, dt, P, ps, over) ==
  LET a == FPre(c) (.) dt
      w == FacQ(c) (.) Sqrt(ps)
      b == (P (.) (c.mu2 (-) c.mu1) (+) a (.) w) (-) over
      k == NNeg(over (.) w)
      r == Sqrt(Sq(b) (-) Rat(4,1) (.) a (.) k)
  IN IF Zero \prec b THEN (Rat(-2,1) (.) k) (/) (b (+) r)     \* stable form of (-b + r) / 2a
     ELSE (r (-) b) (/) (Two (.) a)
MuiOf(c, ps, g) == c.mu1 (+) (c.mu2 (-) c.mu1) (/) ((FacQ(c) (.) Sqrt(ps)) (/) g (+) One)

DPMuiRight(c, dt, T, m) ==
  LET s  == Shift(c, m)
      pt == NNeg(c.qcoh (/) c.mu1)
      qy == c.mu1 (.) (T.p (+) s) (+) c.qcoh
      ps == NMax(Zero, (T.p (+) s) (-) pt) (+) c.stol
  IN IF T.q \preceq qy (+) c.stol THEN {Elastic(c, T, m, Zero, Zero, c.mu1)}
     ELSE LET one(P) == LET g == TLCEval(MuiRate(c, dt, P, ps, T.q (-) qy)) mi == TLCEval(MuiOf(c, ps, g)) IN
                        Account(c, dt, T.p, T.q (-) FPre(c) (.) dt (.) g, T, m, Zero, ((mi (-) c.mu1) (.) ps) (/) g, mi)
          IN {one(ps)}
DPMuiSet(c, dt, T, m) ==
  LET pt == NNeg(c.qcoh (/) c.mu1)
      ps == T.p (+) Shift(c, m)
      near == NAbs(ps (-) pt) \preceq SigTol(c, T.p, pt)
      nearY == NAbs((T.q (-) (c.mu1 (.) ps (+) c.qcoh)) (-) c.stol) \preceq SigTol(c, T.p, T.q)
  IN (IF near \/ ps \prec pt THEN {Account(c, dt, pt, Zero, T, m, m.epp (+) (pt (-) T.p) (/) Bulk(c), Zero, c.mu1)} ELSE {})
     \cup (IF near \/ pt \preceq ps THEN DPMuiRight(c, dt, T, m) ELSE {})
     \cup (IF nearY THEN {Elastic(c, T, m, Zero, Zero, c.mu1)} ELSE {})

\* ------------------------------------------------ laws given as functions --
ClosedForm(c) ==
  \/ c.pm \in {"NoPlasticity", "VM", "DP", "DPSoft", "DPMui"}
  \/ c.pm = "DPVisc" /\ c.vexp = One
  \/ c.pm = "VMVisc" /\ c.vexp = One /\ c.xi = Zero

DPViscTip(c) == NNeg(c.qcoh (/) c.M)
DPViscMui(c, T, m, q) ==
  LET ps == T.p (+) Shift(c, m) IN IF NAbs(ps) \prec Dec("1e-10") THEN Dec("1e10") ELSE (q (-) c.qcoh) (/) ps
DPViscSet(c, dt, T, m, x) ==
  LET pt == DPViscTip(c)
      ps == T.p (+) Shift(c, m)
      qy == c.M (.) ps (+) c.qcoh
      near == NAbs(ps (-) pt) \preceq SigTol(c, T.p, pt)
      mu0 == IF c.mibf THEN c.M ELSE x.mui
      q   == TLCEval(ViscousShear(c, dt, T.q, qy))
  IN (IF near \/ ps \prec pt THEN {Account(c, dt, pt, Zero, T, m, KeepEpp(c, T, m, pt), x.visc, mu0)} ELSE {})
     \cup (IF near \/ pt \preceq ps
           THEN IF qy \prec T.q
                THEN {Account(c, dt, T.p, q, T, m, ClearEpp(c, m), x.visc, IF c.mibf THEN DPViscMui(c, T, m, q) ELSE x.mui)}
                ELSE {Elastic(c, T, m, ClearEpp(c, m), x.visc, mu0)}
           ELSE {})
VMViscSet(c, dt, T, m, x) ==
  LET near == VMCapNear(c, T, m) qy == VMYield(c, m.epd) IN
  (IF near \/ VMCapped(c, T, m) THEN {Account(c, dt, Zero, Zero, T, m, m.epp, x.visc, x.mui)} ELSE {})
  \cup (IF near \/ ~VMCapped(c, T, m)
        THEN IF qy \prec T.q THEN {Account(c, dt, T.p, ViscousShear(c, dt, T.q, qy), T, m, m.epp, x.visc, x.mui)}
             ELSE {Elastic(c, T, m, m.epp, x.visc, x.mui)}
        ELSE {})

\* x: [visc, mui] before the step, for laws that leave them alone
Outcomes(c, dt, T, m, x) ==
  CASE c.pm = "NoPlasticity" -> {Elastic(c, T, m, m.epp, x.visc, x.mui)}
    [] c.pm = "VM"     -> {VonMises(c, dt, T, m, x)}
    [] c.pm = "DP"     -> {DruckerPrager(c, dt, T, m, x)}
    [] c.pm = "DPSoft" -> DruckerPragerSoft(c, dt, T, m, x)
    [] c.pm = "VMVisc" -> VMViscSet(c, dt, T, m, x)
    [] c.pm = "DPVisc" -> DPViscSet(c, dt, T, m, x)
    [] c.pm = "DPMui"  -> DPMuiSet(c, dt, T, m)

\* ----------------------------------------------- laws given as relations --
\* o: observed [p, q, epd, epv, epp, rate, visc, mui]
SameState(c, T, o) == NAbs(o.p (-) T.p) \preceq SigTol(c, T.p, T.q) /\ NAbs(o.q (-) T.q) \preceq SigTol(c, T.p, T.q)

\* nonlinear viscous laws: the flow rule is met within the solver's absolute tolerance
VMViscRel(c, dt, T, m, o) ==
  LET qy == VMYield(c, m.epd) qn == VMYield(c, m.epd (+) (T.q (-) o.q) (/) EPre(c)) IN
  \/ (VMCapNear(c, T, m) \/ VMCapped(c, T, m)) /\ NAbs(o.p) \preceq SigTol(c, T.p, T.q) /\ o.q \preceq SigTol(c, T.p, T.q)
  \/ /\ VMCapNear(c, T, m) \/ ~VMCapped(c, T, m)
     /\ IF T.q \preceq qy THEN SameState(c, T, o)
        ELSE /\ NAbs(o.p (-) T.p) \preceq SigTol(c, T.p, T.q)
             /\ NAbs(FlowResidual(c, dt, T.q, o.q, qn)) \preceq SolverTol (+) SigTol(c, T.p, T.q)
DPViscRel(c, dt, T, m, o) ==
  LET pt == DPViscTip(c) ps == T.p (+) Shift(c, m) qy == c.M (.) ps (+) c.qcoh
      near == NAbs(ps (-) pt) \preceq SigTol(c, T.p, pt)
      tip  == NAbs(o.p (-) pt) \preceq SigTol(c, T.p, pt) /\ o.q \preceq SigTol(c, T.p, T.q)
      side == IF T.q \preceq qy THEN SameState(c, T, o)
              ELSE /\ NAbs(o.p (-) T.p) \preceq SigTol(c, T.p, T.q)
                   /\ NAbs(FlowResidual(c, dt, T.q, o.q, qy)) \preceq SolverTol (+) SigTol(c, T.p, T.q)
  IN \/ (near \/ ps \prec pt) /\ tip
     \/ (near \/ pt \preceq ps) /\ side

CamClayRel(fr, c, T, m, o) ==
  \/ ~CamClayYields(fr, c, T, m) /\ SameState(c, T, o)
  \/ CamClayNear(fr, c, T, m) /\ SameState(c, T, o)
  \/ (CamClayYields(fr, c, T, m) \/ CamClayNear(fr, c, T, m)) /\ CamClayReturn(fr, c, T, m, o.p, o.q)

\* a law with memory m and outcome o acting on a (nearly) completely softened material
SpentCase(c, T, m, o) ==
  Spent(c, Precons(c, m.epv)) \/ SpentNow(c, Hardened(c, m.epv (+) (o.p (-) T.p) (/) Bulk(c)))
Between(c, T, m, o) ==      \* between the trial state and the range of the ellipse
  LET pm == NMax(Precons(c, m.epv), Hardened(c, m.epv (+) (o.p (-) T.p) (/) Bulk(c)))
      t  == Dec("1e-2") (.) pm (+) SigTol(c, T.p, T.q) IN
  /\ o.p \preceq NMax(T.p, pm) (+) t /\ NMin(T.p, NNeg(c.beta (.) pm)) (-) t \preceq o.p
  /\ o.q \preceq T.q (+) t

\* the linear blend of Duvaut and Lions, undone: the rate-independent return it blends towards
Unblend(b, trial, got) == (got (-) (One (-) b) (.) trial) (/) b
MCCViscRel(c, dt, T, m, o) ==
  \/ (~CamClayYields(c.M, c, T, m) \/ CamClayNear(c.M, c, T, m)) /\ SameState(c, T, o)
  \/ SpentCase(c, T, m, o) /\ Between(c, T, m, o)
  \/ /\ CamClayYields(c.M, c, T, m) \/ CamClayNear(c.M, c, T, m)
     /\ ~SpentCase(c, T, m, o)
     /\ IF c.duvaut
        THEN LET b == One (/) (One (+) c.vtime (/) dt) IN
             CamClayReturn(c.M, c, T, m, Unblend(b, T.p, o.p), Unblend(b, T.q, o.q))
        ELSE LET pc == Precons(c, m.epv)
                 pn == IF ImplicitLaw(c) THEN NMax(Floor0(c), Hardened(c, m.epv (+) (o.p (-) T.p) (/) Bulk(c))) ELSE pc
                 qy == TLCEval(OnEllipse(c.M, c, pn, o.p)) IN
             /\ CamClayReturn(c.M, c, T, m, o.p, qy)
             /\ NAbs(FlowResidual(c, dt, T.q, o.q, qy)) \preceq EndTol(c, pc, pn, o.p) (+)
                  (IF c.vexp = One THEN Dec("1e-5") (.) pc ELSE SolverTol (+) Dec("1e-5") (.) pc)

\* mu(I) on top of Cam-Clay: viscous excess above the ellipse of slope mu_1
MCCMuiRel(c, dt, T, m, o) ==
  \/ (~CamClayYields(c.mu1, c, T, m) \/ CamClayNear(c.mu1, c, T, m)) /\ SameState(c, T, o)
  \/ SpentCase(c, T, m, o) /\ Between(c, T, m, o)
  \/ /\ CamClayYields(c.mu1, c, T, m) \/ CamClayNear(c.mu1, c, T, m)
     /\ ~SpentCase(c, T, m, o)
     /\ LET epv1 == m.epv (+) (o.p (-) T.p) (/) Bulk(c)
            pcs  == Precons(c, m.epv)
            pn   == TLCEval(IF ImplicitLaw(c) THEN NMax(Floor0(c), Hardened(c, epv1)) ELSE pcs)
            qs   == TLCEval(OnEllipse(c.mu1, c, pn, o.p))
            pc   == IF ImplicitLaw(c) THEN NMax(Hardened(c, epv1), o.p (+) c.stol) ELSE pcs
            ps   == NMax(Zero, o.p (+) c.beta (.) pc) (+) c.stol
            g    == TLCEval(MuiRate(c, dt, Sqrt((pc (-) o.p) (.) ps), ps, T.q (-) qs))
            tol  == Dec("1e-5") (.) pcs (+) SigTol(c, T.p, T.q) (+) EndTol(c, pcs, pn, o.p)
        IN /\ CamClayReturn(c.mu1, c, T, m, o.p, qs)
           /\ IF T.q \preceq qs (+) c.stol THEN NAbs(o.q (-) qs) \preceq tol (+) c.stol
              ELSE \/ NAbs(o.q (-) NMax(qs, T.q (-) FPre(c) (.) dt (.) g)) \preceq tol
                   \/ T.q \preceq qs (+) c.stol (+) tol /\ NAbs(o.q (-) qs) \preceq tol (+) c.stol

Relation(c, dt, T, m, o) ==
  CASE c.pm = "VMVisc"  -> VMViscRel(c, dt, T, m, o)
    [] c.pm = "DPVisc"  -> DPViscRel(c, dt, T, m, o)
    [] c.pm = "MCC"     -> CamClayRel(c.M, c, T, m, o)
    [] c.pm = "MCCVisc" -> MCCViscRel(c, dt, T, m, o)
    [] c.pm = "MCCMui"  -> MCCMuiRel(c, dt, T, m, o)

\* ------------------------------------------------------ laws that can fail --
CamClay(c) == c.pm \in {"MCC", "MCCVisc", "MCCMui"}
HardeningLaws(c) == {"ExpoExpl", "SinhExpl", "ExpoImpl", "SinhImpl"} \cup (IF c.pm = "MCCMui" THEN {} ELSE {"NoHard"})
BadHardening(c) == CamClay(c) /\ c.hl \notin HardeningLaws(c)
BadExponent(c)  == c.pm = "MCCVisc" /\ c.duvaut /\ c.vexp # One        \* unusable as soon as a particle yields
\* laws whose stress is found by iteration: the iteration may give up
Iterates(c) == \/ CamClay(c) /\ ImplicitLaw(c)
               \/ c.pm = "VMVisc" /\ ~(c.vexp = One /\ c.xi = Zero)
               \/ c.pm = "DPVisc" /\ c.vexp # One
               \/ c.pm = "MCCVisc" /\ ~c.duvaut /\ c.vexp # One

\* the stress is where the law says
StressOk(c, dt, T, m, x, o) ==
  IF ClosedForm(c)
  THEN \E r \in Outcomes(c, dt, T, m, x) :
         /\ NAbs(o.p (-) r.p) \preceq SigTol(c, T.p, T.q) /\ NAbs(o.q (-) r.q) \preceq SigTol(c, T.p, T.q)
         /\ c.pradhana => NAbs(o.epp (-) r.epp) \preceq Tol (.) (NAbs(m.epp) (+) NAbs(T.tr)) (+) Dec("1e-11")
  ELSE Relation(c, dt, T, m, o)

\* ------------------------------------------------------ the elastic range ---
\* the law leaves the trial state T alone, and no choice between two regimes is involved
Rests(c, dt, T, m, x) ==
  CASE c.pm = "NoPlasticity" -> TRUE
    [] CamClay(c) -> LET fr == IF c.pm = "MCCMui" THEN c.mu1 ELSE c.M IN ~CamClayYields(fr, c, T, m) /\ ~CamClayNear(fr, c, T, m)
    [] c.pm = "VMVisc" -> ~VMCapped(c, T, m) /\ ~VMCapNear(c, T, m) /\ T.q \preceq VMYield(c, m.epd)
    [] c.pm = "DPVisc" -> LET ps == T.p (+) Shift(c, m) IN DPViscTip(c) \prec ps /\ T.q \preceq c.M (.) ps (+) c.qcoh
    [] OTHER -> \A r \in Outcomes(c, dt, T, m, x) : NAbs(r.p (-) T.p) \preceq SigTol(c, T.p, T.q) /\ NAbs(r.q (-) T.q) \preceq SigTol(c, T.p, T.q)
\* ... and so for its neighbours: the trial state is well inside the elastic range
WellInside(c, dt, T, m, x) ==
  LET d == Rat(100,1) (.) SigTol(c, T.p, T.q)
      at(p, q) == Rests(c, dt, [T EXCEPT !.p = p, !.q = q], m, x)
  IN at(T.p, T.q) /\ at(T.p (+) d, T.q (+) d) /\ at(T.p (-) d, T.q (+) d)

\* the viscous von Mises and Drucker-Prager laws: the flow rule has its one root well to the right of the smallest
\* increment, where the iteration is put when it overshoots. The residual falls monotonically and is convex or concave
\* in the increment, so that every Newton iteration finds the root: giving up there is an error
SureToConverge(c, dt, T, m) ==
  LET qy   == IF c.pm = "VMVisc" THEN VMYield(c, m.epd) ELSE c.M (.) (T.p (+) Shift(c, m)) (+) c.qcoh
      iter == CASE c.pm = "VMVisc" -> c.xi = Zero /\ ~VMCapped(c, T, m) /\ ~VMCapNear(c, T, m)
                [] c.pm = "DPVisc" -> DPViscTip(c) (+) SigTol(c, T.p, T.q) \prec T.p (+) Shift(c, m)
                [] OTHER -> FALSE
  IN /\ iter
     /\ Dec("0.4") \preceq c.vexp /\ c.vexp \preceq Dec("2.5") /\ c.vtime \preceq Rat(100,1) (.) dt
     /\ Dec("1e-3") (.) T.q \preceq qy /\ T.q \preceq Dec("1e10")
     /\ One \prec FlowResidual(c, dt, T.q, T.q (-) FPre(c) (.) Dec("1e-9"), qy)
\* the implicit Cam-Clay return from outside the compacting half of the ellipse: hardening, never a turning point
SureToReturn(c, T, m) ==
  LET fr == IF c.pm = "MCCMui" THEN c.mu1 ELSE c.M  pc == Precons(c, m.epv) IN
  /\ CamClay(c) /\ (c.pm = "MCCVisc" => c.duvaut /\ c.vexp = One)
  /\ ~Spent(c, pc)
  /\ Dec("0.65") (.) pc \preceq T.p /\ T.p \preceq Dec("1.9") (.) pc
  /\ Ellipse(fr, c, pc, T.p, T.q) \preceq Rat(3,1) (.) Sq(fr) (.) Sq(pc)

\* ------------------------------------------------- plastic strain ledger ---
\* whatever the law, the plastic strains and the reported rate record exactly what the return removed
StrainTol(T, m) == Tol (.) (T.dn (+) NAbs(T.tr) (+) NAbs(m.epd) (+) NAbs(m.epv)) (+) Dec("1e-11")
Ledger(c, dt, T, m, o, trNow, dnNow) ==
  LET dd == T.dn (-) dnNow
      dv == T.tr (-) trNow
      \* an isotropic trial state brought to an end of the ellipse, where q is known only to the root of the resolution
      axis == c.pm \in {"MCC", "MCCVisc", "MCCMui"} /\ T.q \preceq Dec("1e-6") (.) Precons(c, m.epv)
      t  == StrainTol(T, m) (+) (IF axis THEN (Dec("1e-6") (.) Precons(c, m.epv)) (/) EPre(c) ELSE Zero)
      small == IF c.pm = "MCCMui" THEN (Two (.) c.stol) (/) EPre(c) ELSE Zero
      recorded == NAbs((o.epd (-) m.epd) (-) dd) \preceq t /\ NAbs(o.rate (-) (DPre(c) (.) dd) (/) dt) \preceq (Two (.) DPre(c) (.) t) (/) dt
      skipped  == NAbs(dd) \preceq small (+) t /\ o.epd = m.epd /\ o.rate = Zero
  IN /\ NAbs((o.epv (-) m.epv) (-) dv) \preceq t
     /\ recorded \/ skipped
LedgerMonotone(c, T, m, o) ==
  NNeg(StrainTol(T, m) (+) (IF c.pm \in {"MCC", "MCCVisc", "MCCMui"} THEN (Dec("1e-3") (.) c.p0) (/) EPre(c) ELSE Zero)) \preceq o.epd (-) m.epd
=============================================================================
