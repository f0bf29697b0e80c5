----------------------------- MODULE MC_CamClay -----------------------------
(***************************************************************************)
(* Exhaustive: one particle under the three Cam-Clay based laws, with      *)
(* every hardening rule.  The laws are specified by a relation between the *)
(* trial state and the outcome (Constitutive!Relation); here the relation  *)
(* is solved, so that histories of strain can be explored, and theorems    *)
(* about the laws are stated on every reachable state: the relation        *)
(* accepts its solution and nothing far from it, stress ends on the        *)
(* ellipse, plastic flow is associated (maximum dissipation), compaction   *)
(* hardens and dilation softens, plastic strains are a ledger.             *)
(***************************************************************************)
EXTENDS Constitutive, Json
CONSTANT Big

VARIABLES c, p, q, m, last, n
vars == <<c, p, q, m, last, n>>

Base == [dim |-> 2, E |-> Rat(100,1), nu |-> Rat(1,4), qpre |-> Sqrt(Half), em |-> "Hencky", pm |-> "MCC", hl |-> "NoHard",
         qmax |-> Two, qmin |-> One, pmin |-> Rat(-2,1), xi |-> Rat(4,1), M |-> Half, qcoh |-> Zero, mu1 |-> Rat(2,5), mu2 |-> Rat(4,5),
         p0 |-> Rat(3,1), beta |-> Rat(1,4), stol |-> Dec("1e-6"), pradhana |-> FALSE, vtime |-> Zero, vexp |-> One, duvaut |-> FALSE,
         Iref |-> Rat(3,10), gd |-> Dec("0.01"), rhos |-> Rat(2500,1), mibf |-> FALSE]
Hards == {"NoHard", "ExpoExpl", "SinhExpl", "ExpoImpl", "SinhImpl"}
Betas == {Zero, Rat(1,4)} \cup IF Big THEN {Half, One} ELSE {}
MCCs  == {[Base EXCEPT !.hl = h, !.beta = b, !.M = k] : h \in Hards, b \in Betas, k \in (IF Big THEN {Half, Rat(6,5)} ELSE {Half})}
Viscs == {[Base EXCEPT !.pm = "MCCVisc", !.hl = h, !.vtime = vt, !.duvaut = d] : h \in Hards, vt \in {Zero, Rat(1,100)} \cup (IF Big THEN {One} ELSE {}), d \in BOOLEAN}
Muis  == {[Base EXCEPT !.pm = "MCCMui", !.hl = h, !.beta = b, !.mibf = TRUE] : h \in Hards \ {"NoHard"}, b \in Betas}
Laws  == MCCs \cup Viscs \cup Muis

Dt == Dec("0.01")
Comps  == IF Big THEN {-3, -1, 0, 2, 5} ELSE {-3, 0, 4}
Shears == IF Big THEN {-2, 0, 1, 4} ELSE {0, 3}
Depth  == IF Big THEN 3 ELSE 2

Slope(cf) == IF cf.pm = "MCCMui" THEN cf.mu1 ELSE cf.M
Tr(cf, tp, tq) == [p |-> tp, q |-> tq, tr |-> NNeg(tp (/) Bulk(cf)), dn |-> tq (/) EPre(cf)]

\* ------------------------------------------------ solving the relation -------
After(cf, T, m1, pp) == NMax(Floor0(cf), Hardened(cf, m1.epv (+) (pp (-) T.p) (/) Bulk(cf)))     \* preconsolidation pressure once the pressure is pp
\* the pressure at which the hardened ellipse has its centre: unique, since hardening only recedes as the pressure grows
RECURSIVE Mid(_, _, _, _, _, _)
Mid(cf, T, m1, lo, hi, k) ==
  IF k = 0 THEN hi
  ELSE LET md == TLCEval(Half (.) (lo (+) hi)) IN
       IF Zero \prec md (-) Centre(cf, After(cf, T, m1, md)) THEN Mid(cf, T, m1, lo, md, k - 1) ELSE Mid(cf, T, m1, md, hi, k - 1)
\* yield function after associated flow that ends at pressure pp
Over(cf, T, m1, pp) ==
  LET pn == TLCEval(After(cf, T, m1, pp))
      dg == (T.p (-) pp) (/) (Bulk(cf) (.) Sq(Slope(cf)) (.) Two (.) (pp (-) Centre(cf, pn)))
      qf == T.q (/) (One (+) Two (.) Shear(cf) (.) dg)
  IN Ellipse(Slope(cf), cf, pn, pp, qf)
RECURSIVE Root(_, _, _, _, _, _)
Root(cf, T, m1, out, in, k) ==       \* Over > 0 at out, <= 0 at in
  IF k = 0 THEN in
  ELSE LET md == TLCEval(Half (.) (out (+) in)) IN
       IF Zero \prec Over(cf, T, m1, md) THEN Root(cf, T, m1, md, in, k - 1) ELSE Root(cf, T, m1, out, md, k - 1)
\* the rate-independent return: pressure, and preconsolidation pressure of the ellipse it ends on
Returned(cf, T, m1) ==
  IF ImplicitLaw(cf)
  THEN LET far == Rat(20,1)
           md == TLCEval(Mid(cf, T, m1, NNeg(far), far, 40))
           pp == TLCEval(Root(cf, T, m1, T.p, md, 50))
       IN [p |-> pp, pc |-> After(cf, T, m1, pp)]
  ELSE LET pc == TLCEval(Precons(cf, m1.epv)) IN [p |-> TLCEval(ClosestP(Slope(cf), cf, pc, T)), pc |-> pc]

Rheology(cf, T, R) ==
  LET qs == TLCEval(NMin(T.q, OnEllipse(cf.mu1, cf, R.pc, R.p)))
      pc == IF ImplicitLaw(cf) THEN NMax(R.pc, R.p (+) cf.stol) ELSE R.pc
      ps == NMax(Zero, R.p (+) cf.beta (.) pc) (+) cf.stol
  IN IF T.q \preceq qs (+) cf.stol THEN qs
     ELSE NMax(qs, T.q (-) FPre(cf) (.) Dt (.) MuiRate(cf, Dt, Sqrt((pc (-) R.p) (.) ps), ps, T.q (-) qs))
Book(cf, T, m1, pp, qq) ==
  [p |-> pp, q |-> qq, epd |-> m1.epd (+) (T.q (-) qq) (/) EPre(cf), epv |-> m1.epv (+) (pp (-) T.p) (/) Bulk(cf), epp |-> m1.epp,
   rate |-> (DPre(cf) (.) ((T.q (-) qq) (/) EPre(cf))) (/) Dt, visc |-> Zero, mui |-> cf.mu1]
Solve(cf, T, m1) ==
  IF ~CamClayYields(Slope(cf), cf, T, m1) THEN Book(cf, T, m1, T.p, T.q)
  ELSE LET R == TLCEval(Returned(cf, T, m1)) qs == TLCEval(NMin(T.q, OnEllipse(Slope(cf), cf, R.pc, R.p))) IN
       CASE cf.pm = "MCC" -> Book(cf, T, m1, R.p, qs)
         [] cf.pm = "MCCVisc" /\ cf.duvaut ->
              LET b == One (/) (One (+) cf.vtime (/) Dt) IN
              Book(cf, T, m1, TLCEval((One (-) b) (.) T.p (+) b (.) R.p), TLCEval((One (-) b) (.) T.q (+) b (.) qs))
         [] cf.pm = "MCCVisc" /\ ~cf.duvaut -> Book(cf, T, m1, R.p, TLCEval(ViscousShear(cf, Dt, T.q, qs)))
         [] cf.pm = "MCCMui" -> Book(cf, T, m1, R.p, TLCEval(Rheology(cf, T, R)))

\* ----------------------------------------------------------------- histories --
Nothing == [epd |-> Zero, epv |-> Zero, epp |-> Zero]
Init == /\ c \in Laws /\ p = Zero /\ q = Zero /\ m = Nothing /\ n = 0
        /\ last = [T |-> Tr(c, Zero, Zero), m |-> Nothing, r |-> Book(c, Tr(c, Zero, Zero), Nothing, Zero, Zero)]
Strain == /\ n < Depth
          /\ \E dp \in Comps, dq \in Shears :
               LET T == TLCEval(Tr(c, p (+) Rat(dp, 2), NAbs(q (+) Rat(dq, 2)))) r == TLCEval(Solve(c, T, m)) IN
               /\ p' = r.p /\ q' = r.q /\ m' = [epd |-> r.epd, epv |-> r.epv, epp |-> Zero]
               /\ last' = [T |-> T, m |-> m, r |-> r]
          /\ n' = n + 1 /\ UNCHANGED c
Next == Strain
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ theorems --
T == last.T
r == last.r
m0 == last.m
fr == Slope(c)
pc0 == Precons(c, m0.epv)
YieldsNow == CamClayYields(fr, c, T, m0)
Clear == YieldsNow /\ ~CamClayNear(fr, c, T, m0) /\ ~SpentCase(c, T, m0, r)
t9 == SigTol(c, T.p, T.q)
\* the relation the code is held to accepts the solution ...
Solvable == Relation(c, Dt, T, m0, r)
\* ... and nothing else: neither the trial state, nor a point of the ellipse elsewhere, nor a stress off the ellipse
Fine == Dec("0.02") (.) pc0
Moved(o, dp, dq) == [o EXCEPT !.p = @ (+) dp, !.q = @ (+) dq]
Sharp == (Clear /\ Dec("0.1") (.) c.p0 \prec pc0 /\ Dec("0.1") \prec r.q /\ Dec("0.1") (.) pc0 \prec T.q (-) r.q) =>
   /\ (c.vtime = Zero \/ ~c.duvaut) => ~Relation(c, Dt, T, m0, Moved(r, Zero, Fine)) /\ ~Relation(c, Dt, T, m0, Moved(r, Zero, NNeg(Fine)))
   /\ ~Relation(c, Dt, T, m0, [r EXCEPT !.p = T.p, !.q = T.q])
\* rate-independent stress ends on its ellipse; viscous stress between it and the trial state
pcn == IF ImplicitLaw(c) THEN Hardened(c, m.epv) ELSE pc0
Surface == (Clear /\ c.pm = "MCC") => NAbs(Ellipse(fr, c, pcn, r.p, r.q)) \preceq Dec("1e-6") (.) Sq(pc0)
Outside == (Clear /\ c.pm # "MCC" /\ ~c.duvaut) => NNeg(Dec("1e-6")) (.) Sq(pc0) \preceq Ellipse(fr, c, pcn, r.p, r.q)
Removes == NNeg(t9) \preceq r.q /\ r.q \preceq T.q (+) t9
\* associated flow: no state of the final ellipse would have dissipated more
Raster == {Rat(k, 8) : k \in 0..8}
Dissipates == (Clear /\ c.pm = "MCC") =>
   \A a \in Raster :
      LET ps == pcn (.) ((One (+) c.beta) (.) a (-) c.beta) qs == OnEllipse(fr, c, pcn, ps) IN
      NNeg(Dec("1e-6") (.) Sq(pc0)) (/) Bulk(c) \preceq ((T.p (-) r.p) (.) (r.p (-) ps)) (/) Bulk(c) (+) ((T.q (-) r.q) (.) (r.q (-) qs)) (/) FPre(c)
\* beyond the centre flow compacts and hardens, before it flow dilates and softens
Hardens == (Clear /\ c.pm = "MCC") =>
   LET off == r.p (-) Centre(c, pcn) big == Dec("1e-3") (.) pc0 IN
   /\ big \prec off => m.epv \preceq m0.epv /\ (c.hl # "NoHard" => Precons(c, m0.epv) \preceq Hardened(c, m.epv) (+) t9)
   /\ off \prec NNeg(big) => m0.epv \preceq m.epv /\ (c.hl # "NoHard" => Hardened(c, m.epv) \preceq Precons(c, m0.epv) (+) t9)
Records == Ledger(c, Dt, T, m0, r, NNeg(r.p (/) Bulk(c)), r.q (/) EPre(c)) /\ LedgerMonotone(c, T, m0, r)
Idle == ~YieldsNow => r.p = T.p /\ r.q = T.q /\ m = m0
NoExtras == [visc |-> Zero, mui |-> Zero]
Stays == WellInside(c, Dt, T, m0, NoExtras) => r.p = T.p /\ r.q = T.q /\ m = m0
Inner == (Ellipse(fr, c, pc0, T.p, T.q) \prec NNeg(Dec("0.1")) (.) Sq(pc0) /\ Dec("1e-3") (.) c.p0 \prec pc0) => WellInside(c, Dt, T, m0, NoExtras)
\* no viscous time: the viscous law is the plain one
Limit == (c.pm = "MCCVisc" /\ c.vtime = Zero) => LET o == Solve([c EXCEPT !.pm = "MCC"], T, m0) IN NAbs(o.p (-) r.p) \preceq t9 /\ NAbs(o.q (-) r.q) \preceq t9
\* explicit and implicit rules differ only by the hardening within the step
\* ------------------------------------------- behaviours for the real code --
Emit == n > 0 => PrintT("CASE " \o ToJson([c |-> c, p |-> T.p, q |-> T.q, m |-> m0]))
=============================================================================
