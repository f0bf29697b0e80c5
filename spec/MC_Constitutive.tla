--------------------------- MODULE MC_Constitutive --------------------------
(***************************************************************************)
(* Exhaustive: one particle under each plastic law.  Its history is a      *)
(* sequence of strain increments (compression, extension, shear) from a    *)
(* small set; in each step the law maps the trial state to a new state.    *)
(* Theorems about the laws themselves are stated on every reachable state: *)
(* stress on or inside the yield surface, plastic strain a ledger of what  *)
(* was removed, viscous stress between yield surface and trial state,      *)
(* friction between its limits, no spontaneous plasticity.                 *)
(* Laws that are given by relations are explored by solving the relation   *)
(* on a fine raster of candidates.                                         *)
(***************************************************************************)
EXTENDS Constitutive, Json
CONSTANT Big

VARIABLES c, p, q, m, x, last, n
vars == <<c, p, q, m, x, last, n>>

Base == [dim |-> 2, E |-> Rat(100,1), nu |-> Rat(1,4), qpre |-> Sqrt(Half), em |-> "Hencky", pm |-> "VM", hl |-> "NoHard",
         qmax |-> Two, qmin |-> One, pmin |-> Rat(-2,1), xi |-> Zero, M |-> Half, qcoh |-> Rat(1,4), mu1 |-> Rat(2,5), mu2 |-> Rat(4,5),
         p0 |-> Rat(3,1), beta |-> Rat(1,4), stol |-> Dec("1e-9"), pradhana |-> FALSE, vtime |-> Zero, vexp |-> One, duvaut |-> FALSE,
         Iref |-> Rat(3,10), gd |-> Dec("0.01"), rhos |-> Rat(2500,1), mibf |-> FALSE]
VMs   == {Base}
DPs   == {[Base EXCEPT !.pm = "DP"], [Base EXCEPT !.pm = "DP", !.qcoh = Zero]}
Softs == {[Base EXCEPT !.pm = "DPSoft", !.xi = Rat(z, 1), !.pradhana = pr, !.qcoh = Rat(k, 4)] : z \in {0, 10}, pr \in BOOLEAN, k \in {1, 2}}
VMVs  == {[Base EXCEPT !.pm = "VMVisc", !.vtime = vt, !.duvaut = dl] : vt \in {Zero, Rat(1,100), One}, dl \in BOOLEAN}
DPVs  == {[Base EXCEPT !.pm = "DPVisc", !.vtime = vt, !.duvaut = dl, !.pradhana = pr, !.mibf = mb] : vt \in {Zero, Rat(1,100), One}, dl \in BOOLEAN, pr \in BOOLEAN, mb \in BOOLEAN}
DPMs  == {[Base EXCEPT !.pm = "DPMui", !.pradhana = pr, !.qcoh = Rat(k, 8), !.mibf = TRUE] : pr \in BOOLEAN, k \in {0, 1}}
Laws  == VMs \cup DPs \cup Softs \cup VMVs \cup DPVs \cup DPMs

Dt == Dec("0.01")
Comps  == IF Big THEN {-4, -1, 0, 1, 3} ELSE {-3, 0, 2}       \* pressure increments, in units of the stress scale
Shears == IF Big THEN {-3, -1, 0, 1, 4} ELSE {-2, 0, 3}
Depth  == IF Big THEN 4 ELSE 3

\* a trial state with pressure tp and shear tq
Tr(cf, tp, tq) == [p |-> tp, q |-> tq, tr |-> NNeg(tp (/) Bulk(cf)), dn |-> tq (/) EPre(cf)]
Init == /\ c \in Laws /\ p = Zero /\ q = Zero /\ m = [epd |-> Zero, epv |-> Zero, epp |-> Zero]
        /\ x = [visc |-> Zero, mui |-> IF c.pm = "DPMui" THEN c.mu1 ELSE c.M] /\ n = 0
        /\ last = [T |-> Tr(c, Zero, Zero), m |-> m, r |-> Elastic(c, Tr(c, Zero, Zero), m, Zero, Zero, x.mui)]
Strain == /\ n < Depth
          /\ \E dp \in Comps, dq \in Shears :
               LET T == TLCEval(Tr(c, p (+) Rat(dp, 2), NAbs(q (+) Rat(dq, 2)))) IN
               \E r \in Outcomes(c, Dt, T, m, x) :
                 /\ p' = r.p /\ q' = r.q /\ m' = [epd |-> r.epd, epv |-> r.epv, epp |-> r.epp] /\ x' = [visc |-> r.visc, mui |-> r.mui]
                 /\ last' = [T |-> T, m |-> m, r |-> r]
          /\ n' = n + 1 /\ UNCHANGED c
Next == Strain
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- theorems ---
T == last.T
r == last.r
m0 == last.m
t9 == SigTol(c, T.p, T.q)
\* slope and tip of the cone in force for the outcome
Yield(cf, pp, mm) ==
  CASE cf.pm \in {"VM"} -> cf.qmax
    [] cf.pm = "VMVisc" -> VMYield(cf, mm.epd)
    [] cf.pm \in {"DP", "DPVisc"} -> cf.M (.) (pp (+) Shift(cf, m0)) (+) cf.qcoh
    [] cf.pm = "DPSoft" -> cf.M (.) ((pp (+) Shift(cf, m0)) (-) SoftTip(cf, mm.epd))
    [] cf.pm = "DPMui" -> cf.mu1 (.) (pp (+) Shift(cf, m0)) (+) cf.qcoh
TipP(cf) == CASE cf.pm \in {"DP", "DPVisc"} -> NNeg(cf.qcoh (/) cf.M) [] cf.pm = "DPMui" -> NNeg(cf.qcoh (/) cf.mu1) [] OTHER -> Zero
AtTip == r.q = Zero /\ Zero \prec T.q
\* the return never leaves the trial state's half of the diagram, and removes shear only
Removes   == r.q \preceq T.q (+) t9 /\ NNeg(t9) \preceq r.q
\* softening is taken over the plastic strain of the unsoftened return: the stress lies between the old and the fully softened cone
Softened  == (c.pm = "DPSoft" /\ r.q # Zero /\ Yield(c, T.p, m0) \prec T.q) => Yield(c, r.p, m) (-) t9 \preceq r.q /\ r.q \preceq Yield(c, r.p, m0) (+) t9
OnSurface == ((c.pm \in {"VM", "DP", "DPSoft"} /\ (c.pm = "DPSoft" => c.xi = Zero)) \/ (c.pm \in {"VMVisc", "DPVisc"} /\ c.vtime = Zero)) => r.q \preceq Yield(c, r.p, m) (+) t9 \/ AtTip \/ r.q \preceq t9
Viscous   == (c.pm \in {"VMVisc", "DPVisc"} /\ Yield(c, T.p, m0) \prec T.q /\ r.q # Zero) => Yield(c, T.p, m0) (-) t9 \preceq r.q
KeepsP    == r.p = T.p \/ r.q = Zero                       \* pressure changes only by a return to the tip or cap
NoTension == c.pm = "DP" => NNeg(c.qcoh (/) c.M) (-) t9 \preceq r.p
Records   == Ledger(c, Dt, T, m0, r, NNeg(r.p (/) Bulk(c)), r.q (/) EPre(c))
Grows     == m0.epd \preceq m.epd (+) StrainTol(T, m0)
Idle      == (r.p = T.p /\ r.q = T.q) => m.epd = m0.epd /\ m.epv = m0.epv /\ r.rate = Zero
\* well inside the elastic range nothing happens, and a tenth below the yield stress is well inside
Stays     == WellInside(c, Dt, T, m0, x) => NAbs(r.p (-) T.p) \preceq t9 /\ NAbs(r.q (-) T.q) \preceq t9 /\ m.epd = m0.epd /\ m.epv = m0.epv
Inner     == LET y == Yield(c, T.p, m0) IN
             (Dec("0.01") \prec y /\ T.q \preceq Dec("0.9") (.) y /\ (c.pm = "VMVisc" => VMCap(c, m0) (+) Dec("0.01") \prec T.p)) => WellInside(c, Dt, T, m0, x)
Friction  == c.pm = "DPMui" => c.mu1 \preceq r.mui /\ r.mui \preceq c.mu2 /\ Zero \preceq r.visc
\* the granular law: stress above the static surface is what the friction coefficient says
Granular  == (c.pm = "DPMui" /\ c.mu1 \prec r.mui) =>
               LET P == (T.p (+) Shift(c, m0)) (+) c.qcoh (/) c.mu1 IN NAbs(r.q (-) r.mui (.) P) \preceq Dec("1e-6") (.) (One (+) r.q)
\* a rate-independent law does nothing more to a state it has just produced, at rest
Settles   == (c.pm \in {"VM", "DP"} /\ n > 0) =>
               \E o \in Outcomes(c, Dt, Tr(c, p, q), m, x) : NAbs(o.p (-) p) \preceq t9 /\ NAbs(o.q (-) q) \preceq t9
\* viscous laws become the plain law when the viscous time vanishes
Limit     == (c.pm = "DPVisc" /\ c.vtime = Zero /\ ~c.pradhana) =>
               LET o == DruckerPrager([c EXCEPT !.pm = "DP"], Dt, T, m0, x) IN NAbs(o.p (-) r.p) \preceq t9 (+) Dec("1e-9") /\ NAbs(o.q (-) r.q) \preceq t9 (+) Dec("1e-9")
\* the flow rule is met by the closed forms
FlowRule  == (c.pm \in {"VMVisc", "DPVisc"} /\ Yield(c, T.p, m0) \prec T.q /\ r.q # Zero) => NAbs(FlowResidual(c, Dt, T.q, r.q, Yield(c, T.p, m0))) \preceq Dec("1e-8") (.) (One (+) T.q)
\* ------------------------------------------- behaviours for the real code --
Emit == n > 0 => PrintT("CASE " \o ToJson([c |-> c, p |-> T.p, q |-> T.q, m |-> m0, r |-> [p |-> r.p, q |-> r.q, epd |-> r.epd, epv |-> r.epv]]))
=============================================================================
