------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the real program against Matter.tla.      *)
(* Log is a sequence of events (one per stage, with the part of the state  *)
(* that changed); the specification takes one step per event and refuses   *)
(* an event whose state is not one Matter.tla allows.  Every requirement   *)
(* carries the properties it belongs to; a run decides one property (Prop) *)
(* and evaluates only that property's requirements.                        *)
(***************************************************************************)
EXTENDS Matter, Sampling, LevelSet

Log  == TLCEval(ReadLog(Env("VERIF_TRACE")))
Prop == TLCEval(Env("VERIF_PROP"))

VARIABLES l,      \* next event
          c,      \* configuration of the current scenario
          s,      \* last recorded state
          s0,     \* state at the start of the current step
          n,      \* the state after event l: what the event records, and otherwise s
          mem     \* [done: stages of this step, anchor: lattice, n0: particles without copies,
                  \*  run: "no" | "setup" | "going" | "aborted" | "ended", L: velocity gradients, ...]
vars == <<l, c, s, s0, n, mem>>

\* ---------------------------------------------------------- requirements ----
\* A survey (Prop = "ALL") evaluates every requirement, reports each that fails and goes on.
Survey == Prop = "ALL"
\* nothing is required of a history once a Neo-Hookean particle has been turned inside out: the law has no stress for it
Decides(ids) == ~mem.lost /\ (Survey \/ Prop \in ids)
Req(ids, what, ok) == IF Decides(ids) THEN (IF ok THEN TRUE ELSE PrintT(<<"REJECT", IF Survey THEN ids ELSE Prop, what, "event", l, Log[l].ev, Log[l].sc>>) /\ Survey) ELSE TRUE
\* the same for a family of cases: names the case that fails
ReqAll(ids, what, S, P(_)) ==
  IF Decides(ids) THEN (IF \A k \in S : P(k) THEN TRUE
                        ELSE PrintT(<<"REJECT", IF Survey THEN ids ELSE Prop, what, "event", l, Log[l].ev, Log[l].sc, "case", CHOOSE k \in S : ~P(k)>>) /\ Survey) ELSE TRUE

e == Log[l]
Changed(f) == f \in DOMAIN e
Unchanged(fs) == \A f \in fs : ~Changed(f)

All == {"C01"}
Particles == {"x", "v", "pic", "flip", "B", "F", "tau", "epd", "epv", "epp", "dg", "visc", "mui", "np"}
Accepts(cf) == cf.inited /\ (cf.em = "Hencky" \/ cf.pm = "NoPlasticity") /\ ~cf.exit0

ev(name) == l <= Len(Log) /\ e.ev = name
Step(m) == l' = l + 1 /\ mem' = m /\ n' = IF l < Len(Log) THEN Merge(Log[l+1], s') ELSE n

\* ------------------------------------------------------------- scenarios ----
NoState == [sc |-> ""]
Mem0 == [done |-> {}, anchor |-> <<>>, n0 |-> 0, run |-> "no", nodes |-> <<>>, first |-> TRUE, moved |-> FALSE, mark |-> -1, saved |-> <<>>, lost |-> FALSE]
Turned(p) == c.em = "NeoHookean" /\ ~(Zero \prec Det(n.F[p]))
Deformed(st) == Step([mem EXCEPT !.done = @ \cup {st}, !.lost = @ \/ \E p \in 1..n.np : Turned(p)])

Cfg == /\ ev("cfg")
       /\ c' = e
       /\ Req({"C22"}, "a scenario begins only when the previous one is over", mem.run \in {"no", "refused", "aborted", "over"})
       /\ Req({"C22"}, "a run that cannot write its files is not marked as failed", ("nowhere" \in DOMAIN e /\ e.nowhere) => e.exit0)
       /\ s' = NoState /\ s0' = NoState
       /\ Step([Mem0 EXCEPT !.anchor = IF mem.run = "over" /\ c.sc = e.sc THEN mem.anchor ELSE <<>>,
                            !.run = "setup", !.moved = TRUE])

Pre == /\ ev("pre")
       /\ s' = n /\ s0' = n /\ UNCHANGED c
       /\ Step([mem EXCEPT !.n0 = n.np, !.lost = \E p \in 1..n.np : Turned(p)])

\* the run is accepted: particles get their initial friction, nothing else moves
MuiStart(cf) == IF cf.pm \in {"DPMui", "MCCMui"} THEN cf.mu1 ELSE cf.M
Start == /\ ev("start")
         /\ Req({"C22"}, "the run should have been refused", Accepts(c))
         /\ Req({"C01", "C22"}, "a run starts once", mem.run = "setup")
         /\ Req({"C01", "C02"}, "time and frame start at zero", n.time = Zero /\ n.frame = 0)
         /\ Req({"C22", "C20"}, "starting changes particles", Unchanged(Particles \ {"mui"}))
         /\ Req({"C18"}, "initial friction of the material", c.mibf => \A p \in 1..n.np : Close(n.mui[p], MuiStart(c), One))
         /\ s' = n /\ s0' = n /\ UNCHANGED c
         /\ Step([mem EXCEPT !.run = "going", !.done = {}])

\* ------------------------------------------------------------ the stages ----
InOrder(st) == Req({"C01"}, "stage out of order", c.partial \/ (mem.run = "going" /\ st \in Stages(c) /\ st \notin mem.done /\ Before(c, st) \subseteq mem.done))
Mark(st) == Step([mem EXCEPT !.done = @ \cup {st}])

DtOk ==
  /\ Req({"C02", "C19"}, "step size", NAbs(n.dt (-) DtRule(c, s.v, s.frame, s.time)) \preceq Dec("1e-9") (.) n.dt (+) TimeTol(c, s.time))
  /\ Req({"C02"}, "gravity", VClose(n.grav, Gravity(c, s.time), VMaxAbs(c.g0) (+) Dec("1e-30")))
  /\ Req({"C02", "C01"}, "choosing the step size changes the material", Unchanged(Particles \cup {"time", "frame", "step", "plates"}))
DtStage ==
  /\ ev("dt") /\ InOrder("dt")
  /\ DtOk = TRUE
  /\ s' = n /\ s0' = [n EXCEPT !.dt = n.dt] /\ UNCHANGED c /\ Mark("dt")

MeshOk ==
  LET ax == Axes(c, n) IN
  /\ ~c.pbc => \A k \in 1..c.dim :
       LET ext == TLCEval(Extent(s.x, k)) full == WithRef(c, ext, k, mem.anchor = <<>>) IN
       /\ Req({"C04"}, "grid spacing", Regular(c, ax[k]))
       /\ Req({"C04", "C01"}, "a node within reach of a particle is missing", Covers(c, ax[k], full))
       /\ Req({"C04"}, "grid far larger than the material", Tight(c, ax[k], full))
       /\ Req({"C04"}, "grid off the lattice of the run", mem.anchor # <<>> => Aligned(c, ax[k], mem.anchor[k]))
  /\ c.pbc => \A k \in 1..c.dim :
       LET ext == TLCEval(Extent(s.x, k))
           wide == IF k = 1 THEN [lo |-> NNeg(Reach(c.deg) (.) c.dx), hi |-> c.Lx (+) Reach(c.deg) (.) c.dx] ELSE ext IN
       /\ Req({"C04", "C12"}, "grid spacing", Regular(c, ax[k]))
       /\ Req({"C04", "C12"}, "a node within reach of a particle is missing", Covers(c, ax[k], wide))
       /\ Req({"C12"}, "grid not aligned with the periodic cell", k = 1 => NearInteger(ax[1][1] (/) c.dx))
  /\ Req({"C04"}, "building the grid changes the material", Unchanged(Particles \cup {"time", "frame", "step", "plates"}))
MeshStage ==
  /\ ev("mesh") /\ InOrder("mesh")
  /\ MeshOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>>
  /\ Step([mem EXCEPT !.done = @ \cup {"mesh"}, !.anchor = IF @ = <<>> THEN [k \in 1..c.dim |-> Axes(c, n)[k][1]] ELSE @])

GhostOk ==
  /\ Req({"C11", "C19"}, "copies do not follow the particles", Len(n.x) = n.np /\ Len(n.v) = n.np /\ Len(n.F) = n.np /\ Len(n.B) = n.np /\ Len(n.tau) = n.np /\ (c.mibf => Len(n.mui) = n.np))
  /\ Req({"C11", "C19"}, "real particles disturbed by their copies", s.np = mem.n0 /\ \A f \in {"x", "v", "F", "B", "tau"} : SubSeq(n[f], 1, mem.n0) = s[f])
  /\ Req({"C11", "C12", "C19"}, "copies are not the images of the particles", CopiesOk(c, n, mem.n0))
GhostStage ==
  /\ ev("ghosts") /\ InOrder("ghosts")
  /\ GhostOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>>
  /\ Step([mem EXCEPT !.done = @ \cup {"ghosts"}])

Real(q, k) == SubSeq(q, 1, k)
P2GOk ==
  LET ax == TLCEval(Axes(c, n))
      w1 == TLCEval(Weights1(c, ax, n.x))
      N  == 1..NNodes(ax)
      G  == TLCEval([k \in N |-> P2GNode(c, ax, n, w1, k)])
      big(k) == ~Negligible(G[k].share)
      ids3 == {"C03", "C01", "C19"}
  IN
  /\ Decides({"C03", "C01", "C18", "C19"}) =>
       /\ ReqAll(ids3, "node mass", N, LAMBDA k : Close(n.gm[k], G[k].share (.) c.pmass, c.pmass))
       /\ ReqAll(ids3, "node velocity", {k \in N : big(k)}, LAMBDA k : VClose(n.gv[k], G[k].v, G[k].size (+) Dec("1e-12")))
       /\ ReqAll({"C18", "C19"}, "node friction", {k \in N : c.mibf /\ big(k)}, LAMBDA k : Close(n.gfr[k], G[k].fr, G[k].frsize))
       /\ Req(ids3, "total mass", Close(Sum(n.gm), Int2Num(n.np) (.) c.pmass, Int2Num(n.np) (.) c.pmass))
       /\ Req({"C03"}, "total momentum", LET P == [d \in 1..c.dim |-> Dot(n.gm, [k \in N |-> n.gv[k][d]])] IN
              VClose(P, Momentum(c, n.x, n.v), Int2Num(n.np) (.) c.pmass (.) MaxOf([k \in N |-> G[k].size (+) Dec("1e-12")])))
       /\ Req({"C03"}, "angular momentum of affine transfer", c.flip \prec Zero =>
              LET Lg == [d \in 1..(IF c.dim = 2 THEN 1 ELSE 3) |-> Sum([k \in N |-> n.gm[k] (.) CrossV(NodePos(ax, k), n.gv[k])[d]])]
                  reach == MaxOf([k \in N |-> VMaxAbs(NodePos(ax, k))])
              IN VClose(Lg, Spin(c, n.x, n.v, n.B), Int2Num(n.np) (.) c.pmass (.) reach (.) MaxOf([k \in N |-> G[k].size (+) Dec("1e-12")])))
  \* with periodicity: nodes near real particles see the whole infinite array
  /\ (c.pbc /\ Decides({"C12"})) =>
       LET im == TLCEval(WithImages(c, [x |-> Real(n.x, mem.n0), v |-> Real(n.v, mem.n0), B |-> Real(n.B, mem.n0), tau |-> Real(n.tau, mem.n0), mui |-> Real(n.mui, mem.n0)]))
           wi == TLCEval(Weights1(c, ax, im.x))
           GI == TLCEval([k \in N |-> P2GNode(c, ax, im, wi, k)])
           near(k) == LET i == NodeIdx(ax, k) IN \E p \in 1..mem.n0 : \A d \in 1..c.dim : Zero \prec wi[d][p][i[d]]
       IN ReqAll({"C12"}, "node does not see the periodic array", {k \in N : near(k)},
                 LAMBDA k : /\ Close(n.gm[k], GI[k].share (.) c.pmass, c.pmass)
                            /\ ~Negligible(GI[k].share) => VClose(n.gv[k], GI[k].v, GI[k].size (+) Dec("1e-12"))
                            /\ (c.mibf /\ ~Negligible(GI[k].share)) => Close(n.gfr[k], GI[k].fr, GI[k].frsize))
  /\ Req({"C03", "C19"}, "gathering on the grid changes the material", Unchanged(Particles \cup {"time", "frame", "step", "plates"}))
P2GStage ==
  /\ ev("p2g") /\ InOrder("p2g")
  /\ P2GOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Mark("p2g")

GridOk ==
  LET ax == TLCEval(Axes(c, s))
      w1 == TLCEval(Weights1(c, ax, s.x))
      d1 == TLCEval(DWeights1(c, ax, s.x))
      N  == {k \in 1..NNodes(ax) : ~Negligible(s.gm[k] (/) c.pmass)}
      check(k) ==
        LET fn == TLCEval(FreeNode(c, s, ax, w1, d1, k))
            X  == TLCEval(NodeAhead(c, s, ax, k, fn))
            tol == AheadTol(c, s, fn)
            ob == TouchesObj(c, X, tol)
            pb == TouchesPlate(c, s.plates, X, tol)
            ids == (IF ob THEN {"C09"} ELSE {}) \cup (IF pb THEN {"C08"} ELSE {}) \cup (IF ob \/ pb THEN (IF c.mibf THEN {"C18"} ELSE {}) ELSE {"C05"}) \cup {"C01", "C19"}
            fr == IF c.mibf THEN s.gfr[k] ELSE Zero
            vsize == fn.size (+) (IF pb THEN MaxOf([q \in 1..Len(s.plates) |-> VMaxAbs(PlateVel(s.plates[q]))]) ELSE Zero)
            good == IF ~ob /\ ~pb THEN VClose(n.gv[k], fn.v, fn.size)
                    ELSE \E v \in ContactOutcomes(c, s.plates, X, tol, fr, fn.v) : VClose(n.gv[k], v, Rat(10,1) (.) vsize (.) (One (+) fr))
            \* a node out of reach of every plate (terrain) that moves as if one had met it
            near(v) == VClose(n.gv[k], v, Rat(10,1) (.) fn.size (.) (One (+) fr))
            asPlate == \E q \in 1..Len(c.pls) : c.pls[q].bc \in BoundaryLaws /\
                         \E v \in ObjFold(c, 1, X, tol, fr, {fn.v}) : near(PlateContact(c.pls[q].type, c.pls[q].bc, IF c.mibf THEN fr ELSE c.pls[q].fr, s.plates[q], v))
            asObj == \E q \in 1..Len(c.objs) : c.objs[q].bc \in BoundaryLaws /\
                       \E v \in PlateFold(c, s.plates, 1, X, tol, fr, {TLCEval(ObjContact(c.objs[q], IF c.mibf THEN fr ELSE c.objs[q].fr, TLCEval(Normal(c.objs[q], X)), fn.v))}) : near(v)
        IN IF Decides(ids) THEN good
           ELSE IF Decides({"C08"}) /\ c.pls # <<>> THEN good \/ ~asPlate
           ELSE IF Decides({"C09"}) /\ c.objs # <<>> THEN good \/ ~asObj
           ELSE TRUE
      \* a contact with a boundary law that does not exist is a failure, and nothing else is
      touch(k, sure) == LET fn == TLCEval(FreeNode(c, s, ax, w1, d1, k)) IN BadTouch(c, s.plates, NodeAhead(c, s, ax, k, fn), AheadTol(c, s, fn), sure)
      faint == {k \in 1..NNodes(ax) : Zero \prec s.gm[k]} \ N
  IN
  /\ (Decides({"C22"}) /\ s.exit = 0) =>
     /\ Req({"C22"}, "failure without an invalid boundary", n.exit = 0 \/ (HasBadBoundary(c) /\ (faint # {} \/ \E k \in N : touch(k, FALSE))))
     /\ Req({"C22"}, "contact with an invalid boundary went unnoticed", n.exit # 0 \/ ~HasBadBoundary(c) \/ \A k \in N : ~touch(k, TRUE))
  /\ (n.exit = 0) =>
     /\ ReqAll({"C01", "C05", "C08", "C09", "C18", "C19"}, "node velocity after forces and contacts", N, check)
     /\ ReqAll({"C05", "C06", "C07"}, "recorded velocity increment", N, LAMBDA k : VClose(n.gf[k], VSub(n.gv[k], s.gv[k]), VMaxAbs(n.gv[k]) (+) VMaxAbs(s.gv[k])))
  \* periodic: forces too come from the whole array
  /\ (c.pbc /\ Decides({"C12"}) /\ c.pls = <<>> /\ c.objs = <<>>) =>
       LET im == TLCEval(WithImages(c, [x |-> Real(s.x, mem.n0), v |-> Real(s.v, mem.n0), B |-> Real(s.B, mem.n0), tau |-> Real(s.tau, mem.n0), mui |-> Real(s.mui, mem.n0)]))
           wi == TLCEval(Weights1(c, ax, im.x))
           di == TLCEval(DWeights1(c, ax, im.x))
           near(k) == LET i == NodeIdx(ax, k) IN \E p \in 1..mem.n0 : \A d \in 1..c.dim : Zero \prec wi[d][p][i[d]]
           si == [x |-> im.x, tau |-> im.tau, gv |-> s.gv, gm |-> s.gm, dt |-> s.dt, grav |-> s.grav]
       IN ReqAll({"C12"}, "forces of the periodic array", {k \in N : near(k)},
                 LAMBDA k : LET fn == FreeNode(c, si, ax, wi, di, k) IN VClose(n.gv[k], fn.v, fn.size))
  /\ Req({"C05"}, "updating the grid changes the material or the masses", Unchanged(Particles \cup {"time", "frame", "step", "plates", "gm", "gx", "gy", "gz"}))
GridStage ==
  /\ ev("grid") /\ InOrder("grid")
  /\ GridOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Mark("grid")

UnghostOk ==
  /\ Req({"C11", "C19"}, "particles differ after their copies are removed",
         n.np = mem.n0 /\ \A f \in {"x", "v", "F", "B", "tau", "epd", "epv", "epp"} : n[f] = s0[f])
  /\ Req({"C11", "C19"}, "friction list out of step", c.mibf => n.mui = s0.mui)
UnghostStage ==
  /\ ev("unghost") /\ InOrder("unghost")
  /\ UnghostOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Mark("unghost")

\* ------------------------------------------------------------ back-transfer --
Gathered(st, P) ==     \* per particle: what the grid of state st offers it
  LET ax == TLCEval(Axes(c, st))
      w1 == TLCEval(Weights1(c, ax, st.x))
      d1 == TLCEval(DWeights1(c, ax, st.x))
  IN TLCEval([p \in P |-> PartGather(c, ax, st.gv, st.gf, st.x, w1, d1, p)])

\* requirements on the deformation update of particle p with velocity gradient L
Law == {"C13", "C14", "C15", "C16", "C17", "C18"}
Rate0 == {"VM", "DP", "DPSoft", "MCC"}
RateV == {"VMVisc", "DPVisc", "MCCVisc"}
RateI == {"DPMui", "MCCMui"}
LawIds == (IF c.pm \in Rate0 THEN {"C14"} ELSE {}) \cup (IF c.pm \in RateV THEN {"C15"} ELSE {}) \cup (IF c.pm \in RateI THEN {"C16"} ELSE {}) \cup (IF c.pm = "NoPlasticity" THEN {"C13"} ELSE {})

Shown == IF c.mibf THEN {"C18"} ELSE {}      \* the friction of the flow is shown to boundaries
FScale(T, L) == MatMaxAbs(T.F) (+) s.dt (.) MatMaxAbs(L)
MuiTol(x) == Dec("1e-6") (.) (One (+) NAbs(x))
\* at either end of the ellipse friction and viscosity hang on the last digits of the pressure: only their range is decided there
AtTip(T, m, o) ==
  LET pc == IF ImplicitLaw(c) THEN NMax(Hardened(c, o.epv), o.p (+) c.stol) ELSE Precons(c, m.epv)
      t  == Dec("1e-3") (.) pc
  IN NAbs(pc (-) o.p) \preceq t \/ NAbs(o.p (+) c.beta (.) pc) \preceq t
\* friction a yielding Cam-Clay particle shows to boundaries
CamMui(T, m, o) ==
  LET b    == IF c.duvaut /\ c.pm = "MCCVisc" THEN One (/) (One (+) c.vtime (/) s.dt) ELSE One
      pr   == Unblend(b, T.p, o.p)
      qr   == Unblend(b, T.q, o.q)
      pc   == IF ImplicitLaw(c) THEN NMax(Zero, Hardened(c, o.epv)) ELSE Precons(c, m.epv)
      t    == c.stol
      lo   == NNeg(c.beta (.) pc) (+) t
      hi   == pc (-) t
      fuzz == Dec("1e-6") (.) pc
      ratio == qr (/) Sqrt((pr (+) c.beta (.) pc) (.) (pc (-) pr))
  IN (IF pr \prec lo (+) fuzz \/ hi (-) fuzz \prec pr THEN {c.M} ELSE {})
     \cup (IF lo (-) fuzz \prec pr /\ pr \prec hi (+) fuzz THEN {ratio} ELSE {})

CheckLaw(p, L) ==
  LET T == TLCEval(Trial(c, s.dt, s0.F[p], L))
      S == TLCEval(Spectral(n.F[p]))
      m == Memory(s0, p)
      x == Extras(s0, p)
      o == TLCEval(Observed(c, n, p, S))
      ok == IsFinite(T.tr) /\ Dec("1e-3") \prec MinOf(T.sg)     \* deformation within the log-strain floor
      inside == NAbs(o.p (-) T.p) \preceq SigTol(c, T.p, T.q) /\ NAbs(o.q (-) T.q) \preceq SigTol(c, T.p, T.q)
      stressScale == c.E (.) (Dec("1e-5") (+) VMaxAbs(S.h) (+) (IF c.em = "Hencky" THEN Zero ELSE MatMaxAbs(n.F[p]) (.) MatMaxAbs(n.F[p])))
  IN
  /\ ReqAll({"C13"} \cup LawIds, "stress is not that of the elastic deformation", {p}, LAMBDA q : MClose(n.tau[q], Stress(c, n.F[q], S), stressScale))
  /\ ReqAll({"C13"}, "well inside the elastic range, the deformation is not elastic", IF ok /\ Yields(c) /\ WellInside(c, s.dt, T, m, x) THEN {p} ELSE {}, LAMBDA q :
            /\ MClose(n.F[q], T.F, Rat(100,1) (.) FScale(T, L))
            /\ NAbs(o.epd (-) m.epd) \preceq StrainTol(T, m) /\ NAbs(o.epv (-) m.epv) \preceq StrainTol(T, m))
  /\ ReqAll({"C13"}, "elastic deformation", IF ok /\ (c.pm = "NoPlasticity" \/ (n.epd[p] = s0.epd[p] /\ n.epv[p] = s0.epv[p] /\ inside)) THEN {p} ELSE {}, LAMBDA q : MClose(n.F[q], T.F, Rat(10,1) (.) FScale(T, L)))
  /\ Yields(c) /\ ok =>
     /\ ReqAll({"C13", "C14", "C15", "C16"} \cap (LawIds \cup {"C13"}), "directions or rotation disturbed by plastic flow", {p},
            LAMBDA q : MClose(n.F[q], Rebuilt(c, T, Rotation(T, T.F), o.p, o.q), Rat(100,1) (.) FScale(T, L)))
     /\ ReqAll(LawIds, "stress not where the plastic law puts it", {p}, LAMBDA q : StressOk(c, s.dt, T, m, x, o))
     /\ ReqAll({"C17"}, "plastic strain not what the return removed", {p}, LAMBDA q : Ledger(c, s.dt, T, m, o, S.tr, S.dn))
     /\ ReqAll({"C17"}, "deviatoric plastic strain decreased", {p}, LAMBDA q : LedgerMonotone(c, T, m, o))
     /\ ReqAll({"C16"}, "friction outside [mu_1, mu_2]", IF c.pm \in RateI THEN {p} ELSE {}, LAMBDA q :
            c.mu1 (-) Dec("1e-12") \preceq o.mui /\ o.mui \preceq c.mu2 (+) Dec("1e-12") /\ Zero \preceq o.visc)
     /\ ReqAll({"C16"} \cup Shown, "friction or viscosity not those of the flow", IF c.pm = "DPMui" THEN {p} ELSE {}, LAMBDA q :
            \* next to the tip both hang on the last digits of the pressure: eps is what those can change
            LET above == NMax(Zero, (T.p (+) Shift(c, m)) (+) c.qcoh (/) c.mu1) (+) c.stol
                eps == NMin(One, (Dec("2e-14") (.) c.E) (/) above)
            IN \E r \in Outcomes(c, s.dt, T, m, x) : /\ NAbs(o.q (-) r.q) \preceq SigTol(c, T.p, T.q)
                  /\ NAbs(o.mui (-) r.mui) \preceq Dec("1e-6") (+) eps (.) (c.mu2 (-) c.mu1)
                  /\ (Prop = "C18" \/ NAbs(o.visc (-) r.visc) \preceq (Dec("1e-5") (+) Rat(4,1) (.) eps) (.) NAbs(r.visc) (+) Dec("1e-12")))
     /\ ReqAll({"C16"} \cup Shown, "friction or viscosity not those of the flow (Cam-Clay)", IF c.pm = "MCCMui" /\ ~SpentCase(c, T, m, o) /\ ~AtTip(T, m, o) THEN {p} ELSE {}, LAMBDA q :
            LET pc == IF ImplicitLaw(c) THEN NMax(Hardened(c, o.epv), o.p (+) c.stol) ELSE Precons(c, m.epv)
                ps == NMax(Zero, o.p (+) c.beta (.) pc) (+) c.stol
                P  == Sqrt((pc (-) o.p) (.) ps)
                qs == OnEllipse(c.mu1, c, IF ImplicitLaw(c) THEN NMax(Floor0(c), Hardened(c, o.epv)) ELSE pc, o.p)
                g  == MuiRate(c, s.dt, P, ps, T.q (-) qs)
            IN IF o.mui = c.mu1 THEN (Prop = "C18" \/ o.visc = Zero) /\ (n.epd[q] = s0.epd[q] \/ T.q (-) o.q \preceq Rat(10,1) (.) c.stol \/ NAbs(MuiOf(c, ps, g) (-) c.mu1) \preceq Dec("1e-6"))
               ELSE /\ NAbs(o.mui (-) MuiOf(c, ps, g)) \preceq Dec("1e-4")
                    \* the code divides the small difference mui - mu_1: eps is what its last digits can change
                    /\ (Prop = "C18") \/ LET eps == NMin(One, Dec("1e-15") (/) NAbs(o.mui (-) c.mu1))
                       IN NAbs(o.visc (-) ((c.mu2 (-) c.mu1) (.) P) (/) (FacQ(c) (.) Sqrt(ps) (+) g)) \preceq (Dec("1e-4") (+) eps) (.) NAbs(o.visc) (+) Dec("1e-9"))
     /\ ReqAll({"C18"}, "friction shown to boundaries", IF c.mibf /\ c.pm = "DPVisc" THEN {p} ELSE {}, LAMBDA q :
            LET ps == T.p (+) Shift(c, m) flows == n.dg[p] # Zero IN
            IF flows /\ DPViscTip(c) (+) SigTol(c, T.p, T.q) \prec ps THEN Close(o.mui, DPViscMui(c, T, m, o.q), NAbs(o.mui) (+) (SigTol(c, T.p, T.q) (.) Dec("1e8")) (/) NAbs(ps))
            ELSE Close(o.mui, c.M, One) \/ NAbs(ps (-) DPViscTip(c)) \preceq SigTol(c, T.p, T.q))
     /\ ReqAll({"C18"}, "friction shown to boundaries (Cam-Clay)", IF c.mibf /\ c.pm \in {"MCC", "MCCVisc"} THEN {p} ELSE {}, LAMBDA q :
            \/ (~CamClayYields(c.M, c, T, m) \/ CamClayNear(c.M, c, T, m)) /\ Close(o.mui, c.M, One)
            \/ (CamClayYields(c.M, c, T, m) \/ CamClayNear(c.M, c, T, m)) /\ \E r \in CamMui(T, m, o) : NAbs(o.mui (-) r) \preceq Dec("1e-4") (.) (One (+) NAbs(r)))
     /\ ReqAll({"C18"}, "friction shown to boundaries (mu(I))", IF c.mibf /\ c.pm \in RateI THEN {p} ELSE {}, LAMBDA q :
            c.mu1 (-) Dec("1e-12") \preceq o.mui /\ o.mui \preceq c.mu2 (+) Dec("1e-12"))
     /\ ReqAll({"C18"}, "friction changed by a law that has none", IF c.mibf /\ c.pm \in {"VM", "DP", "DPSoft", "VMVisc"} THEN {p} ELSE {}, LAMBDA q : o.mui = x.mui)

\* a particle that stays well inside the elastic range deforms with the velocity gradient alone
FollowsFlow(p, L) ==
  LET T == TLCEval(Trial(c, s.dt, s0.F[p], L)) IN
  (IsFinite(T.tr) /\ Dec("1e-3") \prec MinOf(T.sg) /\ WellInside(c, s.dt, T, Memory(s0, p), Extras(s0, p))) => MClose(n.F[p], T.F, Rat(100,1) (.) FScale(T, L))

\* failures of the material law in a step with velocity gradients g[p].L
LawFails(g) ==
  Decides({"C22", "C14", "C15", "C16"}) /\ s.exit = 0 =>
    LET tr(p) == TLCEval(Trial(c, s.dt, s0.F[p], g[p].L))
        sure(p) == LET T == tr(p) m == Memory(s0, p) IN CamClayYields(c.M, c, T, m) /\ ~CamClayNear(c.M, c, T, m)
        may(p)  == LET T == tr(p) m == Memory(s0, p) IN CamClayYields(c.M, c, T, m) \/ CamClayNear(c.M, c, T, m)
        fine(p) == LET T == tr(p) m == Memory(s0, p) IN
                   IsFinite(T.tr) /\ Dec("1e-3") \prec MinOf(T.sg) /\ (WellInside(c, s.dt, T, m, Extras(s0, p)) \/ SureToConverge(c, s.dt, T, m) \/ SureToReturn(c, T, m))
    IN /\ Req({"C22"}, "failure of a law that cannot fail", n.exit = 0 \/ BadHardening(c) \/ Iterates(c) \/ (BadExponent(c) /\ \E p \in 1..n.np : may(p)))
       /\ Req({"C22", "C14", "C15", "C16"}, "the law gave up although no particle gave it cause to",
              n.exit = 0 \/ BadHardening(c) \/ ~Iterates(c) \/ BadExponent(c) \/ \E p \in 1..n.np : ~fine(p))
       /\ Req({"C22"}, "an invalid hardening rule or exponent went unnoticed", n.exit # 0 \/ (~BadHardening(c) /\ ~(BadExponent(c) /\ \E p \in 1..n.np : sure(p))))

Deforms == {"C13", "C14", "C15", "C16", "C17", "C18", "C19"}
G2POk ==
  LET st == TLCEval([n EXCEPT !.x = s0.x])
      P  == 1..n.np
      g  == Gathered(st, P)
      ids == {"C06", "C01", "C19"} \cup (IF c.musl THEN {"C07"} ELSE {})
  IN
  /\ ~c.musl => LawFails(g)
  /\ n.exit = 0 => (Decides(ids \cup Deforms) =>
     /\ ReqAll(ids, "gathered velocity", P, LAMBDA p : VClose(n.pic[p], g[p].pic, g[p].size (+) Dec("1e-12")))
     /\ ReqAll(ids, "gathered increment", P, LAMBDA p : Flips(c) => VClose(n.flip[p], g[p].flip, Two (.) g[p].size (+) g[p].fsize (+) Dec("1e-12") (+) VMaxAbs(s0.v[p])))
     /\ ReqAll(ids, "affine matrix", P, LAMBDA p : MClose(n.B[p], g[p].B, c.dx (.) g[p].size (+) Dec("1e-12")))
     /\ ReqAll({"C06"}, "deformation without the velocity gradient", IF ~c.musl /\ c.pm = "NoPlasticity" THEN P ELSE {}, LAMBDA p :
                 MClose(n.F[p], MatAdd(s0.F[p], MatScale(s.dt, MatMul(g[p].L, s0.F[p]))), (One (+) (s.dt (.) g[p].size) (/) c.dx) (.) Rat(10,1) (.) MatMaxAbs(s0.F[p])))
     /\ ReqAll({"C06"}, "elastic deformation without the velocity gradient", IF ~c.musl /\ Yields(c) THEN P ELSE {}, LAMBDA p : FollowsFlow(p, g[p].L))
     /\ (~c.musl /\ Decides(Law \cup {"C19"})) => \A p \in P : Turned(p) \/ CheckLaw(p, g[p].L))
  /\ Req({"C06", "C07"}, "back-transfer moves particles or changes the grid", Unchanged({"x", "np", "gm", "gx", "gy", "gz", "gv", "time", "frame", "step", "plates"}))
  /\ Req({"C07"}, "deformation must wait for the re-projected velocities", c.musl => Unchanged({"F", "tau", "epd", "epv", "epp"}))
G2PStage ==
  /\ ev("g2p") /\ InOrder("g2p")
  /\ G2POk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Deformed("g2p")

MuslOk ==
  LET ax == TLCEval(Axes(c, n))
      im == IF c.pbc THEN TLCEval(WithImages(c, n)) ELSE n
      w1 == TLCEval(Weights1(c, ax, im.x))
      K  == {k \in 1..NNodes(ax) : ~Negligible(n.gm[k] (/) c.pmass)}
      G  == TLCEval([k \in K |-> P2GNode(c, ax, im, w1, k)])
      w0 == IF c.pbc THEN TLCEval(Weights1(c, ax, n.x)) ELSE w1
      near(k) == ~c.pbc \/ LET i == NodeIdx(ax, k) IN \E p \in 1..n.np : \A d \in 1..c.dim : Zero \prec w0[d][p][i[d]]
      ids == {"C07", "C01", "C19"} \cup (IF c.pbc THEN {"C12"} ELSE {})
  IN
  /\ n.exit = 0 => (Decides(ids) =>
     /\ ReqAll({"C07", "C01", "C19"}, "particle velocity", 1..n.np, LAMBDA p : VClose(n.v[p], Blend(c, s0.v[p], s.pic[p], s.flip[p]), VMaxAbs(s0.v[p]) (+) VMaxAbs(s.pic[p]) (+) VMaxAbs(s.flip[p]) (+) Dec("1e-12")))
     /\ ReqAll(ids, "re-projected node velocity", {k \in K : near(k)}, LAMBDA k : VClose(n.gv[k], G[k].v, G[k].size (+) Dec("1e-12"))))
  /\ Req({"C07"}, "re-projection changes something else", Unchanged({"x", "np", "F", "tau", "epd", "epv", "epp", "B", "gm", "gx", "gy", "gz", "time", "frame", "step", "plates"}))
MuslStage ==
  /\ ev("musl") /\ InOrder("musl")
  /\ MuslOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Mark("musl")

DefoOk ==
  LET P == 1..n.np
      ax == TLCEval(Axes(c, s))
      w1 == TLCEval(Weights1(c, ax, s.x))
      d1 == TLCEval(DWeights1(c, ax, s.x))
      g  == TLCEval([p \in P |-> PartGather(c, ax, s.gv, s.gv, s.x, w1, d1, p)])
  IN
  /\ LawFails(g)
  /\ n.exit = 0 => (Decides(Law \cup {"C07", "C19", "C01"}) =>
     /\ ReqAll({"C07", "C01"}, "deformation not driven by the re-projected velocities", IF c.pm = "NoPlasticity" THEN P ELSE {}, LAMBDA p :
                 MClose(n.F[p], MatAdd(s0.F[p], MatScale(s.dt, MatMul(g[p].L, s0.F[p]))), (One (+) (s.dt (.) g[p].size) (/) c.dx) (.) Rat(10,1) (.) MatMaxAbs(s0.F[p])))
     /\ ReqAll({"C07", "C01"}, "elastic deformation not driven by the re-projected velocities", IF Yields(c) THEN P ELSE {}, LAMBDA p : FollowsFlow(p, g[p].L))
     /\ Decides(Law \cup {"C19"}) => \A p \in P : Turned(p) \/ CheckLaw(p, g[p].L))
  /\ Req({"C07"}, "deformation update changes something else", Unchanged({"x", "v", "np", "B", "gm", "gv", "time", "frame", "step", "plates"}))
DefoStage ==
  /\ ev("defo") /\ InOrder("defo")
  /\ DefoOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Deformed("defo")

PosOk ==
  LET free(p) == VAdd(s0.x[p], VScale(s.dt, s.pic[p]))
      xtol(p) == VMaxAbs(s0.x[p]) (+) s.dt (.) VMaxAbs(s.pic[p]) (+) Dec("1e-12") (+) (IF c.pbc THEN c.Lx ELSE Zero)
  IN
  /\ ReqAll({"C06", "C01", "C19"} \cup (IF c.musl THEN {"C07"} ELSE {}), "advection", 1..n.np, LAMBDA p :
        LET X == TLCEval(free(p)) IN
        \/ VClose(n.x[p], IF c.pbc THEN Wrapped(c, X) ELSE X, xtol(p))
        \/ c.pbc /\ (NAbs(X[1]) \preceq Tol (.) xtol(p) \/ NAbs(X[1] (-) c.Lx) \preceq Tol (.) xtol(p)) /\ \E k \in {-1, 0, 1} : VClose(n.x[p], Shifted(c, X, k), xtol(p)))
  /\ (c.pbc) => ReqAll({"C11"}, "particle left the periodic cell, or was not moved by whole periods", 1..n.np, LAMBDA p :
        LET X == TLCEval(free(p)) IN
        /\ Zero \preceq n.x[p][1] /\ n.x[p][1] \preceq c.Lx
        /\ \E k \in {-1, 0, 1} : VClose(n.x[p], Shifted(c, X, k), xtol(p)))
  /\ Req({"C06"}, "advection changes something else", Unchanged({"np", "F", "tau", "epd", "epv", "epp", "B", "pic", "flip", "time", "frame", "step", "plates"}))
PosStage ==
  /\ ev("pos") /\ InOrder("pos")
  /\ PosOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Mark("pos")

MoveOk ==
  /\ ReqAll({"C10", "C01"}, "plate motion", 1..Len(c.pls), LAMBDA k :
        LET want == PlateMoved(c.pls[k], s0.plates[k], s.dt, FrameDt(c), s.time) IN
        /\ Len(n.plates[k]) = Len(want)
        /\ \A d \in 1..Len(want) : Close(n.plates[k][d], want[d], Dec("1e-3") (.) (NAbs(s0.plates[k][d]) (+) NAbs(want[d])) (+) s.dt (.) VMaxAbs(c.pls[k].v) (+) Dec("1e-14")))
  /\ Req({"C10"}, "moving plates changes the material", Unchanged(Particles \cup {"gv", "gm", "time", "frame", "step"}))
MoveStage ==
  /\ ev("move") /\ InOrder("move")
  /\ MoveOk = TRUE
  /\ s' = n /\ UNCHANGED <<c, s0>> /\ Mark("move")

\* ------------------------------------------------------------ end of a step --
Contactless == c.pls = <<>> /\ c.objs = <<>>
ClockOk ==
  LET t1 == s.time (+) s.dt
      sizeP == Int2Num(n.np) (.) c.pmass (.) (MaxOf([p \in 1..n.np |-> VMaxAbs(s0.v[p]) (+) VMaxAbs(n.v[p])]) (+) s.dt (.) VMaxAbs(n.grav)
                 (+) (IF c.flip \prec Zero THEN MaxOf([p \in 1..n.np |-> MatMaxAbs(s0.B[p])]) (/) c.dx ELSE Zero)
                 (+) (s.dt (.) c.pvol (.) MaxOf([p \in 1..n.np |-> MatMaxAbs(s0.tau[p])])) (/) (c.pmass (.) c.dx)) (+) Dec("1e-14") (.) c.pmass
      reach == MaxOf([p \in 1..n.np |-> VMaxAbs(s0.x[p])]) (+) Two (.) c.dx
  IN
  /\ Req({"C01"}, "a stage was left out of the step", c.partial \/ (mem.run = "going" /\ Stages(c) \subseteq mem.done))
  /\ Req({"C01", "C02"}, "time must advance by the step size", NAbs(n.time (-) t1) \preceq TimeTol(c, t1) /\ (Zero \prec s.dt => s.time \prec n.time \/ s.dt \preceq TimeTol(c, t1)))
  /\ Req({"C01"}, "step counter", n.step = s.step + 1)
  /\ Req({"C01", "C02"}, "frame counter", (n.frame = s.frame + 1 /\ TRUE \in FrameDone(c, s.frame, n.time)) \/ (n.frame = s.frame /\ FALSE \in FrameDone(c, s.frame, n.time)))
  /\ Req({"C01", "C02"}, "step overran the frame", n.time \preceq (FrameDt(c) (.) Int2Num(s.frame + 1)) (+) Rat(2,1) (.) c.mindt (+) Rat(10,1) (.) TimeTol(c, t1))
  /\ Req({"C22"}, "the run went on after a failure", n.exit # 1)
  /\ Req({"C01", "C06", "C07", "C19"}, "velocity at the end of the step", c.partial \/ \A p \in 1..n.np :
         VClose(n.v[p], Blend(c, s0.v[p], n.pic[p], n.flip[p]), VMaxAbs(s0.v[p]) (+) VMaxAbs(n.pic[p]) (+) VMaxAbs(n.flip[p]) (+) Dec("1e-12")))
  /\ Req({"C25"}, "number of particles", n.np = mem.n0 /\ Len(n.x) = mem.n0 /\ Len(n.v) = mem.n0)
  /\ Req({"C25"}, "momentum not conserved", Contactless => VClose(VSub(Momentum(c, n.x, n.v), Momentum(c, s0.x, s0.v)), VScale(Int2Num(n.np) (.) c.pmass (.) s.dt, n.grav), sizeP))
  /\ Req({"C25"}, "angular momentum not conserved", (Contactless /\ ~c.pbc /\ c.flip \prec NNeg(One)) =>
         VClose(VSub(Spin(c, n.x, n.v, n.B), Spin(c, s0.x, s0.v, s0.B)), VScale(s.dt, Torque(c, s0.x, n.grav)), Rat(10,1) (.) sizeP (.) reach))
  /\ Req({"C25"}, "the state is not finite", \A p \in 1..n.np : (\A d \in 1..c.dim : IsFinite(n.x[p][d]) /\ IsFinite(n.v[p][d]) /\ \A f \in 1..c.dim : IsFinite(n.F[p][d][f]) /\ IsFinite(n.tau[p][d][f])))
ClockStage ==
  /\ ev("clock")
  /\ ClockOk = TRUE
  /\ s' = n /\ s0' = n /\ UNCHANGED c
  /\ Step([mem EXCEPT !.done = {}, !.saved = IF n.frame # s.frame THEN n ELSE @])

EndOk == n.frame = c.endf /\ NAbs(n.time (-) FinalTime(c)) \preceq Two (.) c.mindt (+) Rat(10,1) (.) TimeTol(c, n.time)
End == /\ ev("end")
       /\ Req({"C01", "C02"}, "the run did not end at its last frame", EndOk)
       /\ Req({"C01"}, "the run ended in the middle of a step", mem.done = {})
       /\ Req({"C22"}, "a failed run must not end normally", n.exit # 1)
       /\ Req({"C01"}, "ending changes the state", Unchanged(Particles \cup {"time", "frame", "step", "plates"}))
       /\ s' = n /\ UNCHANGED <<c, s0>> /\ Step([mem EXCEPT !.run = "ended"])

\* a failure inside a step stops the run before the step counts
Abort == /\ ev("abort")
         /\ Req({"C22"}, "abort without a failure", n.exit = 1 /\ mem.run = "going")
         /\ Req({"C22", "C01"}, "an aborted step must not count", n.time = s0.time /\ n.frame = s0.frame /\ n.step = s0.step)
         /\ s' = n /\ UNCHANGED <<c, s0>> /\ Step([mem EXCEPT !.run = "failed"])

Ret == /\ ev("ret")
       /\ Req({"C22", "C01"}, "return from nowhere", mem.run \in {"setup", "ended", "failed"})
       /\ Req({"C22"}, "an acceptable run was refused", mem.run = "setup" => ~Accepts(c))
       /\ Req({"C22"}, "a refused run changed something", mem.run = "setup" => Unchanged(Particles \cup {"time", "frame", "step", "plates"}))
       /\ Req({"C22"}, "a failure must leave its flag", mem.run = "failed" => n.exit = 1)
       /\ s' = n /\ UNCHANGED <<c, s0>>
       /\ Step([mem EXCEPT !.run = CASE mem.run = "setup" -> "refused" [] mem.run = "failed" -> "aborted" [] OTHER -> "over"])

\* ---------------------------------------------------------------- output ----
PlyNamed(name) == {k \in 1..Len(e.plys) : e.plys[k].file = name}
HasFile(name) == \E k \in 1..Len(e.names) : e.names[k] = name
Near6(a, b) == NAbs(a (-) b) \preceq Dec("1e-5") (.) NAbs(b)         \* info.txt is written with 6 digits
GridFileOk(f) ==
  LET ax == TLCEval(Axes(c, s)) cols == GridColumns(c)
      at(name) == CHOOSE j \in 1..Len(f.names) : f.names[j] = name
      pos == IF c.dim = 2 THEN <<"x", "y">> ELSE <<"x", "y", "z">>
      vel == IF c.dim = 2 THEN <<"vx", "vy">> ELSE <<"vx", "vy", "vz">>
  IN /\ f.n = NNodes(ax)
     /\ \A k \in 1..Len(cols) : Cardinality({j \in 1..Len(f.names) : f.names[j] = cols[k]}) = 1
     /\ \A k \in 1..f.n : LET X == NodePos(ax, k) IN
          /\ \A d \in 1..c.dim : f.rows[k][at(pos[d])] = X[d] /\ (Zero \prec s.gm[k] => f.rows[k][at(vel[d])] = s.gv[k][d])
          /\ f.rows[k][at("mass")] = s.gm[k]
          /\ (c.mibf /\ Zero \prec s.gm[k]) => f.rows[k][at("friction")] = s.gfr[k]
FilesOk ==
  /\ (mem.run \in {"going", "ended", "over", "failed", "aborted"}) =>
     /\ Req({"C20"}, "info file", /\ Len(e.info) = 5 /\ Near6(e.info[1], Int2Num(c.endf)) /\ Near6(e.info[2], c.fps) /\ Near6(e.info[3], c.dx)
                                  /\ Near6(e.info[4], Int2Num(mem.n0)) /\ Near6(e.info[5], c.pvol))
     /\ Req({"C20"}, "copy of the input file", e.setup)
     /\ Req({"C20"}, "summary of a finished run", mem.run \in {"ended", "over"} =>
            /\ Len(e.timing) = 6 /\ Near6(e.timing[1], Int2Num(s.step)) /\ \A k \in 2..6 : Zero \preceq e.timing[k])
     /\ Req({"C20"}, "a completed frame is missing on disk", \A k \in 0..s.frame : HasFile(ParticleFile(k)))
     /\ Req({"C20"}, "a frame is on disk that was never reached", \A k \in (s.frame + 1)..(c.endf + 2) : ~HasFile(ParticleFile(k)))
     /\ Req({"C20"}, "marker of the last frame", e.last = Marker(s.frame))
     /\ ReqAll({"C20", "C19"}, "saved particles are not the state at the frame", PlyNamed(ParticleFile(s.frame)), LAMBDA k : ParticleFileOk(c, s, e.plys[k]))
     /\ Req({"C20"}, "an earlier frame was rewritten", \A k \in 0..(s.frame - 1) : PlyNamed(ParticleFile(k)) = {})
     /\ Req({"C20"}, "grid file", (c.savegrid /\ s.frame > 0) => HasFile(GridFile(s.frame)))
     /\ ReqAll({"C20"}, "saved grid is not the grid of the step", IF c.savegrid /\ s.frame > 0 THEN PlyNamed(GridFile(s.frame)) ELSE {}, LAMBDA k : GridFileOk(e.plys[k]))
\* a run told not to save leaves its folder empty
Stray == ev("stray") /\ Req({"C20"}, "a run that does not save wrote files", ~c.saving /\ e.count = 0) /\ UNCHANGED <<c, s, s0>> /\ Step(mem)
Files == ev("files") /\ FilesOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

\* one file-system call: whatever happens next, the promise made by the marker holds
FsOk ==
      /\ Req({"C21"}, "the marker names a frame that cannot be read", e.mark >= 0 => e.whole)
      /\ Req({"C21"}, "the marker went back", e.mark >= 0 => e.mark >= mem.mark)
Fs == ev("fs") /\ FsOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step([mem EXCEPT !.mark = IF e.mark >= 0 THEN e.mark ELSE @])

\* averages over the material
AvgOk ==
       /\ LET P == 1..s.np
              J == [p \in P |-> Det(s.F[p]) (.) Exp(s.epv[p])]
              tot == Sum(J)
              avg(w, d, f) == Dot(w, [p \in P |-> s.tau[p][d][f]]) (/) tot
              one == [p \in P |-> One]
              sc == MaxOf([p \in P |-> MatMaxAbs(s.tau[p])]) (+) Dec("1e-9")
          IN /\ Req({"C20"}, "mean volume change", Close(e.J, tot (/) Int2Num(s.np), e.J))
             /\ Req({"C20"}, "mean stress", \A d, f \in 1..c.dim : Close(e.cauchy[d][f], avg(one, d, f), sc) /\ Close(e.kirchh[d][f], avg(J, d, f), sc))
Avg == ev("avg") /\ AvgOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

\* the same averages, written row by row with six digits
SaveAvgOk ==
  LET P == 1..s.np
      D == c.dim
      J == TLCEval([p \in P |-> Det(s.F[p]) (.) Exp(s.epv[p])])
      tot == TLCEval(Sum(J))
      one == [p \in P |-> One]
      avg(w, k) == LET d == ((k - 1) \div D) + 1 f == ((k - 1) % D) + 1 IN Dot(w, [p \in P |-> s.tau[p][d][f]]) (/) tot
      sc == Dec("1e-9") (.) MaxOf([p \in P |-> MatMaxAbs(s.tau[p])]) (+) Dec("1e-12")
      same(u, w) == NAbs(u (-) w) \preceq Dec("1e-5") (.) NAbs(w) (+) sc
  IN /\ Req({"C20"}, "saved mean volume change", Len(e.J) = 1 /\ Near6(e.J[1], tot (/) Int2Num(s.np)))
     /\ Req({"C20"}, "saved mean stress", Len(e.cauchy) = D * D /\ Len(e.kirchh) = D * D /\ \A k \in 1..(D * D) : same(e.cauchy[k], avg(one, k)) /\ same(e.kirchh[k], avg(J, k)))
     /\ Req({"C20"}, "frame of the saved averages", e.last = Marker(s.frame))
SaveAvg == ev("saveavg") /\ SaveAvgOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

\* ------------------------------------------------------------- geometry -----
QueryOk ==
         /\ ReqAll({"C24"}, "terrain: inside", 1..Len(e.ans), LAMBDA k :
               LET o == c.objs[k] IN
               \/ e.ans[k].in = InsideObj(o, e.X)
               \/ (o.kind \notin {"ground", "curve"}) /\ ObjDoubtful(o, e.X, Dec("1e-13")))
         /\ ReqAll({"C24"}, "terrain: normal", 1..Len(e.ans), LAMBDA k : VClose(e.ans[k].n, Normal(c.objs[k], e.X), One))
         /\ ReqAll({"C24"}, "plate: inside", 1..Len(e.pin), LAMBDA k : e.pin[k] = PlateInside(c.pls[k].type, e.plates[k], e.X))
Query == ev("query") /\ QueryOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

\* ------------------------------------------------------------- sampling -----
Fresh(cf) == /\ Len(e.x) = e.np /\ Len(e.v) = e.np /\ Len(e.F) = e.np
             /\ \A p \in 1..e.np : e.v[p] = VZero(cf.dim) /\ e.F[p] = Ident(cf.dim)
\* on a lattice: one particle at the centre of every cell that fits in the box and the shape
SampledRegular(e1) ==
  LET h   == TLCEval(Spacing(e1))
      m   == TLCEval(Cells(e1, h))
      tol == Dec("1e-9") (.) h
      idx(X) == [k \in 1..e1.dim |-> Floor(X[k] (/) h)]
      centre(i) == [k \in 1..e1.dim |-> (Int2Num(i[k]) (+) Half) (.) h]
  IN
  /\ Req({"C23"}, "volume of a particle", Close(e1.pvol, Prod([k \in 1..e1.dim |-> h]), e1.pvol))
  /\ ReqAll({"C23"}, "particle not at a cell centre inside the box and shape", 1..e1.np, LAMBDA p :
       /\ VClose(e1.x[p], centre(idx(e1.x[p])), MaxOf(Boxes(e1)))
       /\ \A k \in 1..e1.dim : 0 <= idx(e1.x[p])[k] /\ idx(e1.x[p])[k] < m[k]
       /\ InShape(e1, e1.crop, e1.x[p], tol))
  /\ Req({"C23"}, "two particles in one place", Cardinality({idx(e1.x[p]) : p \in 1..e1.np}) = e1.np)
  /\ Req({"C23"}, "a cell of the shape was left empty", Cardinality({i \in AllCells(m) : InShape(e1, e1.crop, centre(i), NNeg(tol))}) <= e1.np)
\* the particles are samples, and every sample that is surely wanted is a particle (no samples known: nothing decided)
SamplesKept(e1, Wanted(_)) ==
  LET X == {e1.x[p] : p \in 1..e1.np} A == {e1.all[k] : k \in 1..Len(e1.all)} IN
  A # {} => X \subseteq A /\ \A a \in A : Wanted(a) => a \in X
\* at random: particles in the box and the shape, no two closer than the sampling distance;
\* a particle stands for an equal share of the box, and the cell size is what makes ppc of them fill a cell
SampledPoisson(e1) ==
  LET box == Prod(Boxes(e1))
      cell == IF e1.dim = 2 THEN Sq(e1.dx) ELSE e1.dx (.) Sq(e1.dx)
      share == box (/) e1.pvol
      total == Floor(share (+) Half)
  IN
  /\ Req({"C23"}, "particle volume is not a share of the box", NAbs(share (-) Int2Num(total)) \preceq Dec("1e-6") (.) share /\ total >= e1.np)
  /\ Req({"C23"}, "all samples are kept when nothing is cut away", e1.crop = 0 => total = e1.np)
  /\ Req({"C23"}, "cell size does not hold the asked number of particles", Close(cell, e1.ppc (.) e1.pvol, cell))
  /\ ReqAll({"C23"}, "particle outside the box or shape", 1..e1.np, LAMBDA p :
       /\ \A k \in 1..e1.dim : Zero \preceq e1.x[p][k] /\ e1.x[p][k] \preceq Boxes(e1)[k]
       /\ InShape(e1, e1.crop, e1.x[p], Dec("1e-9") (.) e1.dx))
  /\ Req({"C23"}, "two particles in one place", Cardinality({e1.x[p] : p \in 1..e1.np}) = e1.np)
  /\ Req({"C23"}, "a sample inside the shape was dropped, or one was moved", SamplesKept(e1, LAMBDA X : InShape(e1, e1.crop, X, NNeg(Dec("1e-9") (.) e1.dx))))
Sampled ==
  /\ ev("sampled")
  /\ Req({"C23"}, "fresh particles are at rest and undeformed", Fresh(e))
  /\ Req({"C23"}, "mass of a particle", Close(e.pmass, e.rho (.) e.pvol, e.pmass))
  /\ (IF e.how = "regular" THEN SampledRegular(e) ELSE SampledPoisson(e)) = TRUE
  /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

\* ----------------------------------------------------- level-set terrains ----
LevelSetRead ==
  /\ ev("levelset")
  /\ Req({"C26"}, "bounds of a level set", \A d \in 1..e.dim : Close(e.bmin[d], Corner(e, d, FALSE), e.h (+) NAbs(e.bmin[d])) /\ Close(e.bmax[d], Corner(e, d, TRUE), e.h (+) NAbs(e.bmax[d])))
  /\ c' = [h |-> e.h, lo |-> e.lo, n |-> e.n, phi |-> e.phi, dim |-> e.dim, sc |-> e.sc, exit0 |-> FALSE] /\ UNCHANGED <<s, s0>> /\ Step(mem)
LsQueryOk ==
  /\ Req({"C26"}, "level set: inside", Known(c, e.X) => LsDoubtful(c, e.X) \/ e.in = LsInside(c, e.X))
  /\ Req({"C26"}, "level set: inside, far from it", Beyond(c, e.X) => ~e.in)
  /\ Req({"C26"}, "level set: normal", (Smooth(c, e.X) /\ (Cardinality(Around(c, e.X)) = 1 \/ LsNormalTol(c, e.X) \prec Dec("0.1"))) =>
         LET t == IF Cardinality(Around(c, e.X)) = 1 THEN Dec("1e-9") ELSE LsNormalTol(c, e.X) (+) Dec("1e-6") IN
         \A d \in 1..Len(e.X) : NAbs(e.nrm[d] (-) LsNormal(c, e.X)[d]) \preceq t)
LsQuery == ev("lsquery") /\ LsQueryOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)
\* particles filling a level set: as in a box with its bounds, cut out by the solid
LsSampleOk ==
  LET box == [d \in 1..c.dim |-> Corner(c, d, TRUE) (-) Corner(c, d, FALSE)]
      len == [d \in 1..c.dim |-> Boxes(e)[d]]
      off(X) == [d \in 1..c.dim |-> X[d] (-) Corner(c, d, FALSE)]
      h   == TLCEval(Spacing(e))
      m   == TLCEval([d \in 1..c.dim |-> Floor(box[d] (/) h)])
      idx(X) == [d \in 1..c.dim |-> Floor(off(X)[d] (/) h)]
      place(i) == [d \in 1..c.dim |-> Corner(c, d, FALSE) (+) (Int2Num(i[d]) (+) Half) (.) h]
      share == Prod(box) (/) e.pvol
      total == Floor(share (+) Half)
  IN
  /\ Req({"C26"}, "fresh particles are at rest and undeformed", Fresh(e))
  /\ Req({"C26"}, "mass of a particle", Close(e.pmass, e.rho (.) e.pvol, e.pmass))
  /\ Req({"C26"}, "box of the material", VClose(len, box, MaxOf(box)))
  /\ ReqAll({"C26"}, "particle outside the level set", 1..e.np, LAMBDA p :
       /\ \A d \in 1..c.dim : Zero \preceq off(e.x[p])[d] /\ off(e.x[p])[d] \preceq box[d]
       /\ LsDoubtful(c, e.x[p]) \/ LsInside(c, e.x[p]))
  /\ Req({"C26"}, "two particles in one place", Cardinality({e.x[p] : p \in 1..e.np}) = e.np)
  /\ e.how = "regular" =>
       /\ Req({"C26"}, "volume of a particle", Close(e.pvol, Prod([d \in 1..c.dim |-> h]), e.pvol))
       /\ ReqAll({"C26"}, "particle not at a cell centre", 1..e.np, LAMBDA p : VClose(e.x[p], place(idx(e.x[p])), MaxOf([d \in 1..c.dim |-> NAbs(Corner(c, d, FALSE)) (+) box[d]])))
       /\ Req({"C26"}, "a cell of the level set was left empty", \A i \in AllCells(m) : LsInside(c, place(i)) /\ ~LsDoubtful(c, place(i)) => \E p \in 1..e.np : idx(e.x[p]) = i)
  /\ e.how # "regular" =>
       /\ Req({"C26"}, "particle volume is not a share of the box", NAbs(share (-) Int2Num(total)) \preceq Dec("1e-6") (.) share /\ total >= e.np)
       /\ Req({"C26"}, "cell size does not hold the asked number of particles", Close(Prod([d \in 1..c.dim |-> e.dx]), e.ppc (.) e.pvol, e.ppc (.) e.pvol))
       /\ Req({"C26"}, "samples in the solid were dropped, or one was moved", SamplesKept(e, LAMBDA X : LsInside(c, X) /\ ~LsDoubtful(c, X)))
LsSample == ev("lssample") /\ LsSampleOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

\* ------------------------------------------------------ thread agreement ----
\* final states of the same scenario run with one and with several threads
AgreeOk ==
  LET a == e.runs[1]
      big(f) == MaxOf([p \in 1..a.np |-> VMaxAbs(a[f][p])])
      sx == Rat(100,1) (.) (big("x") (+) a.Lx)
      sv == Rat(100,1) (.) (big("v") (+) Dec("1e-3") (.) a.cw)
      sF == Rat(100,1) (.) MaxOf([p \in 1..a.np |-> MatMaxAbs(a.F[p])])
      sameX(u, w) == VClose(u, w, sx) \/ (Zero \prec a.Lx /\ \E k \in {Rat(-1,1), One} : VClose([u EXCEPT ![1] = @ (+) k (.) a.Lx], w, sx))
  IN
  /\ Req({"C19"}, "a run was lost", Len(e.runs) = e.want)
  /\ ReqAll({"C19"}, "result depends on the number of threads", 2..Len(e.runs), LAMBDA k :
         LET b == e.runs[k] IN
         /\ a.np = b.np /\ a.step = b.step
         /\ \A p \in 1..a.np : sameX(a.x[p], b.x[p]) /\ VClose(a.v[p], b.v[p], sv) /\ MClose(a.F[p], b.F[p], sF))
Agree == ev("agree") /\ AgreeOk = TRUE /\ UNCHANGED <<c, s, s0>> /\ Step(mem)

Done == l > Len(Log) /\ PrintT(<<"ACCEPTED", Len(Log)>>) /\ FALSE /\ UNCHANGED vars

View == l
Init == l = 1 /\ n = Merge(Log[1], NoState) /\ c = [sc |-> "", exit0 |-> FALSE] /\ s = NoState /\ s0 = NoState /\ mem = Mem0
Next == \/ Cfg \/ Pre \/ Start \/ DtStage \/ MeshStage \/ GhostStage \/ P2GStage \/ GridStage \/ UnghostStage
        \/ G2PStage \/ MuslStage \/ DefoStage \/ PosStage \/ MoveStage \/ ClockStage \/ End \/ Abort \/ Ret \/ Stray
        \/ Files \/ Fs \/ Avg \/ SaveAvg \/ Query \/ Sampled \/ LevelSetRead \/ LsQuery \/ LsSample \/ Agree \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
