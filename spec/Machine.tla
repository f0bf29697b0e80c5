------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The specification run forward: one action per stage of a step, built    *)
(* from the operators of Matter.tla (the ones Trace.tla compares recorded  *)
(* executions with).  The exhaustive models MC_*.tla supply the initial    *)
(* configurations and state what must hold in every reachable state.       *)
(*                                                                         *)
(* Stages may be taken in any order that respects Before; where a law or   *)
(* a contact has several admissible outcomes, each is a successor.         *)
(***************************************************************************)
EXTENDS Matter

VARIABLES c,      \* configuration
          s,      \* state
          s0,     \* state at the start of the step
          done,   \* stages of this step that have been carried out
          run     \* "setup" | "refused" | "going" | "failed" | "ended"
vars == <<c, s, s0, done, run>>

CONSTANT MaxSteps

Q(a, b) == Rat(a, b)

\* ------------------------------------------------------ defaults for models --
Config0 ==
  [dim |-> 2, deg |-> 2, dx |-> One, flip |-> Rat(-2,1), pmass |-> One, pvol |-> Half, rho |-> Two, E |-> Rat(8,1), nu |-> Rat(1,4),
   fps |-> One, endf |-> 1, cfl |-> Half, cfle |-> Half, mindt |-> Dec("1e-12"), g0 |-> <<Zero, Rat(-1,1)>>, gspecial |-> FALSE, gtime |-> Zero,
   pbc |-> FALSE, Lx |-> Rat(8,1), musl |-> FALSE, mibf |-> FALSE, hasref |-> FALSE, ref |-> <<Zero, Zero>>,
   em |-> "Hencky", pm |-> "NoPlasticity", hl |-> "NoHard", qpre |-> Sqrt(Half), qmax |-> Half, qmin |-> Q(1,4), pmin |-> Rat(-1,1), xi |-> Zero,
   M |-> Half, qcoh |-> Q(1,10), mu1 |-> Half, mu2 |-> One, p0 |-> One, beta |-> Half, stol |-> Dec("1e-6"), pradhana |-> FALSE,
   vtime |-> Zero, vexp |-> One, duvaut |-> FALSE, Iref |-> Q(1,4), gd |-> Q(1,10), rhos |-> Two,
   pls |-> <<>>, objs |-> <<>>, inited |-> TRUE, exit0 |-> FALSE]
Particle0 == [x |-> <<Zero, Zero>>, v |-> <<Zero, Zero>>, B |-> <<<<Zero, Zero>>, <<Zero, Zero>>>>, F |-> Ident(2)]

\* the state of a set of particles before a run
Initial(cf, ps) ==
  LET n == Len(ps)
      all(v) == [p \in 1..n |-> v]
      S(p) == Spectral(ps[p].F)
  IN [np |-> n, x |-> [p \in 1..n |-> ps[p].x], v |-> [p \in 1..n |-> ps[p].v], B |-> [p \in 1..n |-> ps[p].B], F |-> [p \in 1..n |-> ps[p].F],
      tau |-> [p \in 1..n |-> TLCEval(Stress(cf, ps[p].F, S(p)))],
      pic |-> all(VZero(cf.dim)), flip |-> all(VZero(cf.dim)), epd |-> all(Zero), epv |-> all(Zero), epp |-> all(Zero), dg |-> all(Zero),
      visc |-> all(Zero), mui |-> all(IF cf.mibf THEN (IF cf.pm \in {"DPMui", "MCCMui"} THEN cf.mu1 ELSE cf.M) ELSE Zero),
      gx |-> <<>>, gy |-> <<>>, gm |-> <<>>, gv |-> <<>>, gf |-> <<>>, gfr |-> <<>>,
      plates |-> [k \in 1..Len(cf.pls) |-> <<cf.pls[k].pos, cf.pls[k].lower, cf.pls[k].upper>> \o cf.pls[k].v],
      time |-> Zero, frame |-> 0, step |-> 0, dt |-> Zero, grav |-> VZero(cf.dim), exit |-> 0]

Accepted(cf) == cf.inited /\ (cf.em = "Hencky" \/ cf.pm = "NoPlasticity") /\ ~cf.exit0

\* ---------------------------------------------------------------- actions ----
Begin == /\ run = "setup" /\ Accepted(c)
         /\ run' = "going" /\ s0' = s /\ UNCHANGED <<c, s, done>>
Refuse == /\ run = "setup" /\ ~Accepted(c)
          /\ run' = "refused" /\ UNCHANGED <<c, s, s0, done>>

May(st) == run = "going" /\ s.frame < c.endf /\ s.step < MaxSteps /\ st \in Stages(c) /\ st \notin done /\ Before(c, st) \subseteq done
Did(st) == done' = done \cup {st} /\ UNCHANGED <<c, s0, run>>

Dt == /\ May("dt")
      /\ s' = [s EXCEPT !.dt = DtRule(c, s.v, s.frame, s.time), !.grav = Gravity(c, s.time)]
      /\ Did("dt")

\* the tightest window of the lattice through anchor that covers an extent
Window(cf, lo, hi, anchor) ==
  LET a == Floor((lo (-) Reach(cf.deg) (.) cf.dx (-) anchor) (/) cf.dx)
      b == Floor((hi (+) Reach(cf.deg) (.) cf.dx (-) anchor) (/) cf.dx) + 1
  IN [k \in 1..(b - a + 1) |-> anchor (+) Int2Num(a + k - 1) (.) cf.dx]
AxisFor(k) ==
  IF c.pbc /\ k = 1 THEN Window(c, NNeg(Reach(c.deg) (.) c.dx), c.Lx (+) Reach(c.deg) (.) c.dx, Zero)
  ELSE LET e == Extent(s.x, k) IN Window(c, e.lo, e.hi, Zero)
Mesh == /\ May("mesh")
        /\ s' = [s EXCEPT !.gx = TLCEval(AxisFor(1)), !.gy = TLCEval(AxisFor(2))]
        /\ Did("mesh")

\* copies of the particles whose images matter, in particle order
CopyList(cf, x) ==
  LET n == Len(x)
      cand == [j \in 1..(2*n) |-> IF j <= n THEN <<j, 1>> ELSE <<j - n, -1>>]
  IN SelectSeq(cand, LAMBDA pk : MustHave(cf, x[pk[1]][1] (+) Int2Num(pk[2]) (.) cf.Lx))
With(q, L) == q \o [j \in 1..Len(L) |-> q[L[j][1]]]
Ghosts == /\ May("ghosts")
          /\ s' = LET L == TLCEval(CopyList(c, s.x)) IN
                  [s EXCEPT !.np = @ + Len(L), !.x = @ \o [j \in 1..Len(L) |-> Shifted(c, s.x[L[j][1]], L[j][2])],
                            !.v = With(@, L), !.B = With(@, L), !.F = With(@, L), !.tau = With(@, L), !.mui = With(@, L)]
          /\ Did("ghosts")
Cut(q) == SubSeq(q, 1, s0.np)
Unghost == /\ May("unghost")
           /\ s' = [s EXCEPT !.np = s0.np, !.x = Cut(@), !.v = Cut(@), !.B = Cut(@), !.F = Cut(@), !.tau = Cut(@), !.mui = Cut(@)]
           /\ Did("unghost")

P2G == /\ May("p2g")
       /\ s' =
          LET ax == TLCEval(Axes(c, s)) w1 == TLCEval(Weights1(c, ax, s.x))
              G  == TLCEval([k \in 1..NNodes(ax) |-> P2GNode(c, ax, s, w1, k)]) IN
               [s EXCEPT !.gm = [k \in 1..Len(G) |-> G[k].share (.) c.pmass], !.gv = [k \in 1..Len(G) |-> G[k].v],
                         !.gf = [k \in 1..Len(G) |-> VZero(c.dim)], !.gfr = [k \in 1..Len(G) |-> G[k].fr]]
       /\ Did("p2g")

Sure == NNeg(One)      \* in a model positions are exact: nothing is in doubt
NodeAfter(st, ax, w1, d1, k) ==
  IF st.gm[k] \preceq Zero THEN VZero(c.dim)
  ELSE LET fn == TLCEval(FreeNode(c, st, ax, w1, d1, k))
           X  == TLCEval(NodeAhead(c, st, ax, k, fn))
       IN CHOOSE v \in ContactOutcomes(c, st.plates, X, Sure, st.gfr[k], fn.v) : TRUE
Grid == /\ May("grid")
        /\ s' =
           LET ax == TLCEval(Axes(c, s)) w1 == TLCEval(Weights1(c, ax, s.x)) d1 == TLCEval(DWeights1(c, ax, s.x))
               V == TLCEval([k \in 1..NNodes(ax) |-> TLCEval(NodeAfter(s, ax, w1, d1, k))]) IN
           [s EXCEPT !.gv = V, !.gf = [k \in 1..Len(V) |-> VSub(V[k], s.gv[k])]]
        /\ Did("grid")

\* what every particle gathers from the grid of state st
Offered(st) ==
  LET ax == TLCEval(Axes(c, st)) w1 == TLCEval(Weights1(c, ax, st.x)) d1 == TLCEval(DWeights1(c, ax, st.x)) IN
  TLCEval([p \in 1..st.np |-> PartGather(c, ax, st.gv, st.gf, st.x, w1, d1, p)])

\* deformation of all particles by velocity gradients L[p]: the set of admissible states
Flowed(st, p, L) ==
  LET T == TLCEval(Trial(c, st.dt, st.F[p], L)) R == TLCEval(Rotation(T, T.F)) IN
  { [F |-> TLCEval(IF r.p = T.p /\ r.q = T.q THEN T.F ELSE Rebuilt(c, T, R, r.p, r.q)), r |-> r] : r \in Outcomes(c, st.dt, T, Memory(st, p), Extras(st, p)) }
RECURSIVE Deformed(_, _, _)
Deformed(S, g, p) ==
  IF p > Len(g) THEN S
  ELSE Deformed(UNION { { [st EXCEPT !.F[p] = o.F, !.tau[p] = TLCEval(Stress(c, o.F, Spectral(o.F))), !.epd[p] = o.r.epd, !.epv[p] = o.r.epv,
                                     !.epp[p] = o.r.epp, !.dg[p] = o.r.rate, !.visc[p] = o.r.visc, !.mui[p] = o.r.mui] : o \in Flowed(st, p, g[p].L) } : st \in S }, g, p + 1)

G2P == /\ May("g2p") /\ (c.pbc => "unghost" \in done)
       /\ s' \in
          LET g == Offered(s)
              st == [s EXCEPT !.pic = [p \in 1..s.np |-> g[p].pic], !.flip = [p \in 1..s.np |-> g[p].flip], !.B = [p \in 1..s.np |-> g[p].B]] IN
          IF c.musl THEN {st}
          ELSE Deformed({[st EXCEPT !.v = [p \in 1..s.np |-> Blend(c, s.v[p], g[p].pic, g[p].flip)]]}, g, 1)
       /\ Did("g2p")

Musl == /\ May("musl")
        /\ s' =
           LET st == TLCEval([s EXCEPT !.v = [p \in 1..s.np |-> Blend(c, s.v[p], s.pic[p], s.flip[p])]])
               ax == TLCEval(Axes(c, s))
               im == IF c.pbc THEN TLCEval(WithImages(c, st)) ELSE st
               w1 == TLCEval(Weights1(c, ax, im.x)) IN
           [st EXCEPT !.gv = [k \in 1..NNodes(ax) |-> IF s.gm[k] \preceq Zero THEN VZero(c.dim) ELSE P2GNode(c, ax, im, w1, k).v]]
        /\ Did("musl")
Defo == /\ May("defo")
        /\ s' \in Deformed({s}, Offered(s), 1)
        /\ Did("defo")

Pos == /\ May("pos")
       /\ s' = [s EXCEPT !.x = [p \in 1..s.np |-> LET X == TLCEval(VAdd(s.x[p], VScale(s.dt, s.pic[p]))) IN IF c.pbc THEN Wrapped(c, X) ELSE X]]
       /\ Did("pos")
Move == /\ May("move")
        /\ s' = [s EXCEPT !.plates = [k \in 1..Len(c.pls) |-> PlateMoved(c.pls[k], s.plates[k], s.dt, FrameDt(c), s.time)]]
        /\ Did("move")

\* the step is over: time and counters
Clock == /\ run = "going" /\ s.frame < c.endf /\ Stages(c) \subseteq done
         /\ \E f \in FrameDone(c, s.frame, s.time (+) s.dt) :
              s' = [s EXCEPT !.time = @ (+) s.dt, !.step = @ + 1, !.frame = IF f THEN @ + 1 ELSE @]
         /\ s0' = s' /\ done' = {} /\ UNCHANGED <<c, run>>
End == /\ run = "going" /\ done = {} /\ s.frame = c.endf
       /\ run' = "ended" /\ UNCHANGED <<c, s, s0, done>>

MNext == \/ Begin \/ Refuse \/ Dt \/ Mesh \/ Ghosts \/ P2G \/ Grid \/ Unghost \/ G2P \/ Musl \/ Defo \/ Pos \/ Move \/ Clock \/ End
MInit(C, PS(_)) == /\ c \in C
                   /\ \E ps \in PS(c) : s = Initial(c, ps)
                   /\ s0 = s /\ done = {} /\ run = "setup"

\* ------------------------------------------------------- general invariants --
Lists == {"x", "v", "B", "F", "tau", "mui"}
Shapes == /\ \A f \in Lists : Len(s[f]) = s.np
          /\ \A f \in {"epd", "epv", "epp", "dg", "visc", "pic", "flip"} : Len(s[f]) = s0.np
EndsRight == run = "ended" => s.frame = c.endf /\ done = {} /\ NAbs(s.time (-) FinalTime(c)) \preceq Two (.) c.mindt (+) Rat(10,1) (.) TimeTol(c, s.time)
RefusedUntouched == run = "refused" => s.time = Zero /\ s.step = 0 /\ done = {} /\ s = s0
=============================================================================
