------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Particle-to-grid and grid-to-particle transfers (PIC, FLIP, APIC,       *)
(* AFLIP; USL and MUSL), written densely: a node's value is a sum over ALL *)
(* particles and a particle's value a sum over ALL nodes.  Stencils, base  *)
(* indices, thread-private accumulators and the like are implementation    *)
(* matters and do not appear.                                              *)
(*                                                                         *)
(* c  : configuration record (dim, deg, dx, flip, pmass, pvol, ...)        *)
(* ax : <<gx, gy>> or <<gx, gy, gz>>, the node coordinates along each axis *)
(* pt : particle state, a record of sequences indexed by particle          *)
(***************************************************************************)
EXTENDS Kernel, TLC

Apic(c)  == c.flip \prec Zero               \* affine velocity modes carried by particles
Flips(c) == NNeg(One) \preceq c.flip        \* the increment is transferred too

NNodes(ax) == IF Len(ax) = 2 THEN Len(ax[1]) * Len(ax[2])
              ELSE Len(ax[1]) * Len(ax[2]) * Len(ax[3])

\* node number (1-based, last axis fastest) -> index along each axis
NodeIdx(ax, l) ==
  IF Len(ax) = 2
  THEN <<((l-1) \div Len(ax[2])) + 1, ((l-1) % Len(ax[2])) + 1>>
  ELSE LET nz == Len(ax[3]) ny == Len(ax[2]) m == (l-1) \div nz IN
       <<(m \div ny) + 1, (m % ny) + 1, ((l-1) % nz) + 1>>

NodePos(ax, l) == LET i == NodeIdx(ax, l) IN [k \in 1..Len(ax) |-> ax[k][i[k]]]

\* one-dimensional weights and weight derivatives of every node of axis k for every particle
AxisW(c, ax, x, k)  == TLCEval([p \in 1..Len(x) |-> TLCEval([i \in 1..Len(ax[k]) |-> W1(c.deg, (x[p][k] (-) ax[k][i]) (/) c.dx)])])
AxisDW(c, ax, x, k) == TLCEval([p \in 1..Len(x) |-> TLCEval([i \in 1..Len(ax[k]) |-> DW1(c.deg, (x[p][k] (-) ax[k][i]) (/) c.dx) (/) c.dx])])
Weights1(c, ax, x)  == TLCEval([k \in 1..c.dim |-> AxisW(c, ax, x, k)])
DWeights1(c, ax, x) == TLCEval([k \in 1..c.dim |-> AxisDW(c, ax, x, k)])

\* w1 = Weights1: weight of particle p at node with axis indices i
Wt(w1, p, i) == IF Len(i) = 2 THEN w1[1][p][i[1]] (.) w1[2][p][i[2]]
                ELSE w1[1][p][i[1]] (.) w1[2][p][i[2]] (.) w1[3][p][i[3]]
\* its gradient
GradWt(w1, d1, p, i) ==
  IF Len(i) = 2
  THEN << d1[1][p][i[1]] (.) w1[2][p][i[2]], w1[1][p][i[1]] (.) d1[2][p][i[2]] >>
  ELSE << d1[1][p][i[1]] (.) w1[2][p][i[2]] (.) w1[3][p][i[3]],
          w1[1][p][i[1]] (.) d1[2][p][i[2]] (.) w1[3][p][i[3]],
          w1[1][p][i[1]] (.) w1[2][p][i[2]] (.) d1[3][p][i[3]] >>

\* the particles that reach a node / the nodes a particle reaches
Touching(w1, n, i)  == SelectSeq([p \in 1..n |-> p], LAMBDA p : \A k \in 1..Len(i) : Zero \prec w1[k][p][i[k]])
AxisReach(w1, k, p) == SelectSeq([i \in 1..Len(w1[k][p]) |-> i], LAMBDA i : Zero \prec w1[k][p][i])

\* ------------------------------------------------------------------ P2G --
\* velocity a particle contributes at a place X
PartVel(c, pt, p, X) ==
  IF Apic(c)
  THEN VAdd(pt.v[p], VScale(ApicFactor(c.deg) (/) Sq(c.dx), MatVec(pt.B[p], VSub(X, pt.x[p]))))
  ELSE pt.v[p]

\* everything a node receives: share (sum of weights), velocity, magnitude scale, friction
NodeGather(c, ax, pt, w1, l) ==
  LET i  == NodeIdx(ax, l)
      ps == TLCEval(Touching(w1, Len(pt.x), i))
      X  == NodePos(ax, l)
      ws == TLCEval([q \in 1..Len(ps) |-> Wt(w1, ps[q], i)])
      s  == Sum(ws)
      us == TLCEval([q \in 1..Len(ps) |-> PartVel(c, pt, ps[q], X)])
  IN [share |-> s,
      v |-> IF Zero \prec s
            THEN [k \in 1..c.dim |-> Dot(ws, [q \in 1..Len(ps) |-> us[q][k]]) (/) s]
            ELSE VZero(c.dim),
      size |-> IF ps = <<>> THEN Zero ELSE MaxOf([q \in 1..Len(ps) |-> VMaxAbs(us[q])]),
      fr |-> IF c.mibf /\ Zero \prec s THEN Dot(ws, [q \in 1..Len(ps) |-> pt.mui[ps[q]]]) (/) s ELSE Zero,
      frsize |-> IF c.mibf /\ ps # <<>> THEN MaxOf([q \in 1..Len(ps) |-> NAbs(pt.mui[ps[q]])]) ELSE Zero]

\* Sum over particles of stress times weight gradient (per unit volume), and its magnitude scale
NodeForce(c, ax, pt, w1, d1, l) ==
  LET i  == NodeIdx(ax, l)
      ps == TLCEval(Touching(w1, Len(pt.x), i))
      fs == TLCEval([q \in 1..Len(ps) |-> MatVec(pt.tau[ps[q]], GradWt(w1, d1, ps[q], i))])
  IN [f |-> [k \in 1..c.dim |-> Sum([q \in 1..Len(ps) |-> fs[q][k]])],
      size |-> IF ps = <<>> THEN Zero ELSE Sum([q \in 1..Len(ps) |-> VMaxAbs(fs[q])])]

\* nodes whose share is so small that rounding in the weights dominates their velocity
Negligible(s) == s \prec Dec("1e-11")

\* ------------------------------------------------------------------ G2P --
\* sum over nodes of weight * value[l], restricted to the nodes the particle reaches
FlatIdx(ax, i) == IF Len(i) = 2 THEN (i[1]-1) * Len(ax[2]) + i[2]
                  ELSE ((i[1]-1) * Len(ax[2]) + (i[2]-1)) * Len(ax[3]) + i[3]
\* sequence of axis-index tuples of the nodes particle p reaches
PartNodes(c, ax, w1, p) ==
  LET a == TLCEval(AxisReach(w1, 1, p)) b == TLCEval(AxisReach(w1, 2, p)) IN
  IF c.dim = 2
  THEN TLCEval([n \in 1..(Len(a) * Len(b)) |-> <<a[((n-1) \div Len(b)) + 1], b[((n-1) % Len(b)) + 1]>>])
  ELSE LET d == TLCEval(AxisReach(w1, 3, p)) m == Len(b) * Len(d) IN
       TLCEval([n \in 1..(Len(a) * m) |-> <<a[((n-1) \div m) + 1], b[(((n-1) % m) \div Len(d)) + 1], d[((n-1) % Len(d)) + 1]>>])

\* pic velocity, flip increment, affine matrix and velocity gradient of particle p
PartGather(c, ax, gv, gf, x, w1, d1, p) ==
  LET is == PartNodes(c, ax, w1, p)
      N  == 1..Len(is)
      ls == TLCEval([n \in N |-> FlatIdx(ax, is[n])])
      ws == TLCEval([n \in N |-> Wt(w1, p, is[n])])
      gs == TLCEval([n \in N |-> GradWt(w1, d1, p, is[n])])
      K  == 1..c.dim
      vk == TLCEval([k \in K |-> TLCEval([n \in N |-> gv[ls[n]][k]])])
  IN [pic  |-> TLCEval([k \in K |-> Dot(ws, vk[k])]),
      flip |-> IF Flips(c) THEN [k \in K |-> Dot(ws, [n \in N |-> gf[ls[n]][k]])] ELSE VZero(c.dim),
      B    |-> IF Apic(c)
               THEN [k \in K |-> [m \in K |-> Dot([n \in N |-> ws[n] (.) vk[k][n]], [n \in N |-> ax[m][is[n][m]] (-) x[p][m]])]]
               ELSE [k \in K |-> VZero(c.dim)],
      L    |-> TLCEval([k \in K |-> TLCEval([m \in K |-> Dot(vk[k], [n \in N |-> gs[n][m]])])]),
      size |-> IF is = <<>> THEN Zero ELSE MaxOf([n \in N |-> VMaxAbs(gv[ls[n]])]),
      fsize |-> IF is = <<>> \/ ~Flips(c) THEN Zero ELSE MaxOf([n \in N |-> VMaxAbs(gf[ls[n]])])]

\* the blend of the two updates, by the sign and size of the ratio
Blend(c, v, pic, flip) ==
  IF c.flip \prec NNeg(One) THEN pic
  ELSE LET r == NAbs(c.flip) IN VAdd(VScale(r, VAdd(v, flip)), VScale(One (-) r, pic))
=============================================================================
