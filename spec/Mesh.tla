-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The background grid of a step: a regular lattice, fixed in space for    *)
(* the whole run, cut out around wherever the particles are.               *)
(***************************************************************************)
EXTENDS Kernel, TLC

Slack == Dec("1e-7")      \* in cells: room for accumulated rounding of node coordinates

Regular(c, a) == \A i \in 1..(Len(a) - 1) : NAbs((a[i+1] (-) a[i]) (-) c.dx) \preceq Slack (.) c.dx

Extent(x, k) == [lo |-> MinOf([p \in 1..Len(x) |-> x[p][k]]), hi |-> MaxOf([p \in 1..Len(x) |-> x[p][k]])]

\* every lattice node within a particle's reach exists: the first lattice place beyond
\* either end of the axis is out of reach of every particle
Covers(c, a, ext) ==
  /\ a[1] (-) c.dx \preceq (ext.lo (-) Reach(c.deg) (.) c.dx) (+) Slack (.) c.dx
  /\ (ext.hi (+) Reach(c.deg) (.) c.dx) (-) Slack (.) c.dx \preceq a[Len(a)] (+) c.dx

\* all grids of a run are windows onto one lattice
NearInteger(u) == LET n == Floor(u (+) Half) IN NAbs(u (-) Int2Num(n)) \preceq Dec("1e-5")
Aligned(c, a, anchor) == NearInteger((a[1] (-) anchor) (/) c.dx)

\* and stay close around the particles (and, on the first step, a given reference point)
Tight(c, a, ext) ==
  /\ ext.lo (-) Rat(9,2) (.) c.dx \preceq a[1]
  /\ a[Len(a)] \preceq ext.hi (+) Rat(11,2) (.) c.dx

WithRef(c, ext, k, first) ==
  IF c.hasref /\ first THEN [lo |-> NMin(ext.lo, c.ref[k]), hi |-> NMax(ext.hi, c.ref[k])] ELSE ext
=============================================================================
