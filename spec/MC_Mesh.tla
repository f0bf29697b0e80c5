------------------------------- MODULE MC_Mesh -------------------------------
(***************************************************************************)
(* Exhaustive: the way the grid follows the material.  The first grid is   *)
(* laid around the first extent of the particles (and a reference point,   *)
(* if any) with two cells to spare; later grids are obtained from it by    *)
(* adding or removing whole cells at either end, counted from the first    *)
(* extent (remesh.cpp).  For every first extent and every history of later *)
(* extents on a raster of 1/U of a cell, in any number of steps, what      *)
(* Mesh.tla asks of a grid holds: every node in reach exists, the lattice  *)
(* stays where it was, and the grid is no larger than need be.             *)
(***************************************************************************)
EXTENDS Mesh, TLC, Json
CONSTANT Big

VARIABLES c, lo, hi, lo0, hi0, low, high, steps
vars == <<c, lo, hi, lo0, hi0, low, high, steps>>

U     == IF Big THEN 7 ELSE 4                  \* raster: positions are multiples of dx/U
Range == (0 - 2*U)..(2*U)                      \* where particles may be
Safe  == 2                                     \* cells to spare
Conf  == { [deg |-> d, dx |-> h, hasref |-> FALSE, ref |-> <<Zero>>] : d \in {2, 3}, h \in {One, Rat(3,7)} }

Cells(k) == k \div U                           \* whole cells in a distance k >= 0
At(k) == Rat(k, U) (.) c.dx
\* the axis a grid with ends low, high gets: the places before high + dx
Axis(l, h) == [i \in 1..((h - l + 2*U - 1) \div U) |-> At(l + (i - 1) * U)]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ c \in Conf
        /\ lo \in Range /\ hi \in Range /\ lo <= hi
        /\ \E r \in Range \cup {99} :          \* reference point (99: none)
             /\ lo0 = (IF r = 99 THEN lo ELSE Min2(lo, r)) /\ hi0 = (IF r = 99 THEN hi ELSE Max2(hi, r))
        /\ low = lo0 - Safe*U /\ high = hi0 + Safe*U /\ steps = 0
Moved(l, h) ==
  /\ high' = (IF h < hi0 THEN (hi0 + Safe*U) - U*Cells(hi0 - h) ELSE (hi0 + Safe*U) + U*Cells(h - hi0))
  /\ low'  = (IF l > lo0 THEN (lo0 - Safe*U) + U*Cells(l - lo0) ELSE (lo0 - Safe*U) - U*Cells(lo0 - l))
Next == /\ steps < 1
        /\ \E l \in Range, h \in Range : l <= h /\ lo' = l /\ hi' = h /\ Moved(l, h)
        /\ steps' = steps + 1 /\ UNCHANGED <<c, lo0, hi0>>
Spec == Init /\ [][Next]_vars

A    == Axis(low, high)
Ext  == [lo |-> At(lo), hi |-> At(hi)]
Ext0 == [lo |-> At(IF steps = 0 THEN lo0 ELSE lo), hi |-> At(IF steps = 0 THEN hi0 ELSE hi)]
RegularAxis == Regular(c, A)
CoversAll   == Covers(c, A, Ext0)
TightAll    == Tight(c, A, Ext0)
OneLattice  == Aligned(c, A, At(lo0 - Safe*U))
\* what covering is for: the kernel's weights of any particle add up to one on the grid
Weight(x, a) == Sum([i \in 1..Len(a) |-> W1(c.deg, (x (-) a[i]) (/) c.dx)])
Partition   == \A k \in {lo, hi} : NAbs(Weight(At(k), A) (-) One) \preceq Dec("1e-14")
\* ------------------------------------------- behaviours for the real code --
Still == Init /\ [][FALSE]_vars
Emit == PrintT("CASE " \o ToJson([deg |-> c.deg, dx |-> c.dx, lo |-> At(lo), hi |-> At(hi), lo0 |-> At(lo0), hi0 |-> At(hi0), u |-> U]))
=============================================================================
