------------------------------ MODULE LevelSet ------------------------------
(***************************************************************************)
(* A terrain given by a signed distance on a regular lattice of voxels:    *)
(* g = [h: voxel size, lo: index of the first voxel, n: number of voxels   *)
(* along each axis, phi: values, last index fastest].  Between voxels the  *)
(* distance is interpolated linearly along each axis; the solid is where   *)
(* it is not positive.  In two dimensions the solid is the slice z = 0.    *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets

Voxel(g, i) == g.phi[((i[1] - g.lo[1]) * g.n[2] + (i[2] - g.lo[2])) * g.n[3] + (i[3] - g.lo[3]) + 1]
HasVoxels(g, lo, hi) == \A d \in 1..3 : g.lo[d] <= lo[d] /\ hi[d] < g.lo[d] + g.n[d]

Point3(g, X) == [d \in 1..3 |-> IF d <= Len(X) THEN X[d] (/) g.h ELSE Zero]
BaseOf(u) == [d \in 1..3 |-> Floor(u[d])]
Plus(b, a) == [d \in 1..3 |-> b[d] + a[d]]

Mix(w, a, b) == a (+) w (.) (b (-) a)
\* linear interpolation of f, a function of voxels, at the point u
Lerp(f(_), u) ==
  LET b == BaseOf(u)
      w == [d \in 1..3 |-> u[d] (-) Int2Num(b[d])]
      z(i, j) == Mix(w[3], f(Plus(b, <<i, j, 0>>)), f(Plus(b, <<i, j, 1>>)))
      y(i) == Mix(w[2], z(i, 0), z(i, 1))
  IN Mix(w[1], y(0), y(1))

\* is the interpolated distance / its gradient fixed by the voxels given?
Known(g, X)  == LET b == BaseOf(Point3(g, X)) IN HasVoxels(g, b, Plus(b, <<1, 1, 1>>))
Smooth(g, X) == LET b == BaseOf(Point3(g, X)) IN HasVoxels(g, Plus(b, <<-1, -1, -1>>), Plus(b, <<2, 2, 2>>))
Beyond(g, X) == LET u == Point3(g, X) IN \E d \in 1..3 : u[d] \prec Int2Num(g.lo[d] - 1) \/ Int2Num(g.lo[d] + g.n[d]) \prec u[d]

Phi(g, X) == Lerp(LAMBDA i : Voxel(g, i), Point3(g, X))
Step3(d, k) == [e \in 1..3 |-> IF e = d THEN k ELSE 0]
Slope(g, d, i) == (Voxel(g, Plus(i, Step3(d, 1))) (-) Voxel(g, Plus(i, Step3(d, -1)))) (/) (Two (.) g.h)
Grad(g, X) == [d \in 1..Len(X) |-> Lerp(LAMBDA i : Slope(g, d, i), Point3(g, X))]
Around(g, X) == LET b == BaseOf(Point3(g, X)) IN {Voxel(g, Plus(b, <<i, j, k>>)) : i \in -1..2, j \in -1..2, k \in -1..2}
PhiScale(g) == MaxOf([k \in 1..Len(g.phi) |-> NAbs(g.phi[k])])

\* values are stored in single precision
PhiTol(g) == Dec("1e-5") (.) PhiScale(g)
LsInside(g, X) == Phi(g, X) \preceq Zero
LsDoubtful(g, X) == NAbs(Phi(g, X)) \preceq PhiTol(g)
LsNormal(g, X) == LET v == Grad(g, X) m == VNorm(v) IN IF Cardinality(Around(g, X)) = 1 THEN VZero(Len(X)) ELSE VScale(One (/) m, v)
\* the direction is only as good as the slope is steep
LsNormalTol(g, X) == (Dec("1e-4") (.) PhiScale(g)) (/) (g.h (.) VNorm(Grad(g, X)))

Corner(g, d, far) == Int2Num(IF far THEN g.lo[d] + g.n[d] - 1 ELSE g.lo[d]) (.) g.h
=============================================================================
