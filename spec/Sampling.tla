------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Filling a box (or a shape cut out of it) with particles.                *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets

Boxes(cf) == IF cf.dim = 2 THEN <<cf.Lx, cf.Ly>> ELSE <<cf.Lx, cf.Ly, cf.Lz>>
InShape(cf, crop, X, eps) ==
  IF cf.dim = 2 /\ crop = 1 THEN X[2] \prec ((Dec("0.05") (+) Rat(100,1) (.) Sq(X[1] (-) cf.Lx)) (-) Half (.) cf.dx) (+) eps
  ELSE IF cf.dim = 3 /\ crop = 1 THEN Sq(X[1] (-) Half (.) cf.Lx) (+) Sq(X[3] (-) Half (.) cf.Lz) \prec Sq(Half (.) cf.Lx) (+) eps
  ELSE IF cf.dim = 3 /\ crop = 2 THEN Sq(X[1] (-) Half (.) cf.Lx) (+) Sq(X[3] (-) Half (.) cf.Lz) \prec Sq(Tanh(X[2]) (+) One) (+) eps
  ELSE TRUE
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN One ELSE Head(q) (.) Prod(Tail(q))
Cells(cf, h) == [k \in 1..cf.dim |-> Floor(Boxes(cf)[k] (/) h)]
AllCells(m) == IF Len(m) = 2 THEN {<<i, j>> : i \in 0..(m[1]-1), j \in 0..(m[2]-1)}
               ELSE {<<i, j, k>> : i \in 0..(m[1]-1), j \in 0..(m[2]-1), k \in 0..(m[3]-1)}
Spacing(cf) == IF cf.dim = 2 THEN cf.dx (/) Sqrt(cf.ppc) ELSE cf.dx (/) Cbrt(cf.ppc)
Centre(cf, h, i) == [k \in 1..cf.dim |-> (Int2Num(i[k]) (+) Half) (.) h]
=============================================================================
