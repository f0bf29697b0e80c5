------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* The B-spline interpolation kernels (degree 1 to 3) that couple         *)
(* particles and grid nodes.  u is the signed particle-node distance in    *)
(* units of the cell size.                                                 *)
(***************************************************************************)
EXTENDS Num

Reach(deg) == CASE deg = 1 -> One [] deg = 2 -> Rat(3, 2) [] OTHER -> Two

W1(deg, u) ==
  LET a == NAbs(u) IN
  IF deg = 1 THEN NMax(Zero, One (-) a)
  ELSE IF deg = 2
  THEN IF a \prec Half THEN Rat(3,4) (-) a (.) a
       ELSE IF a \prec Rat(3,2) THEN Half (.) Sq(Rat(3,2) (-) a)
       ELSE Zero
  ELSE IF a \prec One THEN (Half (.) a (.) a (.) a (-) a (.) a) (+) Rat(2,3)
       ELSE IF a \prec Two THEN Rat(1,6) (.) (Two (-) a) (.) Sq(Two (-) a)
       ELSE Zero

\* derivative with respect to u
DW1(deg, u) ==
  LET a == NAbs(u) IN
  IF deg = 1 THEN (IF Dec("1e-10") \prec a /\ a \prec One (-) Dec("1e-10") THEN NNeg(NSgn(u)) ELSE Zero)       \* nothing at the kinks: the gradients of all nodes still add up to nothing
  ELSE IF deg = 2
  THEN IF a \prec Half THEN NNeg(Two (.) u)
       ELSE IF a \prec Rat(3,2) THEN u (-) (Rat(3,2) (.) NSgn(u))
       ELSE Zero
  ELSE IF a \prec One THEN u (.) ((Rat(3,2) (.) a) (-) Two)
       ELSE IF a \prec Two THEN NNeg(Half (.) NSgn(u) (.) Sq(Two (-) a))
       ELSE Zero

\* the inverse of the kernel's second moment, times dx^2 (used by APIC/AFLIP)
ApicFactor(deg) == CASE deg = 1 -> Zero [] deg = 2 -> Rat(4,1) [] OTHER -> Rat(3,1)     \* no affine modes with hat functions
=============================================================================
