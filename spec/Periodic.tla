------------------------------ MODULE Periodic ------------------------------
(***************************************************************************)
(* Periodicity in x with period Lx.  The material is the infinite array of *)
(* images of the particles; the code represents it by temporary copies of  *)
(* the particles near the two ends.                                        *)
(***************************************************************************)
EXTENDS Transfer, FiniteSets

Shifted(c, X, k) == [X EXCEPT ![1] = X[1] (+) Int2Num(k) (.) c.Lx]

\* the particle state extended by the images one period to either side
Doubled(q) == q \o q \o q
WithImages(c, pt) ==
  LET n == Len(pt.x) IN
  [x   |-> TLCEval(pt.x \o [p \in 1..n |-> Shifted(c, pt.x[p], 1)] \o [p \in 1..n |-> Shifted(c, pt.x[p], -1)]),
   v   |-> Doubled(pt.v), B |-> Doubled(pt.B), tau |-> Doubled(pt.tau),
   mui |-> Doubled(pt.mui)]

SameParticle(c, s, p, q) == s.v[p] = s.v[q] /\ s.B[p] = s.B[q] /\ s.F[p] = s.F[q] /\ s.tau[p] = s.tau[q] /\ (c.mibf => s.mui[p] = s.mui[q])
\* is particle q (a copy) an image of real particle p?
ImageOf(c, s, p, q, k) ==
  /\ NAbs(s.x[q][1] (-) (s.x[p][1] (+) Int2Num(k) (.) c.Lx)) \preceq Dec("1e-9") (.) c.dx
  /\ \A d \in 2..c.dim : s.x[q][d] = s.x[p][d]
  /\ SameParticle(c, s, p, q)

\* an image that reaches a node which some real particle may also reach must be represented
MustHave(c, X1) == LET r == Two (.) Reach(c.deg) (.) c.dx (-) Dec("1e-9") (.) c.dx IN NNeg(r) \prec X1 /\ X1 \prec c.Lx (+) r

\* s: state with copies appended after the n real particles
CopiesOk(c, s, n) ==
  LET m == Len(s.x) IN
  /\ \A q \in (n+1)..m : \E p \in 1..n : \E k \in {-1, 1} : ImageOf(c, s, p, q, k)
  /\ \A p \in 1..n : \A k \in {-1, 1} :
       LET cnt == Cardinality({q \in (n+1)..m : ImageOf(c, s, p, q, k)})
           twins == Cardinality({r \in 1..n : s.x[r] = s.x[p] /\ SameParticle(c, s, r, p)})
       IN IF MustHave(c, s.x[p][1] (+) Int2Num(k) (.) c.Lx) THEN cnt = twins ELSE cnt <= twins

Wrapped(c, X) ==
  IF c.Lx \prec X[1] THEN Shifted(c, X, -1) ELSE IF X[1] \prec Zero THEN Shifted(c, X, 1) ELSE X
=============================================================================
