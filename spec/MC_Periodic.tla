----------------------------- MODULE MC_Periodic ----------------------------
(***************************************************************************)
(* Exhaustive: periodic runs of two particles near, at and across the ends *)
(* of the cell, for both spline degrees, transfer modes and re-projection. *)
(* The representation by temporary copies must be invisible: the grid      *)
(* field near the particles is that of the infinite array, it has the      *)
(* period of the cell, the copies leave no trace, and nobody escapes.      *)
(***************************************************************************)
EXTENDS Machine, Json
CONSTANT Big

Configs == { [Config0 EXCEPT !.pbc = TRUE, !.Lx = Rat(8,1), !.deg = d, !.musl = m, !.flip = Rat(f, 1), !.mibf = b, !.endf = 1, !.g0 = <<Half, Rat(-1,1)>>, !.cfl = One, !.cfle = One, !.E = Two]
             : d \in {2, 3}, m \in BOOLEAN, f \in (IF Big THEN {-2, -1, 0, 1} ELSE {-2, 1}), b \in (IF Big THEN BOOLEAN ELSE {TRUE}) }
Ends == IF Big THEN {0, 1, 2, 3, 6, 16, 25, 29, 31, 32} ELSE {0, 1, 31, 32}
Sets(cf) ==
  { << [x |-> <<Rat(x1, 4), Q(1,4)>>, v |-> <<Rat(u, 4), Zero>>, B |-> <<<<Zero, Q(1,4)>>, <<Q(-1,8), Zero>>>>, F |-> <<<<Q(9,8), Zero>>, <<Q(1,8), One>>>>],
       [x |-> <<Rat(x2, 4), Half>>, v |-> <<Rat(w, 4), Q(1,4)>>, B |-> <<<<Q(1,8), Zero>>, <<Zero, Zero>>>>, F |-> <<<<One, Q(1,8)>>, <<Zero, Q(7,8)>>>>] >>
    : x1 \in Ends, x2 \in (IF Big THEN Ends ELSE {2, 30}), u \in (IF Big THEN {-4, 0, 4} ELSE {-4, 4}), w \in (IF Big THEN {-2, 3} ELSE {-2}) }
Init == MInit(Configs, Sets)
Next == MNext
Spec == Init /\ [][Next]_vars

Ax == Axes(c, s)
Real0(q) == SubSeq(q, 1, s0.np)
Copies == ("ghosts" \in done /\ "unghost" \notin done) => CopiesOk(c, s, s0.np)
Traceless == ("unghost" \in done /\ "g2p" \notin done) => s.np = s0.np /\ \A f \in Lists : s[f] = s0[f]
\* nodes that some real particle reaches
NearNode(w1, k) == LET i == NodeIdx(Ax, k) IN \E p \in 1..s0.np : \A d \in 1..2 : Zero \prec w1[d][p][i[d]]
\* the infinite array, cut off three periods away
Array(st) ==
  LET n == s0.np sh(k) == [p \in 1..n |-> Shifted(c, st.x[p], k)] five(q) == LET r == SubSeq(q, 1, n) IN r \o r \o r \o r \o r \o r \o r IN
  [x |-> TLCEval(sh(0) \o sh(1) \o sh(-1) \o sh(2) \o sh(-2) \o sh(3) \o sh(-3)), v |-> five(st.v), B |-> five(st.B), tau |-> five(st.tau), mui |-> five(st.mui)]
SeesArray == ("p2g" \in done /\ "grid" \notin done) =>
  (LET ar == TLCEval(Array(s)) wa == TLCEval(Weights1(c, Ax, ar.x)) IN
   \A k \in 1..NNodes(Ax) : NearNode(wa, k) =>
      LET G == P2GNode(c, Ax, ar, wa, k) IN
      /\ Close(s.gm[k], G.share (.) c.pmass, One)
      /\ ~Negligible(G.share) => VClose(s.gv[k], G.v, One) /\ Close(s.gfr[k], G.fr, One)) = TRUE
ForcesOfArray == ("grid" \in done /\ "g2p" \notin done) =>
  (LET ar == TLCEval(Array(s)) wa == TLCEval(Weights1(c, Ax, ar.x)) da == TLCEval(DWeights1(c, Ax, ar.x))
       old == [k \in 1..NNodes(Ax) |-> VSub(s.gv[k], s.gf[k])]
       st == [x |-> ar.x, tau |-> ar.tau, gv |-> old, gm |-> s.gm, dt |-> s.dt, grav |-> s.grav] IN
   \A k \in 1..NNodes(Ax) : (NearNode(wa, k) /\ ~Negligible(s.gm[k])) => LET fn == FreeNode(c, st, Ax, wa, da, k) IN VClose(s.gv[k], fn.v, fn.size)) = TRUE
Inside == (done = {} /\ run = "going") => \A p \in 1..s.np : Zero \preceq s.x[p][1] /\ s.x[p][1] \preceq c.Lx
Whole == "pos" \in done => \A p \in 1..s.np : \E k \in {-1, 0, 1} : VClose(s.x[p], Shifted(c, VAdd(s0.x[p], VScale(s.dt, s.pic[p])), k), Rat(10,1))
Kept == (Stages(c) \subseteq done) => VClose(VSub(Momentum(c, s.x, s.v), Momentum(c, s0.x, s0.v)), VScale(Int2Num(s.np) (.) c.pmass (.) s.dt, s.grav), Rat(100,1))
\* ------------------------------------------- behaviours for the real code --
Emit == run = "setup" => PrintT("CASE " \o ToJson([c |-> c, s |-> s]))
Still == Init /\ [][FALSE]_vars
=============================================================================
