----------------------------- MODULE MC_Sampling -----------------------------
(***************************************************************************)
(* Exhaustive: filling boxes of many sizes on a lattice, one particle per  *)
(* action and in any order (the order is nobody's business), for several   *)
(* cell sizes, numbers of particles per cell and shapes.                   *)
(***************************************************************************)
EXTENDS Sampling, Json
CONSTANT Big

VARIABLES cf, left, put
vars == <<cf, left, put>>

Lens == IF Big THEN {Rat(1,2), One, Rat(5,4), Rat(7,3), Two} ELSE {One, Rat(5,4), Rat(7,3)}
Conf2 == { [dim |-> 2, Lx |-> a, Ly |-> b, Lz |-> One, dx |-> h, ppc |-> p, crop |-> k, ordered |-> o] :
           a \in Lens, b \in Lens, h \in {Half, One}, p \in {One, Rat(2,1), Rat(4,1)}, k \in {0, 1}, o \in {TRUE} }
Conf3 == { [dim |-> 3, Lx |-> a, Ly |-> b, Lz |-> a, dx |-> h, ppc |-> p, crop |-> k, ordered |-> o] :
           a \in {One, Rat(5,4)}, b \in {One, Two}, h \in {Half, One}, p \in {One, Rat(8,1)}, k \in {0, 1, 2}, o \in {TRUE} }
Small == { [dim |-> 2, Lx |-> One, Ly |-> Rat(5,4), Lz |-> One, dx |-> Half, ppc |-> One, crop |-> 0, ordered |-> FALSE] }
Wanted(x) == LET h == TLCEval(Spacing(x)) IN {i \in AllCells(Cells(x, h)) : InShape(x, x.crop, Centre(x, h, i), Zero)}
Init == cf \in Conf2 \cup Conf3 \cup Small /\ left = Wanted(cf) /\ put = {}
Put  == /\ left # {}
        /\ \E i \in (IF cf.ordered THEN {CHOOSE i \in left : TRUE} ELSE left) : put' = put \cup {i} /\ left' = left \ {i}
        /\ UNCHANGED cf
Spec == Init /\ [][Put]_vars /\ WF_vars(Put)

h == Spacing(cf)
V == Prod([k \in 1..cf.dim |-> h])
Box == Prod(Boxes(cf))
Share == V (.) cf.ppc
CellVolume == NAbs(Share (-) Prod([k \in 1..cf.dim |-> cf.dx])) \preceq Dec("1e-12") (.) Share      \* ppc particles fill a grid cell
Look == ~cf.ordered \/ left = {}
Inside  == Look => \A i \in put : \A k \in 1..cf.dim : LET X == Centre(cf, h, i) IN Half (.) h \preceq X[k] /\ X[k] (+) Half (.) h \preceq Boxes(cf)[k] (+) Dec("1e-12")
Apart   == Look => \A i, j \in put : i # j => \E k \in 1..cf.dim : h (-) Dec("1e-12") \preceq NAbs(Centre(cf, h, i)[k] (-) Centre(cf, h, j)[k])
NotMore == Look => Int2Num(Cardinality(put)) (.) V \preceq Box (+) Dec("1e-9")                                \* never more material than the box holds
Full    == (left = {} /\ cf.crop = 0) => Prod([k \in 1..cf.dim |-> NMax(Zero, Boxes(cf)[k] (-) h)]) \preceq Int2Num(Cardinality(put)) (.) V (+) Dec("1e-9")
Done == left = {}
Filled == <>Done
\* ------------------------------------------- behaviours for the real code --
Emit == PrintT("CASE " \o ToJson(cf))
Still == Init /\ [][FALSE]_vars
=============================================================================
