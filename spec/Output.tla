------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* What a run leaves on disk, and in which order.  A crash may happen      *)
(* between any two file-system calls; `last_written.txt` is the promise    *)
(* that the frame it names can be read.                                    *)
(*                                                                         *)
(* disk: file name -> [size, open], as after the last file-system call     *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets

ParticleFile(k) == "particles_f" \o ToString(k) \o ".ply"
GridFile(k)     == "grid_f" \o ToString(k) \o ".ply"
Marker(k)       == ToString(k) \o "\n"

\* columns of a particle file
Columns(c) ==
  (IF c.dim = 2 THEN <<"x", "y", "vx", "vy">> ELSE <<"x", "y", "z", "vx", "vy", "vz">>)
  \o <<"p", "q", "Je">>
  \o (IF c.pm = "NoPlasticity" THEN <<>>
      ELSE <<"eps_pl_vol", "eps_pl_dev", "delta_gamma">>
           \o (IF c.pm \in {"DPMui", "MCCMui"} \/ (c.mibf /\ c.pm \in {"DPVisc", "MCCVisc"}) THEN <<"muI">> ELSE <<>>)
           \o (IF c.pm \in {"DPMui", "MCCMui"} THEN <<"viscosity">> ELSE <<>>))

\* the value a column must hold for particle p
Column(c, s, name, p) ==
  LET t  == s.tau[p]
      pr == NNeg(Trace_(t) (/) Int2Num(c.dim))
      dv == MatAdd(t, MatScale(pr, Ident(c.dim)))
  IN CASE name = "x"  -> s.x[p][1] [] name = "y" -> s.x[p][2] [] name = "z" -> s.x[p][3]
       [] name = "vx" -> s.v[p][1] [] name = "vy" -> s.v[p][2] [] name = "vz" -> s.v[p][3]
       [] name = "p"  -> pr
       [] name = "q"  -> c.qpre (.) MatNorm(dv)
       [] name = "Je" -> Det(s.F[p])
       [] name = "eps_pl_vol"  -> s.epv[p]
       [] name = "eps_pl_dev"  -> s.epd[p]
       [] name = "delta_gamma" -> s.dg[p]
       [] name = "muI"         -> s.mui[p]
       [] name = "viscosity"   -> s.visc[p]
ColumnScale(c, s, name, p) ==
  IF name \in {"p", "q"} THEN MatMaxAbs(s.tau[p]) (+) Dec("1e-9") ELSE NAbs(Column(c, s, name, p)) (+) Dec("1e-12")

\* every column that must be there is there, once, and right; further columns are nobody's business
ParticleFileOk(c, s, f) ==
  /\ f.n = Len(s.x)
  /\ \A k \in 1..Len(Columns(c)) :
       LET name == Columns(c)[k]
           at   == {j \in 1..Len(f.names) : f.names[j] = name}
       IN /\ Cardinality(at) = 1
          /\ \A j \in at : \A p \in 1..f.n : Close(f.rows[p][j], Column(c, s, name, p), ColumnScale(c, s, name, p))

GridColumns(c) ==
  (IF c.dim = 2 THEN <<"x", "y", "vx", "vy", "mass">> ELSE <<"x", "y", "z", "vx", "vy", "vz", "mass">>)
  \o (IF c.mibf THEN <<"friction">> ELSE <<>>)

\* ------------------------------------------------------------ crash safety --
\* at every instant: if the marker names frame k, that frame's file is complete
NoFile == [size |-> -1, done |-> FALSE]
Get(disk, f) == IF f \in DOMAIN disk THEN disk[f] ELSE NoFile
=============================================================================
