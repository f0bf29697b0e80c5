------------------------------ MODULE MC_Output ------------------------------
(***************************************************************************)
(* Exhaustive: the writing of frames, one file-system call per action, in  *)
(* a run that may be killed between any two of them (and whose streams     *)
(* may hold back data until they are closed).  Whatever the point of the   *)
(* crash, the frame named by the marker and all frames before it can be    *)
(* read.  The writer is the design the implementation follows: the         *)
(* particle file is closed before the marker is rewritten, the grid file   *)
(* comes after, and no frame is written twice.                             *)
(***************************************************************************)
EXTENDS Output
CONSTANT Big

Frames == IF Big THEN 4 ELSE 3        \* last frame of the run
Pieces == IF Big THEN 3 ELSE 2        \* data of one file, in write calls

VARIABLES grid,      \* grid files asked for?
          disk,      \* file -> [size: pieces on disk, done: complete]
          mark,      \* what the marker file holds: -1 nothing, k frame
          frame, pc, held, alive, everMark, written
vars == <<grid, disk, mark, frame, pc, held, alive, everMark, written>>

Put(f, r) == disk' = (f :> r) @@ disk
Init == /\ grid \in BOOLEAN /\ disk = <<>> /\ mark = -1 /\ frame = 0 /\ pc = "particles" /\ held = 0 /\ alive = TRUE /\ everMark = -1 /\ written = {}

\* a file: created empty, filled piece by piece (a stream may keep a piece until it is closed), closed
Target == IF pc \in {"particles", "pfill"} THEN ParticleFile(frame) ELSE GridFile(frame)
Open(here, next) ==
  /\ alive /\ pc = here /\ Put(Target, [size |-> 0, done |-> FALSE]) /\ held' = Pieces /\ pc' = next
  /\ written' = written \cup {Target} /\ UNCHANGED <<grid, mark, frame, alive, everMark>>
Fill(here) ==
  /\ alive /\ pc = here /\ held > 0
  /\ Put(Target, [size |-> disk[Target].size + 1, done |-> disk[Target].size + 1 = Pieces]) /\ held' = held - 1
  /\ UNCHANGED <<grid, mark, frame, pc, alive, everMark, written>>
Shut(here, next) ==
  /\ alive /\ pc = here /\ held = 0 /\ pc' = next
  /\ UNCHANGED <<grid, disk, mark, frame, held, alive, everMark, written>>

Erase  == alive /\ pc = "erase" /\ mark' = -1 /\ pc' = "mark" /\ UNCHANGED <<grid, disk, frame, held, alive, everMark, written>>
Mark   == alive /\ pc = "mark" /\ mark' = frame /\ everMark' = frame /\ pc' = (IF grid /\ frame > 0 THEN "grid" ELSE "compute") /\ UNCHANGED <<grid, disk, frame, held, alive, written>>
Compute == /\ alive /\ pc = "compute" /\ frame < Frames /\ frame' = frame + 1 /\ pc' = "particles" /\ UNCHANGED <<grid, disk, mark, held, alive, everMark, written>>
Finish == alive /\ pc = "compute" /\ frame = Frames /\ pc' = "ended" /\ UNCHANGED <<grid, disk, mark, frame, held, alive, everMark, written>>
Crash  == alive /\ pc # "ended" /\ alive' = FALSE /\ UNCHANGED <<grid, disk, mark, frame, pc, held, everMark, written>>
Next == Open("particles", "pfill") \/ Fill("pfill") \/ Shut("pfill", "erase") \/ Erase \/ Mark
        \/ Open("grid", "gfill") \/ Fill("gfill") \/ Shut("gfill", "compute") \/ Compute \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole(f) == Get(disk, f).done
Promise   == mark >= 0 => \A k \in 0..mark : Whole(ParticleFile(k))
Loss      == everMark >= 0 => \A k \in 0..everMark : Whole(ParticleFile(k))      \* even while the marker is being rewritten
GridFiles == (grid /\ mark >= 2) => \A k \in 1..(mark - 1) : Whole(GridFile(k))
None      == ~grid => \A f \in DOMAIN disk : f \in {ParticleFile(k) : k \in 0..Frames}
NotAhead  == \A k \in (frame + 1)..Frames : ParticleFile(k) \notin DOMAIN disk
AtEnd     == pc = "ended" => mark = Frames /\ \A k \in 0..Frames : Whole(ParticleFile(k)) /\ (grid /\ k > 0 => Whole(GridFile(k)))
Forward   == [][mark' >= 0 => mark' >= everMark]_vars
Once      == [][\A f \in DOMAIN disk : f \in DOMAIN disk' /\ (disk[f].done => disk'[f] = disk[f])]_vars     \* no file written twice
Ends      == <>(pc = "ended" \/ ~alive)
=============================================================================
