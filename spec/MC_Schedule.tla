----------------------------- MODULE MC_Schedule ----------------------------
(***************************************************************************)
(* Exhaustive: the control skeleton of a run.  The physics of a stage is   *)
(* left open (the fastest particle's speed may be anything in Speeds after *)
(* each step; a stage that can fail may fail), and what remains is the     *)
(* machinery of Schedule.tla: refusal, the order of stages, the choice of  *)
(* the step size, the gravity ramp, frames, the end, and failures.         *)
(***************************************************************************)
EXTENDS Schedule, TLC
CONSTANT Big

VARIABLES c, run, done, t, frame, step, dt, g, v, t0, saved
vars == <<c, run, done, t, frame, step, dt, g, v, t0, saved>>

Fps  == {One, Rat(4,1), Rat(10,3)}
Conf == { [fps |-> f, endf |-> n, cfl |-> Half, cfle |-> Half, dx |-> h, E |-> One, rho |-> One, mindt |-> m,
           g0 |-> <<Zero, Rat(-10,1)>>, gspecial |-> gs, gtime |-> Rat(1,3), pbc |-> pb, musl |-> mu, ok |-> k, unsound |-> u]
          : f \in (IF Big THEN Fps ELSE {Rat(10,3)}), n \in (IF Big THEN {1, 2, 3} ELSE {2}), h \in (IF Big THEN {Half, Rat(3,7), Rat(1,5)} ELSE {Rat(3,7)}), m \in {Dec("1e-10"), Dec("0.013")},
            gs \in BOOLEAN, pb \in BOOLEAN, mu \in BOOLEAN, k \in BOOLEAN, u \in BOOLEAN }
Speeds == IF Big THEN {Zero, Dec("1e-10"), One, Rat(3,2)} ELSE {Zero, One, Rat(3,2)}
CanFail == {"grid", "g2p", "defo"}      \* contacts and plastic laws

Init == /\ c \in Conf /\ (c.unsound => c.ok)
        /\ run = "setup" /\ done = {} /\ t = Zero /\ frame = 0 /\ step = 0 /\ dt = Zero /\ g = c.g0
        /\ v = Zero /\ t0 = Zero /\ saved = <<>>
Refuse == run = "setup" /\ ~c.ok /\ run' = "refused" /\ UNCHANGED <<c, done, t, frame, step, dt, g, v, t0, saved>>
Begin  == run = "setup" /\ c.ok /\ run' = "going" /\ saved' = <<0>> /\ v' \in Speeds /\ UNCHANGED <<c, done, t, frame, step, dt, g, t0>>
May(st) == run = "going" /\ frame < c.endf /\ st \in Stages(c) /\ st \notin done /\ Before(c, st) \subseteq done
Stage(st) ==
  /\ May(st)
  /\ IF st = "dt" THEN dt' = DtRule(c, <<<<v, Zero>>>>, frame, t) /\ g' = Gravity(c, t) ELSE UNCHANGED <<dt, g>>
  /\ IF st = "pos" THEN v' \in Speeds ELSE UNCHANGED v
  /\ done' = done \cup {st}
  /\ UNCHANGED <<c, run, t, frame, step, t0, saved>>
Fail == /\ c.unsound /\ \E st \in CanFail : May(st)
        /\ run' = "failed" /\ UNCHANGED <<c, done, t, frame, step, dt, g, v, t0, saved>>
Tick == /\ run = "going" /\ frame < c.endf /\ Stages(c) \subseteq done
        /\ t' = t (+) dt /\ step' = step + 1 /\ t0' = t' /\ done' = {}
        /\ \E f \in FrameDone(c, frame, t (+) dt) :
             /\ frame' = IF f THEN frame + 1 ELSE frame
             /\ saved' = IF f THEN Append(saved, frame + 1) ELSE saved
        /\ UNCHANGED <<c, run, dt, g, v>>
End  == run = "going" /\ done = {} /\ frame = c.endf /\ run' = "ended" /\ UNCHANGED <<c, done, t, frame, step, dt, g, v, t0, saved>>
Next == Refuse \/ Begin \/ (\E st \in {"dt", "mesh", "ghosts", "p2g", "grid", "unghost", "g2p", "musl", "defo", "pos", "move"} : Stage(st)) \/ Fail \/ Tick \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties --
Over == run \in {"refused", "failed", "ended"}
FrameInStep == /\ frame <= c.endf
               /\ t \preceq (FrameDt(c) (.) Int2Num(frame + 1)) (+) Two (.) c.mindt
               /\ (FrameDt(c) (.) Int2Num(frame)) (-) Two (.) c.mindt \preceq t
EndOk == run = "ended" => frame = c.endf /\ done = {} /\ NAbs(t (-) FinalTime(c)) \preceq Two (.) c.mindt (+) Dec("1e-12")
StepBounds == "dt" \in done =>
   /\ c.mindt \preceq dt
   /\ dt \preceq NMax(c.mindt, (c.cfle (.) c.dx) (/) WaveSpeed(c))
   /\ dt (.) v \preceq NMax(c.mindt (.) v, c.cfl (.) c.dx) (+) Dec("1e-12") \/ "pos" \in done
   /\ t (+) dt \preceq (FrameDt(c) (.) Int2Num(frame + 1)) (+) c.mindt (+) Dec("1e-12")
GravityOk == "dt" \in done =>
   /\ NAbs(g[2]) \preceq NAbs(c.g0[2])
   /\ ~c.gspecial => g = c.g0
   /\ (c.gspecial /\ c.gtime \preceq t) => g = c.g0
   /\ (c.gspecial /\ t = Zero) => g = VZero(2)
FramesSaved == /\ run \in {"going", "failed", "ended"} => saved = [k \in 1..(frame + 1) |-> k - 1]
               /\ run \in {"setup", "refused"} => saved = <<>>
FailedStep == run = "failed" => t = t0                     \* an aborted step does not count
RefusedNothing == run = "refused" => ~c.ok /\ step = 0 /\ t = Zero
NoSilentRefusal == [][run = "setup" /\ run' # "setup" => (run' = "refused") = ~c.ok]_vars
OneFrameAtATime == [][frame' \in {frame, frame + 1} /\ (frame' # frame => step' = step + 1)]_vars
TimeMoves == [][step' = step + 1 => t \prec t']_vars
OnlyTicks == [][step' = step => t' = t /\ frame' = frame]_vars
Terminates == <>Over
=============================================================================
