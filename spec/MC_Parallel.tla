----------------------------- MODULE MC_Parallel -----------------------------
(***************************************************************************)
(* Exhaustive: one step on several threads, one memory access per action.  *)
(* The threads share the particles of each loop in any way; they           *)
(*   copy    append periodic copies of particles to the shared list        *)
(*           (several fields, one after the other, under a lock),          *)
(*   scatter add what particles give to nodes into lists of their own,     *)
(*           then merge those into the shared grid under the lock,         *)
(*   norm    divide each node (one thread per node),                       *)
(*   gather  read the nodes, write their own particles, count in private   *)
(*           and add the counts at the end.                                *)
(* A thread starts the next loop when all have finished the one before.    *)
(* In every interleaving the results are those of one thread, and no two   *)
(* threads can touch the same memory at once with one of them writing.     *)
(* With Locked = FALSE (MC_Parallel.unlocked.cfg) the invariants fail:     *)
(* they are not vacuous.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Big, Locked

Threads == IF Big THEN 1..3 ELSE 1..2
Parts   == IF Big THEN 1..3 ELSE 1..3
Nodes   == 1..2
Gives(p, i) == IF i = 1 THEN 4^(p-1) ELSE IF p = 2 THEN 0 ELSE 2 * 4^(p-1)
Copied  == {1, 3}                   \* particles near the edge of the cell
Image(p) == p + 10
Loops   == <<"copy", "scatter", "norm", "gather", "done">>

VARIABLES loop,     \* position in Loops, per thread
          todo,     \* iterations left of each loop
          pc,       \* what each thread is doing: [at, i, k, t]
          local,    \* each thread's own node sums
          lock, xs, vs,           \* lock; two fields of the list of particles with copies
          grid, out, count, mine
vars == <<loop, todo, pc, local, lock, xs, vs, grid, out, count, mine>>

Idle == [at |-> "pick", i |-> 0, k |-> 0, t |-> 0]
Init == /\ loop = [t \in Threads |-> 1]
        /\ todo = [l \in 1..4 |-> IF l = 3 THEN Nodes ELSE IF l = 1 THEN Parts ELSE Parts]
        /\ pc = [t \in Threads |-> Idle] /\ local = [t \in Threads |-> [n \in Nodes |-> 0]]
        /\ lock = 0 /\ xs = <<1, 2, 3>> /\ vs = <<1, 2, 3>> /\ grid = [n \in Nodes |-> 0] /\ out = [p \in Parts |-> 0] /\ count = 0
        /\ mine = [t \in Threads |-> 0]

At(t, l) == loop[t] = l
Go(t, at, i, k, v) == pc' = [pc EXCEPT ![t] = [at |-> at, i |-> i, k |-> k, t |-> v]]
Take(t) == ~Locked \/ lock = 0
Held(t) == lock' = IF Locked THEN t ELSE 0
Free    == lock' = 0

\* take any iteration that is left
Pick(t) == /\ pc[t].at = "pick" /\ loop[t] <= 4 /\ todo[loop[t]] # {}
           /\ \E i \in todo[loop[t]] : /\ todo' = [todo EXCEPT ![loop[t]] = @ \ {i}]
                                       /\ Go(t, CASE At(t,1) -> IF i \in Copied THEN "lockx" ELSE "pick" [] At(t,2) -> "give" [] At(t,3) -> "read" [] OTHER -> "look", i, 1, 0)
           /\ UNCHANGED <<loop, local, lock, xs, vs, grid, out, count, mine>>
\* nothing left: finish the loop (merge what is one's own), then wait
Leave(t) == /\ pc[t].at = "pick" /\ loop[t] <= 4 /\ todo[loop[t]] = {}
            /\ Go(t, CASE At(t,2) -> "lockg" [] At(t,4) -> "lockc" [] OTHER -> "wait", 0, 1, 0)
            /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, out, count, mine>>
Barrier == /\ \A t \in Threads : pc[t].at = "wait"
           /\ loop' = [t \in Threads |-> loop[t] + 1] /\ pc' = [t \in Threads |-> Idle]
           /\ UNCHANGED <<todo, local, lock, xs, vs, grid, out, count, mine>>

\* copy: x, then v, under the lock; an append reads the length and then writes
CopyLock(t) == pc[t].at = "lockx" /\ Take(t) /\ Held(t) /\ Go(t, "rx", pc[t].i, 0, 0) /\ UNCHANGED <<loop, todo, local, xs, vs, grid, out, count, mine>>
ReadX(t)  == pc[t].at = "rx" /\ Go(t, "wx", pc[t].i, 0, Len(xs)) /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, out, count, mine>>
WriteX(t) == pc[t].at = "wx" /\ xs' = SubSeq(xs, 1, pc[t].t) \o <<Image(pc[t].i)>> /\ Go(t, "rv", pc[t].i, 0, 0) /\ UNCHANGED <<loop, todo, local, lock, vs, grid, out, count, mine>>
ReadV(t)  == pc[t].at = "rv" /\ Go(t, "wv", pc[t].i, 0, Len(vs)) /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, out, count, mine>>
WriteV(t) == pc[t].at = "wv" /\ vs' = SubSeq(vs, 1, pc[t].t) \o <<Image(pc[t].i)>> /\ Free /\ Go(t, "pick", 0, 0, 0) /\ UNCHANGED <<loop, todo, local, xs, grid, out, count, mine>>

\* scatter: own sums, node by node; then merge
Give(t) == /\ pc[t].at = "give" /\ local' = [local EXCEPT ![t][pc[t].k] = @ + Gives(pc[t].i, pc[t].k)]
           /\ (IF pc[t].k < Cardinality(Nodes) THEN Go(t, "give", pc[t].i, pc[t].k + 1, 0) ELSE Go(t, "pick", 0, 0, 0))
           /\ UNCHANGED <<loop, todo, lock, xs, vs, grid, out, count, mine>>
GridLock(t) == pc[t].at = "lockg" /\ Take(t) /\ Held(t) /\ Go(t, "rg", 0, 1, 0) /\ UNCHANGED <<loop, todo, local, xs, vs, grid, out, count, mine>>
ReadG(t)  == pc[t].at = "rg" /\ Go(t, "wg", 0, pc[t].k, grid[pc[t].k]) /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, out, count, mine>>
WriteG(t) == /\ pc[t].at = "wg" /\ grid' = [grid EXCEPT ![pc[t].k] = pc[t].t + local[t][pc[t].k]]
             /\ (IF pc[t].k < Cardinality(Nodes) THEN Go(t, "rg", 0, pc[t].k + 1, 0) /\ UNCHANGED lock ELSE Go(t, "wait", 0, 0, 0) /\ Free)
             /\ UNCHANGED <<loop, todo, local, xs, vs, out, count, mine>>

\* norm: each node once
NormR(t) == pc[t].at = "read" /\ Go(t, "writ", pc[t].i, 0, grid[pc[t].i]) /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, out, count, mine>>
NormW(t) == pc[t].at = "writ" /\ grid' = [grid EXCEPT ![pc[t].i] = 100 * pc[t].t] /\ Go(t, "pick", 0, 0, 0) /\ UNCHANGED <<loop, todo, local, lock, xs, vs, out, count, mine>>

\* gather: nodes to particle, private count, summed at the end
Look(t) == /\ pc[t].at = "look"
           /\ (IF pc[t].k <= Cardinality(Nodes) THEN Go(t, "look", pc[t].i, pc[t].k + 1, pc[t].t + pc[t].i * grid[pc[t].k]) /\ UNCHANGED <<out, mine>>
               ELSE out' = [out EXCEPT ![pc[t].i] = pc[t].t] /\ mine' = [mine EXCEPT ![t] = @ + 1] /\ Go(t, "pick", 0, 0, 0))
           /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, count>>
CountLock(t) == pc[t].at = "lockc" /\ Take(t) /\ Held(t) /\ Go(t, "rc", 0, 0, 0) /\ UNCHANGED <<loop, todo, local, xs, vs, grid, out, count, mine>>
ReadC(t)  == pc[t].at = "rc" /\ Go(t, "wc", 0, 0, count) /\ UNCHANGED <<loop, todo, local, lock, xs, vs, grid, out, count, mine>>
WriteC(t) == pc[t].at = "wc" /\ count' = pc[t].t + mine[t] /\ Free /\ Go(t, "wait", 0, 0, 0) /\ UNCHANGED <<loop, todo, local, xs, vs, grid, out, mine>>

Thread(t) == \/ Pick(t) \/ Leave(t) \/ CopyLock(t) \/ ReadX(t) \/ WriteX(t) \/ ReadV(t) \/ WriteV(t) \/ Give(t) \/ GridLock(t) \/ ReadG(t) \/ WriteG(t)
             \/ NormR(t) \/ NormW(t) \/ Look(t) \/ CountLock(t) \/ ReadC(t) \/ WriteC(t)
Next == (\E t \in Threads : Thread(t)) \/ Barrier
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what each thread is about to touch ------------------------------------
Reads(t)  == CASE pc[t].at = "rx" -> {"xs"} [] pc[t].at = "rv" -> {"vs"} [] pc[t].at = "rg" -> {<<"g", pc[t].k>>} [] pc[t].at = "read" -> {<<"g", pc[t].i>>}
               [] pc[t].at = "look" /\ pc[t].k <= Cardinality(Nodes) -> {<<"g", pc[t].k>>} [] pc[t].at = "rc" -> {"count"} [] OTHER -> {}
Writes(t) == CASE pc[t].at = "wx" -> {"xs"} [] pc[t].at = "wv" -> {"vs"} [] pc[t].at = "wg" -> {<<"g", pc[t].k>>} [] pc[t].at = "writ" -> {<<"g", pc[t].i>>}
               [] pc[t].at = "look" /\ pc[t].k > Cardinality(Nodes) -> {<<"out", pc[t].i>>} [] pc[t].at = "wc" -> {"count"} [] OTHER -> {}
Touch(t) == {ToString(a) : a \in Reads(t) \cup Writes(t)}
NoRace == \A t, u \in Threads : t # u => /\ {ToString(a) : a \in Writes(t)} \cap Touch(u) = {}
RECURSIVE SumTo(_, _)
SumTo(f(_), S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f(i) + SumTo(f, S \ {i})
Node1(i) == SumTo(LAMBDA p : Gives(p, i), Parts)
Finished(l) == \A t \in Threads : loop[t] > l
InStep  == Len(xs) >= Cardinality(Parts) /\ (Finished(1) => xs = vs)
Copies  == Finished(1) => /\ SubSeq(xs, 1, 3) = <<1, 2, 3>> /\ Len(xs) = 3 + Cardinality(Copied)
                          /\ {xs[k] : k \in 4..Len(xs)} = {Image(p) : p \in Copied}
Merged  == (Finished(2) /\ ~Finished(3) /\ todo[3] = Nodes) => \A i \in Nodes : grid[i] = Node1(i)
Normed  == Finished(3) => \A i \in Nodes : grid[i] = 100 * Node1(i)
Results == Finished(4) => /\ \A p \in Parts : out[p] = 100 * p * SumTo(Node1, Nodes)
                          /\ count = Cardinality(Parts)
Ends == <>Finished(4)
=============================================================================
