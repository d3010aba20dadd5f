--------------------------- MODULE CheckpointStore --------------------------
(***************************************************************************)
(* Checkpointing of a time dependent run.  A version <<run, step>> stands   *)
(* for all data of a run at a time step (the time and the step count        *)
(* included).  A run may end at any moment (also during an update), be      *)
(* stopped by request, restarted from what is stored, or replaced by a new  *)
(* run that uses the same file.  Storing a version takes several steps; the *)
(* disk passes through all of Protocol's states and may be left in any.     *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, STEPS, DRAWN      \* DRAWN = FALSE: all histories of at most STEPS steps

VARIABLES rng, cfg, disk, mem, done, prev, busy, hist
vars == <<rng, cfg, disk, mem, done, prev, busy, hist>>
None == <<0, 0>>
Torn == <<-1, 0>>
Dead == <<-2, 0>>
S == Len(hist)
Log(r) == hist' = Append(hist, r)

(* ---- the disk during an update ------------------------------------------ *)
Protocol(d, v) ==
  LET a == [d EXCEPT !.tmp = Torn]
      b == [a EXCEPT !.tmp = v]
      c == [b EXCEPT !.old = IF d.chk = None THEN @ ELSE Torn]
      e == [b EXCEPT !.old = IF d.chk = None THEN @ ELSE d.chk]
  IN <<d, a, b, c, e, [e EXCEPT !.chk = v, !.tmp = None]>>
Complete(f) == f[1] > 0
Stored(d) == {f \in {d.chk, d.old} : Complete(f)}
Recovered(d) == IF Complete(d.chk) THEN d.chk ELSE IF Complete(d.old) THEN d.old ELSE None
Final(d, v) == LET p == Protocol(d, v) IN p[Len(p)]
Left(d, v) == {Protocol(d, v)[i] : i \in 1..Len(Protocol(d, v))}

(* ---- the data of a run --------------------------------------------------- *)
Fams == <<"C", "L", "C", "L", "U">>
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
DrawAxes(r) ==
  LET d == RndSet(r, "dim", DIMS)
      nb == RndIn(r, "nb", 0, 2)
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      fs == {i \in 1..d : i \notin bounded}
      rax == IF RndIn(r, "real", 0, 2) > 0 /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
  IN [i \in 1..d |-> DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, <<"fam", i>>, Fams) ELSE IF i = rax THEN "R" ELSE "F", {"none", "D"}, 4, 8)]
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
DrawCfg(r) ==
  LET ax == DrawAxes(r) IN
  [axes |-> ax, perm |-> DrawPerm(r, ax), cplx |-> (RAx(ax) = {} /\ \E i \in 1..Len(ax) : IsF(ax[i])),
   procs |-> SetToSeq(Procs(ax, DrawPerm(r, ax), FALSE)),
   every |-> RndIn(r, "every", 1, 5), levels |-> RndIn(r, "levels", 1, 3), dt |-> RndIn(r, "dt", 1, 1000),
   groups |-> [j \in 1..RndIn(r, "ng", 1, 3) |-> [kind |-> RndSeq(r, <<"kind", j>>, <<"scalar", "vector", "mixed", "tensor">>)]]]

Init == /\ rng \in SEEDS
        /\ cfg = IF DRAWN THEN DrawCfg(rng) ELSE [every |-> rng]
        /\ disk = [chk |-> None, old |-> None, tmp |-> None]
        /\ mem = <<1, 0>> /\ done = None /\ prev = None /\ busy = None /\ hist = <<>>

(* ---- transitions --------------------------------------------------------- *)
Due(v) == v[2] % cfg.every = 0
Succ(v) == <<v[1], v[2] + 1>>
(* the next checkpoint of a run restarted from what is left on disk d; a run with nothing to restart from starts anew *)
NextDue(L) == <<L[1], (L[2] \div cfg.every + 1) * cfg.every>>
Branch(L) == [from |-> L, next |-> NextDue(L)]
(* one time step and the update that follows it, with or without a request to stop *)
Step(kill, snap) ==
  LET v == Succ(mem) IN
  IF Due(v) \/ kill
  THEN /\ disk' = Final(disk, v)
       /\ done' = v /\ prev' = disk.chk /\ busy' = None
       /\ mem' = IF kill THEN Dead ELSE v
       /\ Log([op |-> "update", v |-> v, kill |-> kill, stored |-> TRUE, chk |-> disk'.chk, old |-> disk'.old, snap |-> snap,
               may |-> SetToSeq({Recovered(d) : d \in Left(disk, v)}),
               branch |-> [i \in 1..Cardinality({Recovered(d) : d \in Left(disk, v)}) |-> Branch(SetToSeq({Recovered(d) : d \in Left(disk, v)})[i])],
               at |-> [i \in 1..3 |-> RndIn(rng, <<"at", S, i>>, 0, 999)]])
  ELSE /\ mem' = v /\ UNCHANGED <<disk, done, prev, busy>>
       /\ Log([op |-> "update", v |-> v, kill |-> FALSE, stored |-> FALSE, chk |-> disk.chk, old |-> disk.old, snap |-> FALSE])
(* the process dies while the update is under way *)
Crash == /\ \E d \in Left(disk, Succ(mem)) : disk' = d
         /\ Due(Succ(mem)) /\ mem' = Dead /\ busy' = Succ(mem)
         /\ Log([op |-> "crash"]) /\ UNCHANGED <<done, prev>>
Die == mem' = Dead /\ Log([op |-> "die"]) /\ UNCHANGED <<disk, done, prev, busy>>
Restart == /\ Recovered(disk) # None
           /\ mem' = Recovered(disk) /\ Log([op |-> "restart", v |-> mem']) /\ UNCHANGED <<disk, prev>>
           /\ done' = mem' /\ busy' = None   \* what was being written when the process died either is what is stored or is lost
Anew(n) == mem' = <<n, 0>> /\ Log([op |-> "anew", v |-> mem'])
           /\ done' = Recovered(disk) /\ busy' = None /\ UNCHANGED <<disk, prev>>
Runs == {hist[i].v[1] : i \in {j \in 2..S : hist[j].op = "anew"}} \cup {1}
NewRun == Max(Runs) + 1

Drawn == LET o == RndSeq(rng, <<"op", S>>, <<"step", "step", "step", "step", "step", "step", "step", "step", "stop", "die", "anew">>)
             p == RndSeq(rng, <<"re", S>>, <<"restart", "restart", "restart", "anew">>) IN
         /\ IF mem = Dead THEN (IF p = "restart" /\ Recovered(disk) # None THEN Restart ELSE Anew(NewRun))
            ELSE CASE o = "step" -> Step(FALSE, RndIn(rng, <<"snap", S>>, 0, 2) = 0)
                   [] o = "stop" -> Step(TRUE, RndIn(rng, <<"snap", S>>, 0, 2) = 0)
                   [] o = "die" -> Die
                   [] OTHER -> Anew(NewRun)      \* a new object in the same program
All == \/ mem # Dead /\ (\E k \in BOOLEAN : Step(k, FALSE))
       \/ mem # Dead /\ Crash
       \/ mem # Dead /\ Die
       \/ mem = Dead /\ (Restart \/ (Cardinality(Runs) < 3 /\ Anew(NewRun)))
Next == /\ UNCHANGED <<rng, cfg>>
        /\ \/ S = 0 /\ Log(cfg) /\ UNCHANGED <<disk, mem, done, prev, busy>>
           \/ S > 0 /\ S <= STEPS /\ IF DRAWN THEN Drawn ELSE All
Spec == Init /\ [][Next]_vars

(* ---- properties ----------------------------------------------------------- *)
(* once a checkpoint has been completed, a complete one is stored: the last one, or the one being written when the process died *)
Recoverable == done # None => Stored(disk) # {} /\ Recovered(disk) \in {done, busy}
(* while nothing crashed, the current checkpoint is the last one due or asked for, computed from the history *)
Updates == {i \in 2..S : hist[i].op = "update" /\ (hist[i].kill \/ Due(hist[i].v))}
Crashed == \E i \in 2..S : hist[i].op = "crash"
Latest(n) == IF Cardinality(Updates) < n THEN None ELSE hist[CHOOSE i \in Updates : Cardinality({j \in Updates : j >= i}) = n].v
Exact == (S > 0 /\ ~Crashed) => disk.chk = Latest(1) /\ disk.old = Latest(2) /\ disk.tmp = None
(* steps that are not checkpoint steps, restarts and new runs leave the disk as it was *)
Quiet == [][LET g == hist'[S'] IN (S > 0 /\ ~(g.op = "crash" \/ (g.op = "update" /\ g.stored))) => disk' = disk]_vars
(* the previous checkpoint survives an update as a copy *)
Survives == [][LET g == hist'[S'] IN (S > 0 /\ g.op = "update" /\ g.stored /\ disk.chk # None) => disk'.old = disk.chk]_vars
(* a restarted run never goes on from a step it has not stored, and loses less than one interval (and what it was asked to store, nothing) *)
Resumes == [][LET g == hist'[S'] IN (S > 0 /\ g.op = "restart") => mem' \in {done, busy}]_vars
Emit == (DRAWN /\ S = STEPS + 1) => PrintT(ToJson([steps |-> hist]))
=============================================================================
