---------------------------- MODULE LockProtocol ----------------------------
(* The lock-file protocol at the level of its system calls: creation under      *)
(* O_EXCL, an advisory lock on the file while it is filled in, examined or      *)
(* removed, a check that the file is still linked, recovery of files left by    *)
(* dead or interrupted processes.  A process may die between any two calls.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS P, MaxIno, MaxDead
VARIABLES path, owner, flk, pc, fd, alive, ino
vars == <<path, owner, flk, pc, fd, alive, ino>>
Dead == {p \in P : ~alive[p]}
Init == /\ path = 0 /\ owner = [i \in 1..MaxIno |-> 0] /\ flk = [i \in 1..MaxIno |-> 0]
        /\ pc = [p \in P |-> "idle"] /\ fd = [p \in P |-> 0] /\ alive = [p \in P |-> TRUE] /\ ino = 1
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Begin(p) == pc[p] = "idle" /\ Go(p, "create") /\ UNCHANGED <<path, owner, flk, fd, alive, ino>>
Create(p) == /\ pc[p] = "create"
             /\ IF path = 0
                THEN /\ ino <= MaxIno /\ path' = ino /\ ino' = ino + 1 /\ fd' = [fd EXCEPT ![p] = ino]
                     /\ owner' = [owner EXCEPT ![ino] = 0] /\ Go(p, "flockC")
                ELSE Go(p, "open") /\ UNCHANGED <<path, fd, ino, owner>>
             /\ UNCHANGED <<flk, alive>>
Open(p) == /\ pc[p] = "open"
           /\ IF path = 0 THEN Go(p, "create") /\ UNCHANGED fd ELSE fd' = [fd EXCEPT ![p] = path] /\ Go(p, "flockR")
           /\ UNCHANGED <<path, owner, flk, alive, ino>>
Flock(p, at, next) == /\ pc[p] = at /\ flk[fd[p]] = 0 /\ flk' = [flk EXCEPT ![fd[p]] = p] /\ Go(p, next)
                      /\ UNCHANGED <<path, owner, fd, alive, ino>>
\* is the file still the lock file?
Check(p, at, next) == /\ pc[p] = at /\ Go(p, IF path = fd[p] THEN next ELSE "closeN") /\ UNCHANGED <<path, owner, flk, fd, alive, ino>>
Write1(p) == pc[p] = "write1" /\ owner' = [owner EXCEPT ![fd[p]] = -1] /\ Go(p, "write2") /\ UNCHANGED <<path, flk, fd, alive, ino>>
Write2(p) == pc[p] = "write2" /\ owner' = [owner EXCEPT ![fd[p]] = p] /\ Go(p, "closeC") /\ UNCHANGED <<path, flk, fd, alive, ino>>
Close(p, at, next) == /\ pc[p] = at /\ flk' = [flk EXCEPT ![fd[p]] = 0] /\ fd' = [fd EXCEPT ![p] = 0] /\ Go(p, next)
                      /\ UNCHANGED <<path, owner, alive, ino>>
Read(p) == /\ pc[p] = "read"
           /\ Go(p, IF owner[fd[p]] \in {0, -1} \/ owner[fd[p]] \in Dead THEN "checkU" ELSE "closeW")
           /\ UNCHANGED <<path, owner, flk, fd, alive, ino>>
Unlink(p) == pc[p] = "unlink" /\ path' = 0 /\ Go(p, "closeN") /\ UNCHANGED <<owner, flk, fd, alive, ino>>
GiveUp(p) == pc[p] = "create" /\ Go(p, "idle") /\ UNCHANGED <<path, owner, flk, fd, alive, ino>>
Release(p) == pc[p] = "cs" /\ Go(p, "rel") /\ UNCHANGED <<path, owner, flk, fd, alive, ino>>
Remove(p) == pc[p] = "rel" /\ path' = 0 /\ Go(p, "idle") /\ UNCHANGED <<owner, flk, fd, alive, ino>>
Crash(p) == /\ alive[p] /\ Cardinality(Dead) < MaxDead /\ alive' = [alive EXCEPT ![p] = FALSE]
            /\ flk' = [i \in 1..MaxIno |-> IF flk[i] = p THEN 0 ELSE flk[i]] /\ UNCHANGED <<path, owner, pc, fd, ino>>
Step(p) == /\ alive[p]
           /\ \/ Create(p) \/ Open(p) \/ Flock(p, "flockC", "checkC") \/ Flock(p, "flockR", "checkR")
              \/ Check(p, "checkC", "write1") \/ Check(p, "checkR", "read") \/ Check(p, "checkU", "unlink") \/ Write1(p) \/ Write2(p)
              \/ Close(p, "closeC", "cs") \/ Close(p, "closeN", "create") \/ Close(p, "closeW", "create") \/ Read(p) \/ Unlink(p)
              \/ Release(p) \/ Remove(p)
Next == \E p \in P : Step(p) \/ (alive[p] /\ (Begin(p) \/ GiveUp(p))) \/ Crash(p)
Spec == Init /\ [][Next]_vars
Holders == {p \in P : alive[p] /\ pc[p] = "cs"}
Mutex == Cardinality(Holders) <= 1
\* the lock file of a holder is never taken away
Kept == \A p \in Holders : path # 0 /\ owner[path] = p
\* alone among the dead, whoever tries gets it: no state of the file blocks it
Alone(p) == alive[p] /\ \A q \in P \ {p} : ~alive[q] \/ pc[q] = "idle"
Blocked(p) == Alone(p) /\ pc[p] \in {"flockC", "flockR"} /\ flk[fd[p]] # 0
NotBlocked == \A p \in P : ~Blocked(p)
\* alone, it never waits for an owner: reading finds it dead or unfinished
NoWait == \A p \in P : Alone(p) => pc[p] # "closeW" \/ (owner[fd[p]] \in P /\ owner[fd[p]] # p)
Recovers == \A p \in P : (Alone(p) /\ pc[p] = "read" /\ path = fd[p]) => (owner[path] \in {0, -1} \cup Dead)
=============================================================================
