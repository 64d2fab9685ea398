----------------------------- MODULE RngThreads -----------------------------
(* Threads using one generator: every operation reads the current key and   *)
(* replaces it.  With the lock, reading and replacing are one step of the   *)
(* others' view; without it (Locked = FALSE) all interleavings are          *)
(* generated, as schedules for the implementation.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Threads, Ops,   \* Ops: operations per thread
          Locked
VARIABLES key, lock, pc, left, mine, got, sched
vars == <<key, lock, pc, left, mine, got, sched>>
Init == /\ key = 0 /\ lock = 0 /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Ops]
        /\ mine = [t \in Threads |-> 0] /\ got = <<>> /\ sched = <<>>
Go(t) == sched' = Append(sched, t)
Acquire(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ (Locked => lock = 0)
              /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "held"] /\ Go(t) /\ UNCHANGED <<key, left, mine, got>>
Read(t) == /\ pc[t] = "held" /\ mine' = [mine EXCEPT ![t] = key] /\ pc' = [pc EXCEPT ![t] = "read"]
           /\ Go(t) /\ UNCHANGED <<key, lock, left, got>>
Write(t) == /\ pc[t] = "read" /\ key' = mine[t] + 1 /\ got' = Append(got, <<t, mine[t]>>)
            /\ pc' = [pc EXCEPT ![t] = "wrote"] /\ Go(t) /\ UNCHANGED <<lock, left, mine>>
Release(t) == /\ pc[t] = "wrote" /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ left' = [left EXCEPT ![t] = @ - 1]
              /\ Go(t) /\ UNCHANGED <<key, mine, got>>
Next == \E t \in Threads : Acquire(t) \/ Read(t) \/ Write(t) \/ Release(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fresh == Locked => \A i, j \in 1..Len(got) : i # j => got[i][2] # got[j][2]
\* the order of operations is the order of keys
Sequential == Locked => \A i \in 1..Len(got) : got[i][2] = i - 1
Exclusive == Locked => Cardinality({t \in Threads : pc[t] # "idle"}) <= 1
Ends == Locked => <>(\A t \in Threads : left[t] = 0)
Finished == \A t \in Threads : left[t] = 0
Races == \E i, j \in 1..Len(got) : i # j /\ got[i][2] = got[j][2]
Emit == (Finished /\ ~Locked) => CSVWrite("%1$s", <<ToJson([sched |-> sched, race |-> Races])>>, IOEnv.OUT)
=============================================================================
