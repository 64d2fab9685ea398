------------------------------- MODULE History -------------------------------
(* A program: a sequence of calls of public operations, with arguments made  *)
(* afresh or used again, generators that some of the operations draw from,   *)
(* iterators that are advanced between other calls, and callers that write   *)
(* over results they were given.  What a call returns is a function of the   *)
(* operation, its arguments and the position of the generator; everything    *)
(* handed in or out before stays as it is.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Plain, Draws, Iters,  \* numbers of the operations: without random numbers, with, iterators
          Gens, Depth
VARIABLES objs,   \* everything handed in or out: [call, side, c] with content c
          pos,    \* generator -> how much was drawn from it
          its,    \* iterators: [op, at]
          log
vars == <<objs, pos, its, log>>
Ops == Plain \cup Draws
Init == objs = <<>> /\ pos = [g \in Gens |-> 0] /\ its = <<>> /\ log = <<>>
Rec(a, o, g, k) == log' = Append(log, [a |-> a, op |-> o, g |-> g, k |-> k, at |-> IF g \in Gens THEN pos[g] ELSE 0])
Calls == {k \in 1..Len(log) : log[k].a \in {"call", "again"}}
Dirty(k) == \E m \in 1..Len(log) : log[m].a = "scribble" /\ log[m].k = k
\* the call whose arguments call k used
RECURSIVE Origin(_)
Origin(k) == IF log[k].a = "again" THEN Origin(log[k].k) ELSE k
Family(k) == {m \in Calls : Origin(m) = Origin(k)}
Result(o, g) == <<"result", o, IF o \in Draws THEN g ELSE 0, IF o \in Draws THEN pos[g] ELSE 0>>
Step(o, g) == pos' = IF o \in Draws THEN [pos EXCEPT ![g] = @ + 1] ELSE pos
Call(o, g) == /\ objs' = objs \o << [call |-> Len(log) + 1, side |-> "args", c |-> <<"args", o>>],
                                    [call |-> Len(log) + 1, side |-> "result", c |-> Result(o, g)] >>
              /\ Step(o, g) /\ UNCHANGED its /\ Rec("call", o, g, 0)
\* the same argument objects once more
Again(k, g) == /\ k \in Calls /\ \A m \in Family(k) : ~Dirty(m)
               /\ objs' = Append(objs, [call |-> Len(log) + 1, side |-> "result", c |-> Result(log[k].op, g)])
               /\ Step(log[k].op, g) /\ UNCHANGED its /\ Rec("again", log[k].op, g, k)
\* the caller writes over the results of a call; they may share memory with the arguments of that call only
Scribble(k) == /\ k \in Calls /\ ~Dirty(k)
               /\ objs' = [i \in 1..Len(objs) |-> IF objs[i].call \in Family(k) \cup {k} THEN [objs[i] EXCEPT !.c = <<"written", Len(log)>>] ELSE objs[i]]
               /\ UNCHANGED <<pos, its>> /\ Rec("scribble", log[k].op, 0, k)
\* an iterator with a generator of its own
Open(o) == /\ its' = Append(its, [op |-> o, at |-> 0]) /\ UNCHANGED <<objs, pos>> /\ Rec("open", o, 0, Len(its) + 1)
Advance(i) == /\ its' = [its EXCEPT ![i].at = @ + 1]
              /\ objs' = Append(objs, [call |-> Len(log) + 1, side |-> "result", c |-> <<"item", its[i].op, its[i].at>>])
              /\ UNCHANGED pos /\ Rec("advance", its[i].op, 0, i)
Next == /\ Len(log) < Depth
        /\ \/ \E o \in Plain : Call(o, CHOOSE g \in Gens : TRUE)
           \/ \E o \in Draws, g \in Gens : Call(o, g)
           \/ \E k \in Calls, g \in Gens : (log[k].op \in Draws \/ g = CHOOSE h \in Gens : TRUE) /\ Again(k, g)
           \/ \E k \in Calls : Scribble(k)
           \/ \E o \in Iters : Open(o)
           \/ \E i \in 1..Len(its) : Advance(i)
Spec == Init /\ [][Next]_vars
\* two results of the same operation at the same place of the same generator are equal
Function == \A i, j \in 1..Len(objs) :
              objs[i].side = "result" /\ objs[j].side = "result" /\ objs[i].c[1] = "result" /\ objs[j].c[1] = "result"
              /\ log[objs[i].call].op = log[objs[j].call].op
              /\ (log[objs[i].call].op \in Plain \/ (log[objs[i].call].g = log[objs[j].call].g /\ log[objs[i].call].at = log[objs[j].call].at))
              => objs[i].c = objs[j].c
\* what was handed in or out only changes by the hand of its owner
Untouched == [][\A i \in 1..Len(objs) : objs'[i] # objs[i] => log'[Len(log')].a = "scribble"]_vars
\* only the generator given is drawn from, and only by operations that draw
OnlyGiven == [][\A g \in Gens : pos'[g] # pos[g] => log'[Len(log')].g = g /\ log'[Len(log')].op \in Draws]_vars
Emit == Len(log) = Depth => CSVWrite("%1$s", <<ToJson([log |-> log])>>, IOEnv.OUT)
=============================================================================
