------------------------------- MODULE Frames -------------------------------
(* A visibility map and the coordinate frame it is in while stripes are     *)
(* blocked and the map is rotated (G galactic, C celestial, E ecliptic).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Program  \* sequence of [op, arg]: block a stripe, or rotate to a frame
VARIABLES frame, pc, blocked
vars == <<frame, pc, blocked>>
Init == frame = "G" /\ pc = 1 /\ blocked = <<>>
Block == /\ pc <= Len(Program) /\ Program[pc].op = "block"
         /\ blocked' = Append(blocked, [stripe |-> Program[pc].arg, frame |-> frame]) /\ pc' = pc + 1 /\ UNCHANGED frame
Rotate == /\ pc <= Len(Program) /\ Program[pc].op = "rotate"
          /\ frame' = Program[pc].arg /\ pc' = pc + 1 /\ UNCHANGED blocked
Next == Block \/ Rotate
Spec == Init /\ [][Next]_vars
Done == pc > Len(Program)
Own(s) == IF s = "galactic" THEN "G" ELSE "E"
\* stripes are blocked in the frame they are given in
Respective(s) == \A k \in 1..Len(blocked) : blocked[k].stripe = s => blocked[k].frame = Own(s)
GalacticRight == Respective("galactic")
BothBlocked == Done => {blocked[k].stripe : k \in 1..Len(blocked)} = {"galactic", "ecliptic"}
Emit == Done => CSVWrite("%1$s", <<ToJson([frame |-> frame, blocked |-> blocked, right |-> Respective("galactic") /\ Respective("ecliptic")])>>, IOEnv.OUT)
=============================================================================
