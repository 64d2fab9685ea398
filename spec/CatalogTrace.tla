---------------------------- MODULE CatalogTrace ----------------------------
(* Catalogues recorded from the library: "start" names the survey, "shell"  *)
(* the next matter map, "rows" holds one batch (population, pixel, shell of *)
(* the redshift, pixel and shell whose lensing the galaxy carries; -1 where *)
(* it has none), "file" what the catalogue on disk holds, as row numbers.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, CSV, IOUtils, TLC
CONSTANTS NPix
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, sh, n, got
tvars == <<l, st, sh, n, got>>
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
Zero(P) == [p \in 1..P |-> [q \in 1..NPix |-> 0]]
Class(e, q) == ((q - 1) % Len(e.vis)) + 1
Count(e, d, p, q) == (e.rate[p] * (1 + d[Class(e, q)]) * e.vis[Class(e, q)]) \div 2
\* all galaxies of the shell that ends here
Missing(e) == IF sh = 0 THEN {} ELSE
  {x \in {"every galaxy of the shell is in the catalogue"} :
     \E p \in 1..Len(e.rate), q \in 1..NPix : got[p][q] # Count(e, e.ds[sh], p, q)}
TraceInit == l = 1 /\ st = 1 /\ sh = 0 /\ n = 0 /\ got = <<>>
Start(e) == st' = l /\ sh' = 0 /\ n' = 0 /\ got' = Zero(Len(e.rate))
Shell == Report(Missing(Trace[st])) /\ sh' = sh + 1 /\ got' = Zero(Len(Trace[st].rate)) /\ UNCHANGED <<st, n>>
Rows(e) ==
  LET S == Trace[st] I == 1..Len(e.rows) r == e.rows
      bad == {x \in {"galaxies lie in pixels that hold some"} :
                \E i \in I : Count(S, S.ds[sh], r[i].p, r[i].q) = 0}
             \cup {x \in {"redshifts lie in the shell of the galaxies"} : \E i \in I : r[i].z # sh}
             \cup {x \in {"galaxies are sheared by their own pixel and shell"} : \E i \in I : r[i].s # sh \/ r[i].x # r[i].q}
             \cup {x \in {"a batch is no larger than asked for"} : Len(r) > S.batch}
  IN  /\ Report(bad) /\ n' = n + Len(r)
      /\ got' = [p \in 1..Len(S.rate) |-> [q \in 1..NPix |-> got[p][q] + Cardinality({i \in I : r[i].p = p /\ r[i].q = q})]]
      /\ UNCHANGED <<st, sh>>
File(e) == /\ Report(Missing(Trace[st]) \cup {x \in {"the file holds every galaxy, in order"} : e.ids # [i \in 1..n |-> i]}
                     \cup {x \in {"all shells"} : sh # Len(Trace[st].ds)})
           /\ UNCHANGED <<st, sh, n, got>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN CASE e.ev = "start" -> Start(e) [] e.ev = "shell" -> Shell [] e.ev = "rows" -> Rows(e) [] OTHER -> File(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
