------------------------------- MODULE AlignMC -------------------------------
(* The detailed model refines the unbounded one. *)
EXTENDS MCDefs

\* The kind of a unit on its way.
UnitOf(u) == IF u.k = "content" THEN "content"
             ELSE IF u.k = "sasl" THEN (IF u.s = "*\r\n" THEN "abort" ELSE "sasl")
             ELSE CASE Class5(u) = "data" -> "data" [] Class5(u) = "auth" -> "auth" [] OTHER -> "cmd"
A == INSTANCE Align WITH
       Drain <- TRUE, Poison <- TRUE, GiveUp <- TRUE,
       st <- IF c.st \in {"w", "r", "ret"} THEN "run" ELSE c.st,
       bad <- c.bad,
       expect <- IF c.bad THEN 0 ELSE IF c.st = "r" /\ c.stage /= "group" THEN 1 ELSE c.owed,
       unans <- Len(chan),
       reps <- Len(rq) + Len(sv.pend),
       kind <- IF chan = <<>> THEN "none" ELSE UnitOf(chan[Len(chan)]),
       mode <- IF sv.mode = "dead" THEN "cmd" ELSE sv.mode,
       phase <- IF c.st /= "w" \/ c.bad THEN "cmd" ELSE CASE c.stage = "content" -> "data" [] c.stage \in {"sasl", "cancel"} -> "sasl" [] OTHER -> "cmd",
       refused <- c.err.k /= "none"
Refines == A!Spec
AlignInv == A!Inv
=============================================================================
