-------------------------------- MODULE Same --------------------------------
(***************************************************************************)
(* Pairs of recorded executions of the same scenario with both builds of   *)
(* the library: at every step both show the same.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

\* {"id": .., "a": [events with tokio], "b": [events with async-std]}
Pairs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, bad
vars == <<t, i, bad>>
Init == t \in 1..Len(Pairs) /\ i = 1 /\ bad = ""
Next == /\ i <= Len(Pairs[t].a) \/ i <= Len(Pairs[t].b)
        /\ bad' = IF i > Len(Pairs[t].a) \/ i > Len(Pairs[t].b) THEN "one of them shows more"
                  ELSE IF Pairs[t].a[i] /= Pairs[t].b[i] THEN "they differ" ELSE ""
        /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Position == <<t, i>>
NoViolation == bad = ""
=============================================================================
