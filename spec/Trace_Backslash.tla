-------------------------- MODULE Trace_Backslash --------------------------
(***************************************************************************)
(* Recorded decodings of backslash escapes.                                *)
(***************************************************************************)
EXTENDS Backslash, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, verdict
vars == <<ci, verdict>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ verdict = "run"

Complain(why) == PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why])) /\ verdict' = "bad"

Judge ==
    IF "fatal" \in DOMAIN Case THEN Complain(Case.fatal)
    ELSE LET x == Decode(Case.text) IN
         IF x.ok
         THEN IF Case.k = "ok" /\ Case.r = x.r THEN verdict' = "ok" ELSE Complain("decoded text")
         ELSE IF Case.k = "refused" THEN verdict' = "ok" ELSE Complain("not refused")

Next == \/ verdict = "run" /\ Judge /\ UNCHANGED ci
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
