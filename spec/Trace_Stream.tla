---------------------------- MODULE Trace_Stream ----------------------------
(***************************************************************************)
(* Recorded events, and calls after the end, followed by the monitor of    *)
(* Stream.  Nothing is assumed about how the text was read.                *)
(***************************************************************************)
EXTENDS Stream, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, ei, mon, verdict
vars == <<ci, ei, mon, verdict>>

Case == Cases[ci]
Fatal == "fatal" \in DOMAIN Case
Log == Case.evs \o Case.post

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ei = 1
    /\ mon = StreamInit
    /\ verdict = "run"

Complain(why) == PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why, event |-> ei]))

Event ==
    /\ verdict = "run" /\ ~Fatal /\ ei <= Len(Log)
    /\ mon' = Follow(mon, Log[ei])
    /\ IF mon'.why # "" THEN Complain(mon'.why) /\ verdict' = "bad" ELSE verdict' = "run"
    /\ mon'.dev # "" => PrintT("DEV " \o ToJson([id |-> Case.id, class |-> mon'.dev]))
    /\ ei' = ei + 1
    /\ UNCHANGED ci

\* Nothing is missing at the end: it was the end of the document or an error
Finish ==
    /\ verdict = "run" /\ ~Fatal /\ ei > Len(Log)
    /\ IF mon.ph \in {"ended", "error"} THEN verdict' = "ok"
       ELSE Complain("the events stop before the end") /\ verdict' = "bad"
    /\ UNCHANGED <<ci, ei, mon>>

Crashed ==
    /\ verdict = "run" /\ Fatal
    /\ Complain(Case.fatal)
    /\ verdict' = "bad"
    /\ UNCHANGED <<ci, ei, mon>>

Done == verdict # "run" /\ UNCHANGED vars

Next == Event \/ Finish \/ Crashed \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
