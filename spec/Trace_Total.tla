---------------------------- MODULE Trace_Total ----------------------------
(***************************************************************************)
(* Totality: every recorded call returned with an event or an error, using *)
(* no more steps than the text allows, also after an error.                *)
(*                                                                         *)
(* The bounds are those of the specification: a token is at least one      *)
(* character, and a token gives at most one start and one end, or one      *)
(* other event (checked for the specification itself by MC_Total).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

MaxEvents(n) == 2 * n + 2
MaxPulls(n) == n + 1

VARIABLES ci, ei, verdict
vars == <<ci, ei, verdict>>

Case == Cases[ci]
Fatal == "fatal" \in DOMAIN Case
Calls == Case.evs \o Case.post
N == Len(Case.text)

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ei = 1
    /\ verdict = "run"

Complain(why) == PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why, event |-> ei]))
Judge(why) == IF why = "" THEN verdict' = "run" ELSE Complain(why) /\ verdict' = "bad"

Returns == {"sd", "ed", "se", "ee", "ct", "cm", "pi", "er"}

Call ==
    /\ verdict = "run" /\ ~Fatal /\ ei <= Len(Calls)
    /\ Judge(IF Calls[ei].k \notin Returns THEN Calls[ei].k
             ELSE IF Calls[ei].pl > MaxPulls(N) THEN "steps"
             ELSE "")
    /\ ei' = ei + 1
    /\ UNCHANGED ci

Finish ==
    /\ verdict = "run" /\ ~Fatal /\ ei > Len(Calls)
    /\ IF Case.over # 0 \/ Len(Case.evs) > MaxEvents(N)
       THEN Complain("too many events") /\ verdict' = "bad"
       ELSE verdict' = "ok"
    /\ UNCHANGED <<ci, ei>>

Crashed ==
    /\ verdict = "run" /\ Fatal
    /\ Complain(Case.fatal)
    /\ verdict' = "bad"
    /\ UNCHANGED <<ci, ei>>

Done == verdict # "run" /\ UNCHANGED vars

Next == Call \/ Finish \/ Crashed \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
