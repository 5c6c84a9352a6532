----------------------------- MODULE Trace_Same -----------------------------
(***************************************************************************)
(* Reading is a function of the text.                                      *)
(*                                                                         *)
(* Each case holds several readings of one text: with other position       *)
(* types, lexers and name tables, and repeated.  The first reading is      *)
(* learned as the answer for the text; every other must give it again, as  *)
(* far as its position type can tell.  None may write anything to the      *)
(* standard streams.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, ri, ei, verdict
vars == <<ci, ri, ei, verdict>>

Case == Cases[ci]
Runs == Case.runs
First == Runs[1]
Run == Runs[ri]
Fatal(r) == "fatal" \in DOMAIN r

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ri = 1
    /\ ei = 1
    /\ verdict = "run"

Complain(why) ==
    PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why, run |-> ri, event |-> ei]))
Fail(why) == Complain(why) /\ verdict' = "bad" /\ UNCHANGED <<ri, ei>>

Lines(r) == r.cfg \notin {"us", "sb"}
Offsets(sp) == <<sp[1], sp[4]>>

\* Everything but how the input was fetched
Same(a, b) ==
    /\ (DOMAIN a) = (DOMAIN b)
    /\ \A f \in (DOMAIN a) \ {"pl", "pe", "sp"} : a[f] = b[f]
    /\ "sp" \in DOMAIN a =>
          IF Lines(First) /\ Lines(Run) THEN a.sp = b.sp ELSE Offsets(a.sp) = Offsets(b.sp)

Compare ==
    /\ verdict = "run" /\ ri <= Len(Runs)
    /\ IF Fatal(First) \/ Fatal(Run)
       THEN IF Fatal(First) /\ Fatal(Run)
            THEN ri' = ri + 1 /\ ei' = 1 /\ verdict' = "run"
            ELSE Fail("one reading crashes and another does not")
       ELSE IF Run.nz # 0 THEN Fail("output")
       ELSE IF Len(Run.evs) # Len(First.evs) THEN Fail("number of events")
       ELSE IF ei > Len(Run.evs)
       THEN ri' = ri + 1 /\ ei' = 1 /\ verdict' = "run"
       ELSE IF ~Same(First.evs[ei], Run.evs[ei]) THEN Fail("event")
       ELSE ei' = ei + 1 /\ UNCHANGED <<ri, verdict>>
    /\ UNCHANGED ci

Finish ==
    /\ verdict = "run" /\ ri > Len(Runs)
    /\ verdict' = "ok"
    /\ UNCHANGED <<ci, ri, ei>>

Done == verdict # "run" /\ UNCHANGED vars

Next == Compare \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
