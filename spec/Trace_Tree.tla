----------------------------- MODULE Trace_Tree -----------------------------
(***************************************************************************)
(* Recorded readings of different ways to write a tree: the events of each *)
(* must be the walk of the tree.                                           *)
(***************************************************************************)
EXTENDS Tree, Chars, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, ri, verdict
vars == <<ci, ri, verdict>>
Case == Cases[ci]
Run == Case.runs[ri]

Init == ci \in 1..Len(Cases) /\ ri = 1 /\ verdict = "run"

JoinLines(ls) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN ls[1] ELSE acc \o <<10>> \o ls[i],
                                <<>>, ls)

Agree(m, l) ==
    /\ m.k = l.k
    /\ m.k \in {"se", "ee"} => m.n = l.n
    /\ m.k = "se" => m.at = l.at
    /\ m.k = "ct" => m.d = l.d /\ l.ct = (IF m.raw THEN "raw" ELSE "int")
    /\ m.k = "cm" => /\ l.d = JoinLines(m.lines)
                     /\ l.ln = [i \in 1..Len(m.lines) |-> ByteLen(m.lines[i])]

Complain(why) ==
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, run |-> ri, what |-> why]))
    /\ verdict' = "bad"

Judge ==
    IF "fatal" \in DOMAIN Run THEN Complain(Run.fatal) /\ UNCHANGED ri
    ELSE LET want == EventsOf(Case.tree, Run.xmlns = 1)
             log  == Run.evs
             bad  == IF Len(log) # Len(want) THEN {0}
                     ELSE { i \in 1..Len(want) : ~Agree(want[i], log[i]) }
         IN IF bad # {} THEN Complain("events") /\ UNCHANGED ri
            ELSE IF ri = Len(Case.runs) THEN verdict' = "ok" /\ UNCHANGED ri
            ELSE ri' = ri + 1 /\ UNCHANGED verdict

Next == \/ verdict = "run" /\ Judge /\ UNCHANGED ci
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
