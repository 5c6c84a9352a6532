---------------------------- MODULE Trace_Escape ----------------------------
(***************************************************************************)
(* Recorded calls of escape and replace_entities.                          *)
(***************************************************************************)
EXTENDS Escape, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, verdict
vars == <<ci, verdict>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ verdict = "run"

Complain(why) == PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why])) /\ verdict' = "bad"

Optional(some, r) == IF some THEN <<r>> ELSE <<>>

\* Bit 0 of the argument allows named entities, bit 1 is the empty set of them
Named == IF Bit(Case.arg, 1) /\ ~Bit(Case.arg, 2) THEN XmlEntities ELSE <<>>

Broken(x) == IF x = 1 THEN "panic" ELSE "not a text"

Judge ==
    IF "fatal" \in DOMAIN Case THEN Complain(Case.fatal)
    ELSE IF Case.rx # 0 THEN Complain(Broken(Case.rx))
    ELSE IF Case.op = "esc"
    THEN IF Case.r # Optional(NeedsEscape(Case.text, Case.arg), EscapeText(Case.text, Case.arg))
         THEN Complain("escaped text")
         ELSE IF Case.backx # 0 THEN Complain(Broken(Case.backx))
         ELSE IF Case.r # <<>> /\ Case.back # <<Case.text>> THEN Complain("expansion of the escaped text")
         ELSE verdict' = "ok"
    ELSE LET x == Expand(Case.text, Named) IN
         IF Case.r # Optional(x.n > 0, x.r) THEN Complain("expanded text") ELSE verdict' = "ok"

Next == \/ verdict = "run" /\ Judge /\ UNCHANGED ci
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
