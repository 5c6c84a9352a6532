---------------------------- MODULE Trace_Error -----------------------------
(***************************************************************************)
(* Recorded errors: made by hand, or the first one of a reading.           *)
(***************************************************************************)
EXTENDS Error, Json, IOUtils, TLC, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, verdict
vars == <<ci, verdict>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ verdict = "run"

Complain(why) ==
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why, recorded |-> Case]))
    /\ verdict' = "bad"

\* Errors of the same parts but different kinds can be told apart
Distinct(ms) == Cardinality({ ms[i] : i \in 1..Len(ms) }) = Len(ms)

Judge ==
    LET k == Case.kind IN
    IF k = "all" THEN IF Distinct(Case.msgs) THEN "" ELSE "messages"
    ELSE IF k = "pass" THEN IF Case.io = <<Case.n>> /\ Case.mk = <<Case.n>> THEN "" ELSE "passed on"
    ELSE IF k \in {"m-empty", "m-unmapped", "m-bad"}
    THEN LET e == Case.er IN
         IF /\ e.e = (CASE k = "m-empty" -> "EmptyName" [] k = "m-unmapped" -> "UnmappedPrefix" [] OTHER -> "BadName")
            /\ k # "m-empty" => e.a = Case.n /\ Occurs(Case.n, e.msg)
            /\ e.msg # <<>>
         THEN "" ELSE "markup"
    ELSE IF k = "read"
    THEN IF Case.er = <<>> THEN ""
         ELSE LET e == Case.er[1] IN
              IF e.e \in Variants /\ Told(e) /\ (HasDepth(e.e) => Occurs(Digits(e.dp), e.msg)) THEN "" ELSE "told"
    ELSE IF ~Made(Case, Case.er) THEN "made"
    ELSE IF ~Told(Case.er) \/ ~TellsDepth(Case, Case.er) THEN "told"
    ELSE ""

Step ==
    /\ verdict = "run"
    /\ IF "fatal" \in DOMAIN Case THEN Complain(Case.fatal)
       ELSE IF Judge = "" THEN verdict' = "ok" ELSE Complain(Judge)
    /\ UNCHANGED ci

Next == Step \/ (verdict # "run" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
