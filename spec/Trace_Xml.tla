----------------------------- MODULE Trace_Xml ------------------------------
(***************************************************************************)
(* Recorded events with their XML forms: those of a reading (evs) or one   *)
(* made by hand (ev).                                                      *)
(***************************************************************************)
EXTENDS Xml, Event, Json, IOUtils, TLC, Texts

CONSTANT JUDGE   \* "xml": the XML forms; "event": constructors and accessors

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, verdict
vars == <<ci, verdict>>
Case == Cases[ci]

Init == ci \in 1..Len(Cases) /\ verdict = "run"

Complain(why, e) ==
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why, event |-> e]))
    /\ verdict' = "bad"

Events == IF "ev" \in DOMAIN Case THEN <<Case.ev>> ELSE Case.evs

\* The version is the one the reader was set to
Version(e) == (e.k = "sd" /\ "cfg" \in DOMAIN Case) => VersionAgrees(Case.ver, e.xw.v) /\ VersionAgrees(Case.ver, e.xr.v)

\* The attribute that declares the default namespace keeps its own name; no
\* text of the cases contains the name it must not have
Xmlns == Cp("xmlns")
OwnName(x) == x.k = "se" => \A i \in 1..Len(x.at) : ~(x.at[i].n.p = <<Xmlns>> /\ x.at[i].n.l = Xmlns)

Fine(e) ==
    \/ e.k = "er"
    \/ /\ e.k # "panic"
       /\ IF JUDGE = "xml"
          THEN ForWriter(e, e.xw) /\ FromReader(e, e.xr) /\ FromReader(e, e.xf) /\ Version(e)
               /\ OwnName(e.xw) /\ OwnName(e.xr)
          ELSE Made(Case, e) /\ Told(Case, e)

Judge ==
    IF "fatal" \in DOMAIN Case THEN Complain(Case.fatal, <<>>)
    ELSE LET bad == SelectInSeq(Events, LAMBDA e : ~Fine(e)) IN
         IF bad = 0 THEN verdict' = "ok"
         ELSE Complain(JUDGE, Events[bad])

Next == \/ verdict = "run" /\ Judge /\ UNCHANGED ci
        \/ verdict # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
