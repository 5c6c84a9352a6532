---------------------------- MODULE Trace_Source ----------------------------
(***************************************************************************)
(* Recorded readings from sources: what the source gave, item by item, and *)
(* everything the implementation returned for it.                          *)
(***************************************************************************)
EXTENDS Source, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci,      \* index of the case
          si,      \* index of the next item of the source
          ei,      \* index of the next recorded event
          verdict  \* "run", "ok" or "bad"

vars == <<parserVars, ci, si, ei, verdict>>

Case == Cases[ci]
Fatal == "fatal" \in DOMAIN Cases[ci]
Src == Cases[ci].src
Log == Cases[ci].evs

\* The token of a recorded one; positions are triples
Triples(sp) == <<SubSeq(sp, 1, 3), SubSeq(sp, 4, 6)>>
TokenOf(x) ==
    LET sp == Triples(x.sp) IN
    CASE x.k = "op" -> [k |-> "op", p |-> x.co[1], n |-> x.co[2], dp |-> x.dp, box |-> x.box = 1, sp |-> sp]
      [] x.k = "cl" -> [k |-> "cl", p |-> x.co[1], n |-> x.co[2], dp |-> x.dp, sp |-> sp]
      [] x.k = "at" -> [k |-> "at", p |-> x.co[1], n |-> x.co[2], v |-> x.co[3], sp |-> sp]
      [] x.k \in {"raw", "int"} -> [k |-> "ct", raw |-> x.k = "raw", d |-> x.co[1], sp |-> sp]
      [] x.k = "cm" -> [k |-> "cm", lines |-> x.co, sp |-> sp]
      [] x.k = "ws" -> [k |-> "ws", sp |-> sp]

ItemOf(x) == IF x.k \in {"er", "end"} THEN x ELSE TokenOf(x)

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ParserInit(~Fatal /\ Case.xmlns = 1, <<0, 1, 1>>)
    /\ si = 1 /\ ei = 1
    /\ verdict = "run"

-----------------------------------------------------------------------------
JoinLines(ls) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN ls[1] ELSE acc \o <<10>> \o ls[i], <<>>, ls)

Agree(m, l) ==
    IF m.k # l.k THEN FALSE
    ELSE CASE OfSource(m) -> l = m.given
           [] m.k = "er" -> m.e = l.e
           [] m.k \in {"sd", "ed"} -> Triples(l.sp) = m.sp
           [] m.k = "se" -> l.n = m.n /\ l.at = m.at /\ Triples(l.sp) = m.sp
           [] m.k = "ee" -> l.n = m.n /\ Triples(l.sp) = m.sp
           [] m.k = "ct" -> l.d = m.d /\ l.ct = (IF m.raw THEN "raw" ELSE "int") /\ Triples(l.sp) = m.sp
           [] m.k = "cm" -> l.d = JoinLines(m.lines) /\ Triples(l.sp) = m.sp

Complain(what, l) ==
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> what, event |-> ei, item |-> si, expected |-> out', recorded |-> l]))
    /\ verdict' = "bad"
    /\ UNCHANGED ei

\* Over with the end of the document or an error of the reader's own
Judge ==
    IF out'.k = "none" THEN UNCHANGED <<ei, verdict>>
    ELSE IF ei > Len(Log) THEN Complain("missing", <<>>)
    ELSE IF ~Agree(out', Log[ei]) THEN Complain("event", Log[ei])
    ELSE IF out'.k = "ed" /\ Case.again # 0 THEN Complain("asked again", Log[ei])
    ELSE /\ ei' = ei + 1
         /\ verdict' = IF out'.k = "ed" \/ (out'.k = "er" /\ ~OfSource(out')) THEN "ok" ELSE "run"

Step ==
    /\ verdict = "run" /\ ~Fatal
    /\ \/ /\ Internal(100)
          /\ UNCHANGED si
       \/ /\ Idle
          /\ Give(IF si <= Len(Src) THEN ItemOf(Src[si]) ELSE [k |-> "end"])
          /\ si' = si + 1
    /\ Judge
    /\ UNCHANGED ci

Crashed ==
    /\ verdict = "run" /\ Fatal
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> Case.fatal]))
    /\ verdict' = "bad"
    /\ UNCHANGED <<parserVars, ci, si, ei>>

Done == verdict # "run" /\ UNCHANGED vars

Next == Step \/ Crashed \/ Done
Spec == Init /\ [][Next]_vars

Inv == ParserInv
=============================================================================
