---------------------------- MODULE Trace_Tokens ----------------------------
(***************************************************************************)
(* Recorded tokens of texts: one step for every token.                     *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci,      \* index of the case
          ti,      \* index of the next recorded token
          at,      \* where the next token starts in the text
          pos,     \* its position
          blank,   \* where the white space it is in the middle of ends, or 0
          verdict  \* "run", "ok" or "bad"
vars == <<ci, ti, at, pos, blank, verdict>>

Case == Cases[ci]
Fatal == "fatal" \in DOMAIN Case
Txt == Cases[ci].text
Log == Cases[ci].toks

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ti = 1 /\ at = 1 /\ pos = StartPos /\ blank = 0 /\ verdict = "run"

Complain(what, t) ==
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> what, token |-> ti, expected |-> t,
                                recorded |-> IF ~Fatal /\ ti <= Len(Log) THEN Log[ti] ELSE [k |-> "none"]]))
    /\ verdict' = "bad"
    /\ UNCHANGED <<ci, ti, at, pos, blank>>

Flag(b) == IF b THEN 1 ELSE 0

\* The index at which recorded token l ends, 0 if it may not end there.  It
\* has as many characters as bytes at most, and a quarter of that at least.
EndOf(t, l) ==
    LET bytes == l.sp[4] - pos.b
        Fits(i) == i - at <= bytes /\ bytes <= 4 * (i - at) /\ Advance(Txt, pos, at, i).b = l.sp[4]
    IN IF l.sp[4] <= pos.b THEN 0
       \* most tokens end where they can at the latest
       ELSE IF Fits(t.e) THEN t.e
       ELSE LET es == EndsOf(t, at)
                e  == { i \in (at + 1)..(at + bytes) : i \in es /\ Fits(i) }
            IN IF e = {} THEN 0 ELSE CHOOSE i \in e : TRUE

Place(p) == <<p.b, p.l, p.c>>

\* What is wrong with recorded token l where t is expected, "" if nothing
Wrong(t, l, e) ==
    IF Kind(t) # l.k THEN "kind"
    ELSE IF e = 0 THEN "extent"
    ELSE IF Place(pos) \o Place(Advance(Txt, pos, at, e)) # l.sp THEN "span"
    ELSE IF l.dp # Depth(t) \/ l.box # Flag(Boxed(t)) THEN "depth"
    ELSE IF l.co # Holds(t) THEN "contents"
    ELSE IF l.isw # Flag(t.k = "ws") \/ l.isa # Flag(t.k = "at") \/ l.ise # 0 THEN "predicates"
    ELSE ""

Stop(k) ==
    IF Log[ti].k = k /\ ti = Len(Log)
    THEN verdict' = "ok" /\ UNCHANGED <<ci, ti, at, pos, blank>>
    ELSE Complain("end", [k |-> k])

Step ==
    /\ verdict = "run" /\ ~Fatal
    /\ IF ti > Len(Log) THEN Complain("missing", <<>>)
       ELSE IF at > Len(Txt) THEN Stop("end")
       ELSE LET t == IF at < blank THEN [k |-> "ws", e |-> blank] ELSE LexAt(Txt, at) IN
            IF t.k = "er" THEN Stop("er")
            ELSE LET e == EndOf(t, Log[ti])
                     w == Wrong(t, Log[ti], e)
                 IN
                 IF w # "" THEN Complain(w, t)
                 ELSE /\ at' = e
                      /\ pos' = Advance(Txt, pos, at, at')
                      /\ ti' = ti + 1
                      /\ blank' = IF t.k = "ws" THEN t.e ELSE 0
                      /\ UNCHANGED <<ci, verdict>>

Crashed == verdict = "run" /\ Fatal /\ Complain(Case.fatal, <<>>)
Done == verdict # "run" /\ UNCHANGED vars
Next == Step \/ Crashed \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
