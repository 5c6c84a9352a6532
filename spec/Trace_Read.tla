----------------------------- MODULE Trace_Read -----------------------------
(***************************************************************************)
(* Validation of recorded readings against Lexer and Parser.               *)
(*                                                                         *)
(* Each case of the file CASES holds a text and everything the             *)
(* implementation returned for it.  Every case is an initial state; its    *)
(* only behaviour runs the specification over the text and compares each   *)
(* event with the recorded one.  A difference is printed and ends the      *)
(* behaviour.  The three constants select what is compared, so that every  *)
(* property judges only what it is about.                                  *)
(***************************************************************************)
EXTENDS Reader, Json, IOUtils, FiniteSets

CONSTANTS KINDS,   \* kinds of events that are compared (ends and errors always are)
          FIELDS,  \* fields of events that are compared
          ERRS     \* kinds of errors that are compared

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci,      \* index of the case
          ei,      \* index of the next recorded event
          verdict  \* "run", "ok" or "bad"

vars == <<readerVars, ci, ei, verdict>>

Case == Cases[ci]
Txt == Cases[ci].text
Log == Cases[ci].evs
\* Position types differ in whether they know lines and columns
Lines == Cases[ci].cfg \notin {"us", "sb"}

\* The implementation crashed or did not return: no step of the specification
Fatal == "fatal" \in DOMAIN Cases[ci]

\* The mappings the client had made before reading
Given == BaseFrame(Cases[ci].xmlns = 1, Cases[ci].gv)

Init ==
    /\ ci \in 1..Len(Cases)
    /\ IF Fatal THEN ReaderInit(FALSE) ELSE ReaderInitOver(Case.xmlns = 1, Given)
    /\ ei = 1
    /\ verdict = "run"

-----------------------------------------------------------------------------
(* Comparison with the record *)

Always == {"ed", "er", "panic"}
Relevant(k) == k \in KINDS \/ k \in Always

NextRelevant == IF ei > Len(Log) THEN 0
                ELSE SelectInSubSeq(Log, ei, Len(Log), LAMBDA e : Relevant(e.k))

SpanOf(sp) ==
    LET a == sp[1]  b == sp[2] IN
    IF Lines THEN <<a.b, a.l, a.c, b.b, b.l, b.c>> ELSE <<a.b, 0, 0, b.b, 0, 0>>

JoinLines(ls) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN ls[1] ELSE acc \o <<LF>> \o ls[i],
                                <<>>, ls)

AttrFields(l, G(_)) == [i \in 1..Len(l) |-> G(l[i])]

Sees(fr, p) == IF Mapped(fr, p) THEN <<Lookup(fr, p)>> ELSE <<>>

\* All mappings, each once
Lists(ms, f) ==
    LET all == ToSet(ms) IN
    /\ Len(ms) = Cardinality(all)
    /\ all = { <<p, f[p]>> : p \in DOMAIN f }

\* The furthest byte that has been asked for; one more for the end itself
Reach == IF phase' # "open" \/ (todo'.k = "token" /\ todo'.t.k = "eof") THEN pos'.b + 1 ELSE pos'.b

Agree(f, m, l) ==
    CASE f = "name"  -> m.k \in {"se", "ee"} => /\ m.n[1] = l.n[1]
                                               /\ m.n[3] = l.n[3]
      [] f = "uri"   -> /\ m.k \in {"se", "ee"} => m.n = l.n
                        /\ m.k = "se" => LET G(a) == <<a[1], a[2], a[3]>> IN
                                         AttrFields(m.at, G) = AttrFields(l.at, G)
      [] f = "attrs" -> m.k = "se" => LET G(a) == <<a[1], a[3], a[4]>> IN
                                      AttrFields(m.at, G) = AttrFields(l.at, G)
      [] f = "data"  -> m.k = "ct" => /\ m.d = l.d
                                     /\ l.ct = (IF m.raw THEN "raw" ELSE "int")
      [] f = "lines" -> m.k = "cm" => /\ l.d = JoinLines(m.lines)
                                     /\ l.ln = [i \in 1..Len(m.lines) |-> ByteLen(m.lines[i])]
      [] f = "span"  -> "sp" \in DOMAIN m => "sp" \in DOMAIN l /\ SpanOf(m.sp) = l.sp
      [] f = "ver"   -> m.k = "sd" => m.v = l.v
      [] f = "scope" -> m.k # "er" => /\ \A i \in 1..Len(Case.pr) : l.sc[i] = Sees(frames', Case.pr[i])
                                     /\ Lists(l.ls, Visible(frames'))
      [] f = "reach" -> /\ l.pe <= Reach
                        \* nor asked again, also when called after the end
                        /\ m.k = "ed" => Case.rp = 0
      [] OTHER       -> FALSE

AgreeError(m, l) ==
    m.e \in ERRS \/ l.e \in ERRS =>
        /\ m.e = l.e
        /\ "ch" \in DOMAIN m => m.ch = l.ch
        /\ "dp" \in DOMAIN m => m.dp = l.dp
        /\ "a" \in DOMAIN m => m.a = l.a

\* What is wrong with recorded event l where m is expected, "" if nothing
Wrong(m, l) ==
    IF m.k # l.k THEN "kind"
    ELSE IF m.k = "er" /\ ~AgreeError(m, l) THEN "error"
    ELSE LET bad == { f \in FIELDS : ~Agree(f, m, l) } IN
         IF bad = {} THEN "" ELSE CHOOSE f \in bad : TRUE

Complain(what, l) ==
    PrintT("BAD " \o ToJson([id |-> Case.id, what |-> what, event |-> ei,
                             expected |-> out', recorded |-> l]))

Judge ==
    IF out'.k = "none" \/ ~Relevant(out'.k)
    THEN UNCHANGED <<ei, verdict>>
    ELSE
    LET j == NextRelevant IN
    IF j = 0
    THEN /\ Complain("missing", <<>>)
         /\ verdict' = "bad"
         /\ UNCHANGED ei
    ELSE
    LET w == Wrong(out', Log[j]) IN
    IF w # ""
    THEN /\ Complain(w, Log[j])
         /\ verdict' = "bad"
         /\ UNCHANGED ei
    ELSE /\ ei' = j + 1
         /\ verdict' = IF out'.k \in {"ed", "er"} THEN "ok" ELSE "run"

\* Once the document has ended or an error has been given nothing is left to
\* be recorded; the specification has been followed
Step ==
    /\ verdict = "run" /\ ~Fatal
    /\ ReaderTurn(Txt, Case.ver)
    /\ Judge
    /\ UNCHANGED ci

Crashed ==
    /\ verdict = "run" /\ Fatal
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> Case.fatal]))
    /\ verdict' = "bad"
    /\ UNCHANGED <<readerVars, ci, ei>>

Done == verdict # "run" /\ UNCHANGED vars

Next == Step \/ Crashed \/ Done

Spec == Init /\ [][Next]_vars

\* Also what the specification claims of its own states, on every real text
Inv == ParserInv
=============================================================================
