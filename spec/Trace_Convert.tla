--------------------------- MODULE Trace_Convert ----------------------------
(***************************************************************************)
(* Validation of runs of the converter.                                    *)
(*                                                                         *)
(* Each case of the file CASES has a text and the version asked for, and   *)
(* what the program printed on standard output (out) and on standard error *)
(* (err) and how it ended (code).  The events that Reader gives for the    *)
(* text account for the output piece by piece.                             *)
(***************************************************************************)
EXTENDS Reader, Converter, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES conv, ci, verdict
vars == <<readerVars, conv, ci, verdict>>

Case == Cases[ci]
Out == Cases[ci].out

Init ==
    /\ ci \in 1..Len(Cases)
    /\ ReaderInit(FALSE)
    /\ conv = NothingWritten
    /\ verdict = "run"

JoinLines(ls) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN ls[1] ELSE acc \o <<LF>> \o ls[i],
                                <<>>, ls)
Event(m) == IF m.k = "cm" THEN [k |-> "cm", d |-> JoinLines(m.lines)] ELSE m

(***************************************************************************)
(* Reports of faults.  The line is given by its number, and the column     *)
(* either as well or by a caret below the line.  The report says what the  *)
(* fault is in the library's words for it (msg; <<>> if not known).        *)
(***************************************************************************)
IsDigit(c) == c \in 48..57
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

HasNumber(t, n) ==
    LET d == Digits(n) IN
    \E k \in 1..Len(t) - Len(d) + 1 :
        /\ SubSeq(t, k, k + Len(d) - 1) = d
        /\ k = 1 \/ ~IsDigit(t[k - 1])
        /\ k + Len(d) > Len(t) \/ ~IsDigit(t[k + Len(d)])

RECURSIVE LinesOf(_)
LinesOf(t) == LET e == First(t, 1, IsNewline) IN
              IF e > Len(t) THEN <<t>> ELSE <<Text(t, 1, e)>> \o LinesOf(SubSeq(t, e + 1, Len(t)))

EndsWith(t, s) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s

CaretAt(err, line, col) ==
    LET ls == LinesOf(err) IN
    \E i \in 1..Len(ls) - 1 :
        /\ EndsWith(ls[i], line)
        /\ LET k == SelectInSeq(ls[i + 1], LAMBDA c : c = 94) IN
           k # 0 /\ k - (Len(ls[i]) - Len(line)) = col

Reported(err, txt, p) ==
    /\ HasNumber(err, p.l)
    /\ \/ CaretAt(err, LinesOf(txt)[p.l], p.c)
       \/ HasNumber(err, p.c)

SaysWhat(err, msg) == \E k \in 0..Len(err) - Len(msg) : SubSeq(err, k + 1, k + Len(msg)) = msg

-----------------------------------------------------------------------------
Crash == Case.code >= 100 \/ Case.utf8 = 0

\* What is wrong when the events of the text have all been written
WrongAtEnd ==
    IF ~Accounted(Out, conv') THEN "output"
    ELSE IF out'.k = "ed" /\ (Case.code # 0 \/ Case.err # <<>>) THEN "complaint about a correct document"
    ELSE IF out'.k = "er" /\ ~Reported(Case.err, Case.text, out'.sp[1]) THEN "report of the fault"
    ELSE IF out'.k = "er" /\ ~SaysWhat(Case.err, Case.msg) THEN "name of the fault"
    ELSE ""

Complain(what) ==
    PrintT("BAD " \o ToJson([id |-> Case.id, what |-> what, event |-> out', output_at |-> conv.done]))

Judge ==
    IF out'.k = "none"
    THEN UNCHANGED <<conv, verdict>>
    ELSE /\ conv' = After(Out, conv, Event(out'))
         /\ IF conv'.done = 0
            THEN Complain("output") /\ verdict' = "bad"
            ELSE IF out'.k \in {"ed", "er"}
            THEN IF WrongAtEnd = "" THEN verdict' = "ok"
                 ELSE Complain(WrongAtEnd) /\ verdict' = "bad"
            ELSE UNCHANGED verdict

Step ==
    /\ verdict = "run" /\ ~Crash
    /\ ReaderTurn(Case.text, Case.ver)
    /\ Judge
    /\ UNCHANGED ci

Crashed ==
    /\ verdict = "run" /\ Crash
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> "crash", code |-> Case.code]))
    /\ verdict' = "bad"
    /\ UNCHANGED <<readerVars, conv, ci>>

Done == verdict # "run" /\ UNCHANGED vars
Next == Step \/ Crashed \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
