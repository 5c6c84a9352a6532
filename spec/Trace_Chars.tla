---------------------------- MODULE Trace_Chars ----------------------------
(***************************************************************************)
(* What every character does at a place of a document.                     *)
(*                                                                         *)
(* Each case of the file CASES is a range of characters from..to that were *)
(* put at one place of a document: rs lists ranges <<first, last, outcome>>*)
(* and os the outcomes, the documents' events in which -1 stands for the   *)
(* character itself.  The case also has the outcome of one character of    *)
(* each class at that place, and those five documents are validated        *)
(* against Lexer and Parser by Trace_Read.  Lexer uses of a character      *)
(* beyond ASCII only whether it is in these classes, so every character    *)
(* has the outcome of the one that stands for its class.                   *)
(***************************************************************************)
EXTENDS Chars, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, verdict
vars == <<ci, verdict>>

Case == Cases[ci]
Fatal == "fatal" \in DOMAIN Case

\* No character of the range is a surrogate, which is not a character
IsScalarValue(c) == c \in 0..55295 \/ c \in 57344..1114111

\* The classes overlap: U+1680 is white space and may start a name
Stands(c) == IF IsNameStart(c) THEN IF IsWhitespace(c) THEN "both" ELSE "start"
             ELSE IF IsNameChar(c) THEN "name"
             ELSE IF IsWhitespace(c) THEN "ws" ELSE "other"

\* Every character has been tried once
Complete ==
    LET rs == Case.rs
        After(c) == IF c = 55295 THEN 57344 ELSE c + 1
        first == IF IsScalarValue(Case.from) THEN Case.from ELSE 57344
        last == IF IsScalarValue(Case.to) THEN Case.to ELSE 55295
    IN IF first > last THEN rs = <<>>
       ELSE /\ rs # <<>> /\ rs[1][1] = first /\ rs[Len(rs)][2] = last
            /\ \A i \in 1..Len(rs) - 1 : rs[i + 1][1] = After(rs[i][2])

\* Classes whose characters do not have the outcome of range r
Differ(r) == { k \in DOMAIN Case.std : Case.std[k] # Case.os[r[3]] }

WrongIn(r) == LET d == Differ(r) IN { c \in r[1]..r[2] : Stands(c) \in d }
Wrong == { i \in 1..Len(Case.rs) : WrongIn(Case.rs[i]) # {} }

Init == ci \in 1..Len(Cases) /\ verdict = "run"

Check ==
    /\ verdict = "run"
    /\ UNCHANGED ci
    /\ IF Fatal
       THEN /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> Case.fatal]))
            /\ verdict' = "bad"
       ELSE IF ~Complete
       THEN /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> "incomplete"]))
            /\ verdict' = "bad"
       ELSE IF Wrong # {}
       THEN LET r == Case.rs[CHOOSE i \in Wrong : \A j \in Wrong : i <= j]
                c == CHOOSE c \in WrongIn(r) : \A d \in WrongIn(r) : c <= d
            IN /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> "class", char |-> c, range |-> r,
                                           expected |-> Case.std[Stands(c)], recorded |-> Case.os[r[3]]]))
               /\ verdict' = "bad"
       ELSE verdict' = "ok"

Done == verdict # "run" /\ UNCHANGED vars
Next == Check \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
