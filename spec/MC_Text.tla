------------------------------ MODULE MC_Text ------------------------------
(***************************************************************************)
(* The reader on every text of up to MAXLEN characters of an alphabet.     *)
(*                                                                         *)
(* Checks termination within the bounds that Trace_Total uses, and states  *)
(* independently of the definitions in Lexer what tokens, contents,        *)
(* comments and spans must be.                                             *)
(***************************************************************************)
EXTENDS Reader, Stream, FiniteSetsExt

CONSTANTS ALPHA, MAXLEN

Alphabet ==
    CASE ALPHA = "general" -> {35, 97, 39, 123, 125, 61, 58, 59, 10, 32, 233}
      [] ALPHA = "strings" -> {35, 114, 39, 34, 10, 97, 8364}
      [] ALPHA = "comments" -> {59, 10, 32, 97, 233, 9}
      [] ALPHA = "tags" -> {35, 97, 98, 123, 125, 32}

VARIABLES txt,     \* the text
          nEvents, \* number of events given
          nPulls,  \* number of tokens asked for since the last event
          mon, over,
          prev     \* end of the previous event's span

vars == <<readerVars, txt, nEvents, nPulls, mon, over, prev>>

Init ==
    /\ txt \in UNION { [1..n -> Alphabet] : n \in 0..MAXLEN }
    /\ ReaderInit(TRUE)
    /\ nEvents = 0
    /\ nPulls = 0
    /\ mon = StreamInit
    /\ over = FALSE
    /\ prev = 0

Step ==
    /\ ~over
    /\ ReaderTurn(txt, 100)
    /\ mon' = IF out'.k = "none" THEN mon ELSE Follow(mon, out')
    /\ nEvents' = IF out'.k = "none" THEN nEvents ELSE nEvents + 1
    /\ nPulls' = IF out'.k # "none" THEN 0 ELSE IF Idle THEN nPulls + 1 ELSE nPulls
    /\ over' = (out'.k \in {"er", "ed"})
    /\ prev' = IF out'.k = "none" THEN prev ELSE out'.sp[2].b
    /\ UNCHANGED txt

Next == Step \/ (over /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

-----------------------------------------------------------------------------
Inv == ParserInv
StreamHolds == mon.why = ""
Terminates == <>over
EventsBounded == nEvents <= 2 * Len(txt) + 2
PullsBounded == nPulls <= Len(txt) + 1

\* Positions, from the text alone
PosAt(i) == [b |-> ByteLen(SubSeq(txt, 1, i - 1)),
             l |-> 1 + Cardinality({ j \in 1..(i - 1) : txt[j] = LF }),
             c |-> i - Max({ j \in 1..(i - 1) : txt[j] = LF } \cup {0})]
Positions == { PosAt(i) : i \in 1..End(txt) }

PosIsExact == pos = PosAt(at)
SpansInText == out.k # "none" => out.sp[1] \in Positions /\ out.sp[2] \in Positions
                                 /\ out.sp[1].b <= out.sp[2].b
\* Events are in the order of the text; a start comes when its element is
\* complete, which is before anything after it is given
SpansInOrder == [][ (out'.k # "none" /\ out'.k # "er") => out'.sp[1].b >= prev ]_vars

\* The index of a position
IndexOf(p) == CHOOSE i \in 1..End(txt) : PosAt(i) = p
Covered(sp) == SubSeq(txt, IndexOf(sp[1]), IndexOf(sp[2]) - 1)

Hashes(n) == [i \in 1..n |-> HASH]

\* The text of a content event is r? hashes quote data quote hashes, and the
\* data contains no earlier end
ContentExact ==
    out.k = "ct" =>
        \E h \in 0..Len(txt), q \in {SQUOTE, DQUOTE} :
            LET s    == Covered(out.sp)
                body == (IF out.raw THEN <<LETTER_R>> ELSE <<>>) \o Hashes(h) \o <<q>>
                end  == <<q>> \o Hashes(h)
                d    == out.d
                r    == IF out.raw THEN 1 ELSE 0
            IN /\ s = body \o d \o end
               /\ \A i \in 1..Len(d) : SubSeq(d \o end, i, i + h) # end
               /\ h = 0 => \A i \in 1..Len(d) : d[i] # LF

\* A comment is its lines, each with a semicolon in front, indentation
\* before it and a newline after it unless the text ends
RECURSIVE IsComment(_, _)
IsComment(s, lines) ==
    IF lines = <<>> THEN s = <<>>
    ELSE \E i \in 1..Len(s) :
            /\ s[i] = SEMI
            /\ \A j \in 1..(i - 1) : IsWhitespace(s[j]) /\ s[j] # LF
            /\ LET l == Head(lines)
                   e == i + Len(l)
               IN /\ e <= Len(s)
                  /\ SubSeq(s, i + 1, e) = l
                  /\ \A j \in 1..Len(l) : l[j] # LF
                  /\ IF e = Len(s) THEN Len(lines) = 1
                     ELSE s[e + 1] = LF /\ IsComment(SubSeq(s, e + 2, Len(s)), Tail(lines))

CommentExact ==
    out.k = "cm" =>
        /\ out.lines # <<>>
        /\ IsComment(Covered(out.sp), out.lines)
        \* and what follows is not another line of it
        /\ LET rest == SubSeq(txt, IndexOf(out.sp[2]), Len(txt))
               i == SelectInSeq(rest, LAMBDA c : c = LF \/ ~IsWhitespace(c))
           IN i # 0 => rest[i] # SEMI

\* A start tag is hashes, name and perhaps a brace, followed by whitespace
TagExact ==
    out.k = "se" =>
        LET s == Covered(out.sp)
            n == IF out.n[1] = <<>> THEN out.n[3] ELSE out.n[1] \o <<COLON>> \o out.n[3]
            e == IndexOf(out.sp[2])
        IN /\ \E d \in 1..Len(s) : s = Hashes(d) \o n \o (IF Top.box THEN <<LBRACE>> ELSE <<>>)
           /\ e <= Len(txt) => IsWhitespace(txt[e])

(***************************************************************************)
(* Lookahead: what has been read of the text does not change when the text *)
(* after it does.  A token other than an error is final once a character   *)
(* after it has been seen; a comment once it is known not to go on.        *)
(***************************************************************************)
\* Index of the character that settles the end of token t, if it is there
Settled(t) ==
    IF t.k = "cm" THEN First(txt, t.e, LAMBDA c : c = LF \/ ~IsWhitespace(c))
    ELSE t.e

Lasting ==
    phase = "new" =>
        \A i \in 1..Len(txt) :
            LET t == LexAt(txt, i) IN
            t.k # "er" => \A n \in Settled(t)..Len(txt) : LexAt(SubSeq(txt, 1, n), i) = t

\* Tokens are consecutive and not empty
Progress ==
    phase = "new" =>
        \A i \in 1..Len(txt) : LET t == LexAt(txt, i) IN t.k # "er" => t.s = i /\ t.e > i
=============================================================================
