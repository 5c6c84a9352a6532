------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Lexical structure of HML.                                               *)
(*                                                                         *)
(* LexAt(s, i) is the token of text s at position i (not the end):         *)
(*    [k, s, e, ...]  with k one of                                        *)
(*       "ws"                      whitespace, ignored                     *)
(*       "cm"   lines              comment lines                           *)
(*       "ct"   raw, d             quoted character content                *)
(*       "op"   p, n, dp, box      opening tag, dp hashes, boxed or not    *)
(*       "cl"   p, n, dp           closing tag of a box                    *)
(*       "at"   p, n, v            attribute                               *)
(*       "er"   err, ...           lexical error, with its span            *)
(* The alternatives are tried in the order in which LexAt lists them.      *)
(***************************************************************************)
EXTENDS Chars

(* Names.  `No' is the absence of a match. *)
No == [ok |-> FALSE]

NameAt(s, i) ==
    IF i > Len(s) \/ ~IsNameStart(s[i]) THEN No
    ELSE LET e == First(s, i + 1, LAMBDA c : ~IsNameChar(c)) IN
         [ok |-> TRUE, e |-> e, t |-> Text(s, i, e)]

\* [prefix:]name; a colon must be followed by a name
PrefixedNameAt(s, i) ==
    LET a == NameAt(s, i) IN
    IF ~a.ok THEN No
    ELSE IF a.e <= Len(s) /\ s[a.e] = COLON
    THEN LET b == NameAt(s, a.e + 1) IN
         IF ~b.ok THEN No
         ELSE [ok |-> TRUE, e |-> b.e, p |-> a.t, n |-> b.t]
    ELSE [ok |-> TRUE, e |-> a.e, p |-> <<>>, n |-> a.t]

(* Whitespace *)
WhitespaceAt(s, i) ==
    [k |-> "ws", s |-> i, e |-> First(s, i, LAMBDA c : ~IsWhitespace(c))]

(***************************************************************************)
(* Comments: a semicolon and the rest of its line; comment lines that      *)
(* follow each other, with at most indentation between, are one comment.   *)
(***************************************************************************)
\* Position of the semicolon of a comment line starting at i, or 0
CommentSemi(s, i) ==
    LET q == First(s, i, LAMBDA c : IsNewline(c) \/ ~IsWhitespace(c)) IN
    IF q <= Len(s) /\ s[q] = SEMI THEN q ELSE 0

RECURSIVE CommentLines(_, _, _)
CommentLines(s, i, lines) ==
    LET q == CommentSemi(s, i) IN
    IF q = 0 THEN [e |-> i, lines |-> lines]
    ELSE LET eol == First(s, q + 1, IsNewline)
             ls  == Append(lines, Text(s, q + 1, eol))
         IN IF eol > Len(s) THEN [e |-> eol, lines |-> ls]
            ELSE CommentLines(s, eol + 1, ls)

CommentAt(s, i) ==
    LET r == CommentLines(s, i, <<>>) IN
    [k |-> "cm", s |-> i, e |-> r.e, lines |-> r.lines]

(***************************************************************************)
(* Quoted strings: closed by the first same quote that is followed by as   *)
(* many hashes as preceded the opening one; one line only without hashes.  *)
(* QuoteEnd(s, i, q, h) is the position of the closing quote, or 0.        *)
(***************************************************************************)
RECURSIVE HashRun(_, _, _)
\* Number of hashes at i, at most h
HashRun(s, i, h) ==
    IF h = 0 \/ i > Len(s) \/ s[i] # HASH THEN 0 ELSE 1 + HashRun(s, i + 1, h - 1)

RECURSIVE QuoteEnd(_, _, _, _)
QuoteEnd(s, i, q, h) ==
    LET k == First(s, i, LAMBDA c : c = q \/ (h = 0 /\ IsNewline(c))) IN
    IF k > Len(s) \/ s[k] # q THEN 0
    ELSE LET m == HashRun(s, k + 1, h) IN
         IF m = h THEN k ELSE QuoteEnd(s, k + 1 + m, q, h)

\* r? #* quote ... ; `No' if there is no complete string here
StringAt(s, i) ==
    LET raw == s[i] = LETTER_R
        h0  == IF raw THEN i + 1 ELSE i
        q   == First(s, h0, LAMBDA c : ~IsHash(c))
        h   == q - h0
    IN IF q > Len(s) \/ ~IsQuote(s[q]) THEN No
       ELSE LET e == QuoteEnd(s, q + 1, s[q], h) IN
            IF e = 0 THEN No
            ELSE [ok |-> TRUE,
                  t  |-> [k |-> "ct", s |-> i, e |-> e + 1 + h, raw |-> raw,
                          d |-> Text(s, q + 1, e)]]

(* Tags *)
TagAt(s, i) ==
    LET h    == First(s, i, LAMBDA c : ~IsHash(c))
        name == PrefixedNameAt(s, h)
    IN IF ~name.ok
       THEN [k |-> "er", err |-> "ExpectedTagName", s |-> i, e |-> h]
       ELSE
       LET c    == IF name.e <= Len(s) THEN s[name.e] ELSE SPACE
           last == IF c \in {LBRACE, RBRACE} THEN name.e + 1 ELSE name.e
       IN IF last <= Len(s) /\ ~IsWhitespace(s[last])
          THEN [k |-> "er", err |-> "ExpectedWhitespaceAfterTag", s |-> i, e |-> last]
          ELSE IF c = RBRACE
          THEN [k |-> "cl", s |-> i, e |-> last, dp |-> h - i, p |-> name.p, n |-> name.n]
          ELSE [k |-> "op", s |-> i, e |-> last, dp |-> h - i, p |-> name.p, n |-> name.n,
                box |-> (c = LBRACE)]

(***************************************************************************)
(* Attributes: [prefix:]name=value, the value quoted on one line or a run  *)
(* of characters up to whitespace or the end.                              *)
(***************************************************************************)
ValueAt(s, i) ==
    IF i > Len(s) \/ IsWhitespace(s[i]) THEN No
    ELSE IF IsQuote(s[i])
    THEN LET e == QuoteEnd(s, i + 1, s[i], 0) IN
         IF e = 0 THEN No ELSE [ok |-> TRUE, e |-> e + 1, v |-> Text(s, i + 1, e)]
    ELSE LET e == First(s, i, IsWhitespace) IN
         [ok |-> TRUE, e |-> e, v |-> Text(s, i, e)]

AttributeAt(s, i, name) ==
    IF name.e > Len(s)
    THEN [k |-> "er", err |-> "UnexpectedEOF", s |-> i, e |-> name.e]
    ELSE IF s[name.e] # EQUALS
    THEN [k |-> "er", err |-> "ExpectedEquals", ch |-> s[name.e], s |-> i, e |-> name.e]
    ELSE LET v == ValueAt(s, name.e + 1) IN
         IF ~v.ok
         THEN [k |-> "er", err |-> "ExpectedEquals", ch |-> EQUALS,
               s |-> name.e + 1, e |-> name.e + 1]
         ELSE [k |-> "at", s |-> i, e |-> v.e, p |-> name.p, n |-> name.n, v |-> v.v]

LexAt(s, i) ==
    IF IsWhitespace(s[i]) THEN WhitespaceAt(s, i)
    ELSE IF s[i] = SEMI THEN CommentAt(s, i)
    ELSE
    LET str == IF IsHash(s[i]) \/ IsQuote(s[i]) \/ s[i] = LETTER_R THEN StringAt(s, i) ELSE No IN
    IF str.ok THEN str.t
    ELSE IF IsHash(s[i]) THEN TagAt(s, i)
    ELSE LET name == PrefixedNameAt(s, i) IN
         IF name.ok THEN AttributeAt(s, i, name)
         ELSE [k |-> "er", err |-> "UnexpectedCharacter", ch |-> s[i], s |-> i, e |-> i]
=============================================================================
