------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters of an HML text.                                              *)
(*                                                                         *)
(* A text is a sequence of Unicode scalar values (naturals).  The classes  *)
(* are those of XML 1.0 (NameStartChar, NameChar without the colon, which  *)
(* separates a prefix from a name) and the Unicode White_Space property.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

LF == 10
SPACE == 32
DQUOTE == 34
HASH == 35
AMP == 38
SQUOTE == 39
COLON == 58
SEMI == 59
EQUALS == 61
BSLASH == 92
LETTER_R == 114
LBRACE == 123
RBRACE == 125

IsNewline(c) == c = LF
IsHash(c) == c = HASH
IsQuote(c) == c = DQUOTE \/ c = SQUOTE

IsWhitespace(c) ==
    \/ c \in 9..13
    \/ c = 32
    \/ c = 133
    \/ c = 160
    \/ c = 5760
    \/ c \in 8192..8202
    \/ c = 8232
    \/ c = 8233
    \/ c = 8239
    \/ c = 8287
    \/ c = 12288

IsNameStart(c) ==
    IF c < 128
    THEN c \in 97..122 \/ c \in 65..90 \/ c = 95
    ELSE \/ c \in 192..214            \* C0-D6
         \/ c \in 216..246            \* D8-F6
         \/ c \in 248..767            \* F8-2FF
         \/ c \in 880..893            \* 370-37D
         \/ c \in 895..8191           \* 37F-1FFF
         \/ c \in 8204..8205          \* 200C-200D
         \/ c \in 8304..8591          \* 2070-218F
         \/ c \in 11264..12271        \* 2C00-2FEF
         \/ c \in 12289..55295        \* 3001-D7FF
         \/ c \in 63744..64975        \* F900-FDCF
         \/ c \in 65008..65533        \* FDF0-FFFD
         \/ c \in 65536..983039       \* 10000-EFFFF

IsNameChar(c) ==
    \/ IsNameStart(c)
    \/ c = 45                         \* -
    \/ c = 46                         \* .
    \/ c \in 48..57                   \* 0-9
    \/ c = 183                        \* B7
    \/ c \in 768..879                 \* 300-36F
    \/ c \in 8255..8256               \* 203F-2040

\* Number of bytes of a character in UTF-8
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

\* Number of bytes of a text
ByteLen(t) == FoldLeft(LAMBDA n, c : n + Utf8Len(c), 0, t)

(***************************************************************************)
(* Searching.  A text s has positions 1..Len(s)+1, the last being its end. *)
(***************************************************************************)
End(s) == Len(s) + 1

\* First position at or after i whose character satisfies Test, or the end
First(s, i, Test(_)) ==
    IF i > Len(s) THEN End(s)
    ELSE LET k == SelectInSubSeq(s, i, Len(s), Test) IN
         IF k = 0 THEN End(s) ELSE k

Text(s, from, to) == SubSeq(s, from, to - 1)

(***************************************************************************)
(* Positions as reported to the user: bytes from 0, line and column from 1 *)
(***************************************************************************)
StartPos == [b |-> 0, l |-> 1, c |-> 1]

AdvanceChar(p, c) ==
    IF IsNewline(c) THEN [b |-> p.b + 1, l |-> p.l + 1, c |-> 1]
    ELSE [b |-> p.b + Utf8Len(c), l |-> p.l, c |-> p.c + 1]

\* The position of index `to', given that p is the position of index `from'
Advance(s, p, from, to) == FoldLeft(AdvanceChar, p, SubSeq(s, from, to - 1))
=============================================================================
