----------------------------- MODULE Backslash -----------------------------
(***************************************************************************)
(* Backslash escapes of HML strings:                                       *)
(*     \0 \t \r \n \' \" \\   \xHH (up to 7F)   \u{H} to \u{HHHHHH}         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Texts

Hex(c) == IF c \in 48..57 THEN c - 48
          ELSE IF c \in 97..102 THEN c - 87
          ELSE IF c \in 65..70 THEN c - 55
          ELSE -1
AllHex(t) == \A i \in 1..Len(t) : Hex(t[i]) # -1
HexValue(t) == FoldLeft(LAMBDA v, c : v * 16 + Hex(c), 0, t)
IsScalar(v) == v < 1114112 /\ v \notin 55296..57343

No == [e |-> 0, c |-> 0]

Simple(c) ==
    CASE c = 48 -> 0
      [] c = 116 -> 9
      [] c = 114 -> 13
      [] c = 110 -> 10
      [] c = 39 -> 39
      [] c = 34 -> 34
      [] c = 92 -> 92
      [] OTHER -> -1

\* The escape whose backslash is at i: its character and its end, or No
EscapeAt(t, i) ==
    IF i + 1 > Len(t) THEN No
    ELSE IF Simple(t[i + 1]) # -1 THEN [e |-> i + 2, c |-> Simple(t[i + 1])]
    ELSE IF t[i + 1] = 120
    THEN LET h == SubSeq(t, i + 2, i + 3) IN
         IF i + 3 > Len(t) \/ ~AllHex(h) \/ HexValue(h) > 127 THEN No
         ELSE [e |-> i + 4, c |-> HexValue(h)]
    ELSE IF t[i + 1] = 117 /\ i + 2 <= Len(t) /\ t[i + 2] = 123
    THEN LET j == SelectInSubSeq(t, i + 3, Len(t), LAMBDA c : c = 125)
             h == SubSeq(t, i + 3, j - 1)
         IN IF i + 3 > Len(t) \/ j = 0 \/ Len(h) \notin 1..6 THEN No
            ELSE IF ~AllHex(h) \/ ~IsScalar(HexValue(h)) THEN No
            ELSE [e |-> j + 1, c |-> HexValue(h)]
    ELSE No

\* [ok, r]
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(t, i, r) ==
    IF i > Len(t) THEN [ok |-> TRUE, r |-> r]
    ELSE IF t[i] # 92 THEN DecodeFrom(t, i + 1, Append(r, t[i]))
    ELSE LET x == EscapeAt(t, i) IN
         IF x.e = 0 THEN [ok |-> FALSE, r |-> <<>>]
         ELSE DecodeFrom(t, x.e, Append(r, x.c))

Decode(t) == DecodeFrom(t, 1, <<>>)
=============================================================================
