------------------------------ MODULE MC_Chars ------------------------------
(***************************************************************************)
(* The lexer uses of a character beyond ASCII only which classes it is in. *)
(*                                                                         *)
(* At every place of every short text a character has the same tokens, but *)
(* for itself, as the one that stands for its class.  This is what lets    *)
(* Trace_Chars decide all characters by five of them.                      *)
(***************************************************************************)
EXTENDS Lexer, Texts, FiniteSets

CONSTANTS LENGTH,  \* length of the texts
          SIGNS    \* ASCII characters of the texts

VARIABLES txt, ch
vars == <<txt, ch>>

\* Stands for the place of the character
HOLE == 0

Chosen == {128, 133, 160, 183, 191, 192, 215, 247, 255, 768, 879, 880, 894, 895, 5760, 8191, 8192, 8202, 8203, 8204, 8232, 8233,
           8239, 8255, 8256, 8287, 8288, 8304, 8592, 12288, 12289, 55295, 57344, 65279, 65533, 65534, 65536, 983039, 983040, 1114111}

Stand(c) == IF IsNameStart(c) THEN IF IsWhitespace(c) THEN 5760 ELSE 233
            ELSE IF IsNameChar(c) THEN 183
            ELSE IF IsWhitespace(c) THEN 160 ELSE 215

Fill(t, c) == [i \in 1..Len(t) |-> IF t[i] = HOLE THEN c ELSE t[i]]
Blank(t, c) == [i \in 1..Len(t) |-> IF t[i] = c THEN HOLE ELSE t[i]]

RECURSIVE Tokens(_, _)
Tokens(s, i) == IF i > Len(s) THEN <<>>
                ELSE LET t == LexAt(s, i) IN
                     IF t.k = "er" THEN <<t>> ELSE <<t>> \o Tokens(s, t.e)

BlankToken(t, c) ==
    [f \in DOMAIN t |->
        CASE f \in {"p", "n", "v", "d"} -> Blank(t[f], c)
          [] f = "lines" -> [i \in 1..Len(t[f]) |-> Blank(t[f][i], c)]
          [] f = "ch" -> IF t[f] = c THEN HOLE ELSE t[f]
          [] OTHER -> t[f]]

Read(t, c) == LET r == Tokens(Fill(t, c), 1) IN [i \in 1..Len(r) |-> BlankToken(r[i], c)]

Init == txt = <<>> /\ ch \in Chosen
Grow == /\ Len(txt) < LENGTH
        /\ \E c \in SIGNS \cup {HOLE} : txt' = Append(txt, c)
        /\ UNCHANGED ch
Spec == Init /\ [][Grow]_vars

Uniform == Read(txt, ch) = Read(txt, Stand(ch))
=============================================================================
