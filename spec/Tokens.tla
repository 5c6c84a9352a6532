------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* The lexer as a client sees it who iterates over its tokens.             *)
(*                                                                         *)
(* A token covers the text from where the one before it ended.  Next to    *)
(* what Lexer says of the constructs, whitespace may be given in one token *)
(* or in several: Ends(s, i) are the positions at which the token at i may *)
(* end, none if there is an error.                                         *)
(***************************************************************************)
EXTENDS Lexer

EndsOf(t, i) ==
    CASE t.k = "er" -> {}
      [] t.k = "ws" -> (i + 1)..t.e
      [] OTHER      -> {t.e}
Ends(s, i) == EndsOf(LexAt(s, i), i)

Depth(t) == IF t.k \in {"op", "cl"} THEN t.dp ELSE 0
Boxed(t) == t.k = "op" /\ t.box
Kind(t) == IF t.k # "ct" THEN t.k ELSE IF t.raw THEN "raw" ELSE "int"

\* The strings a token holds
Holds(t) ==
    CASE t.k = "ws" -> <<>>
      [] t.k = "cm" -> t.lines
      [] t.k = "ct" -> <<t.d>>
      [] t.k \in {"op", "cl"} -> <<t.p, t.n>>
      [] t.k = "at" -> <<t.p, t.n, t.v>>
=============================================================================
