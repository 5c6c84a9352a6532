------------------------------- MODULE Error --------------------------------
(***************************************************************************)
(* Errors, and what they say of themselves.                                *)
(*                                                                         *)
(* A request r to make an error has: kind, p and n (a prefix and a name,   *)
(* the latter also the text of a cause), iok (the kind of an IO error),    *)
(* ch, dp, dps (dp in digits), want (the span).  A recorded error e has e  *)
(* (its kind), a, ch, dp or iok (what it is about), held (the span it      *)
(* holds), sp (what span() says, if anything), msg (its message) and src   *)
(* (the message of its cause).                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

\* What an error made on request r is
Variant(r) ==
    CASE r.kind \in {"io", "iores"} -> "IoError"
      [] r.kind = "empty" -> "EmptyName"
      [] r.kind = "unmapped" -> "UnmappedPrefix"
      [] r.kind = "bad" -> "BadName"
      [] r.kind = "tagname" -> "ExpectedTagName"
      [] r.kind = "space" -> "ExpectedWhitespaceAfterTag"
      [] r.kind \in {"char", "lexer"} -> "UnexpectedCharacter"
      [] r.kind = "indent" -> "UnexpectedTagIndent"
      [] r.kind = "close" -> "UnexpectedCloseTag"
      [] r.kind = "beyond" -> "BeyondEndOfTokens"
      [] r.kind = "attr" -> "UnexpectedAttribute"
      [] r.kind = "newline" -> "UnexpectedNewlineInQuotedString"
      [] r.kind = "equals" -> "ExpectedEquals"
      [] r.kind = "eof" -> "UnexpectedEOF"

Variants == {"IoError", "EmptyName", "UnmappedPrefix", "BadName", "ExpectedTagName", "ExpectedWhitespaceAfterTag",
             "UnexpectedCharacter", "UnexpectedTagIndent", "UnexpectedCloseTag", "BeyondEndOfTokens",
             "UnexpectedAttribute", "UnexpectedNewlineInQuotedString", "ExpectedEquals", "UnexpectedEOF"}

HasChar(v) == v \in {"UnexpectedCharacter", "ExpectedEquals"}
HasText(v) == v \in {"UnmappedPrefix", "BadName", "UnexpectedAttribute"}
HasDepth(v) == v = "UnexpectedTagIndent"
HasCause(v) == v \in {"IoError", "EmptyName", "UnmappedPrefix", "BadName"}
HasPlace(v) == v # "BeyondEndOfTokens"

\* Text t occurs in s
Occurs(t, s) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t

\* An attribute is named by its prefix, if any, and its name
Names(a, p, n) == Occurs(p, a) /\ Occurs(n, a) /\ IsSuffix(n, a)

\* The error holds what was asked for
Made(r, e) ==
    LET v == Variant(r) IN
    /\ e.e = v
    /\ HasChar(v) => e.ch = r.ch
    /\ HasDepth(v) => e.dp = r.dp
    /\ v = "UnexpectedAttribute" => Names(e.a, r.p, r.n)
    /\ v \in {"UnmappedPrefix", "BadName"} => e.a = r.n
    /\ HasPlace(v) => e.held = (IF r.kind = "lexer" THEN SubSeq(r.want, 1, 3) \o SubSeq(r.want, 1, 3) ELSE r.want)
    /\ v = "IoError" => e.src = <<r.n>> /\ e.iok = r.iok

\* The error tells what it holds
Told(e) ==
    /\ IF HasPlace(e.e) THEN "sp" \in DOMAIN e /\ e.sp = e.held ELSE "sp" \notin DOMAIN e
    /\ e.msg # <<>>
    /\ HasChar(e.e) => Occurs(<<e.ch>>, e.msg)
    /\ HasText(e.e) => Occurs(e.a, e.msg)
    /\ Len(e.src) = (IF HasCause(e.e) THEN 1 ELSE 0)
    /\ HasCause(e.e) => Occurs(e.src[1], e.msg)

\* The depth in digits
TellsDepth(r, e) == HasDepth(e.e) => Occurs(r.dps, e.msg)

RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))
=============================================================================
