----------------------------- MODULE Converter ------------------------------
(***************************************************************************)
(* The converter: the events of a document as XML text.                    *)
(*                                                                         *)
(* A state of the comparison has `done', the position in the output o up   *)
(* to which it is accounted for, 0 if the output has been found wrong; an  *)
(* element's start tag is left without its bracket (`half') until it is    *)
(* known whether the element is empty.  White space may be put between two *)
(* pieces of markup, but not next to character content, where it would     *)
(* become part of it.                                                      *)
(***************************************************************************)
EXTENDS XmlText

\* wrote: "nothing", "markup" or "text"
NothingWritten == [done |-> 1, half |-> FALSE, wrote |-> "nothing"]

\* Where the next piece starts: after a bracket that may be missing
Closed(o, c) == IF c.half THEN TagEnd(o, c.done) ELSE c.done

\* Where the next piece of markup starts
Markup(o, c) == LET i == Closed(o, c) IN IF c.wrote = "text" THEN i ELSE Gap(o, i)

Wrote(e, h) == [done |-> e, half |-> h, wrote |-> "markup"]

\* The state after event e, in state c
After(o, c, e) ==
    CASE e.k = "sd" -> Wrote(Declaration(o, c.done, e.v), FALSE)
      [] e.k = "se" -> Wrote(OpenTag(o, Markup(o, c), e.n, e.at), TRUE)
      [] e.k = "ee" -> LET x == IF c.half THEN EmptyTagEnd(o, c.done) ELSE 0 IN
                       Wrote(IF x # 0 THEN x ELSE CloseTag(o, Markup(o, c), e.n), FALSE)
      [] e.k = "cm" -> Wrote(CommentText(o, Markup(o, c), e.d), FALSE)
      \* empty content need not be written
      [] e.k = "ct" -> IF e.d = <<>> THEN c
                       ELSE [done |-> Chardata(o, Closed(o, c), e.d), half |-> FALSE, wrote |-> "text"]
      [] e.k = "ed" -> [c EXCEPT !.done = Gap(o, @)]
      \* At a fault the last start tag may be without its bracket
      [] e.k = "er" -> [c EXCEPT !.done = Gap(o, IF c.half THEN Optionally(@, TagEnd(o, @)) ELSE @)]

\* Nothing is left after the last event
Accounted(o, c) == c.done = Len(o) + 1
=============================================================================
