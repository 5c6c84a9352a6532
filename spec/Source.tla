------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* The reader on a source of the client's own.                             *)
(*                                                                         *)
(* A source is a sequence of items, given one at each request: a token,    *)
(* an error ([k |-> "er", ...]) or the end ([k |-> "end"]).  After the     *)
(* last item it is at its end.  Tokens may come from several texts, with   *)
(* or without the blanks between them.                                     *)
(***************************************************************************)
EXTENDS Parser

\* A source gives item x
GiveToken(x) == x.k \notin {"er", "end"} /\ Pull(x)
\* Its error is the client's, exactly as it is
GiveError(x) == x.k = "er" /\ PullError([k |-> "er", given |-> x])
GiveEnd(x) == x.k = "end" /\ Pull([k |-> "eof", sp |-> At(tpos)])

Give(x) == GiveToken(x) \/ GiveError(x) \/ GiveEnd(x)

\* What was emitted is an error of the source and not one of the reader
OfSource(ev) == ev.k = "er" /\ "given" \in DOMAIN ev
=============================================================================
