------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a user may rely on in any sequence of events, whatever the text.   *)
(*                                                                         *)
(* A monitor reads the events one by one; Follow(m, e) is its next state,  *)
(* whose field `why' is "" as long as nothing is wrong.  `dev' names a     *)
(* departure that is known from the implementation (see the file           *)
(* known-findings.txt) and after which the rest can still be judged.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

StreamInit == [ph |-> "start", st |-> <<>>, roots |-> 0, why |-> "", dev |-> ""]

Reject(m, why) == [m EXCEPT !.why = why]

Follow(m0, e) ==
    LET m == [m0 EXCEPT !.dev = ""] IN
    CASE m.ph = "start" ->
            IF e.k = "sd" THEN [m EXCEPT !.ph = "open"]
            ELSE IF e.k = "er" THEN [m EXCEPT !.ph = "error"]
            ELSE Reject(m, "the first event is not the start of the document")
      [] m.ph = "open" /\ e.k = "sd" -> Reject(m, "second start of the document")
      [] m.ph = "open" /\ e.k = "se" ->
            [m EXCEPT !.st = Append(@, e.n),
                      !.roots = IF m.st = <<>> THEN @ + 1 ELSE @,
                      !.dev = IF m.st = <<>> /\ m.roots > 0 THEN "second-root" ELSE ""]
      [] m.ph = "open" /\ e.k = "ee" ->
            IF m.st = <<>> THEN Reject(m, "end without an open element")
            ELSE IF m.st[Len(m.st)] # e.n THEN Reject(m, "end of another element")
            ELSE [m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
      [] m.ph = "open" /\ e.k = "ct" ->
            [m EXCEPT !.dev = IF m.st = <<>> THEN "content-outside-element" ELSE ""]
      [] m.ph = "open" /\ e.k \in {"cm", "pi"} -> m
      [] m.ph = "open" /\ e.k = "ed" ->
            IF m.st # <<>> THEN Reject(m, "end of the document inside an element")
            ELSE [m EXCEPT !.ph = "ended", !.dev = IF m.roots = 0 THEN "no-root" ELSE ""]
      [] m.ph = "open" /\ e.k = "er" ->
            IF e.e = "BeyondEndOfTokens" THEN Reject(m, "beyond-end error before the end")
            ELSE [m EXCEPT !.ph = "error"]
      [] m.ph = "ended" ->
            IF e.k = "er" /\ e.e = "BeyondEndOfTokens" THEN m
            ELSE Reject(m, "something other than the beyond-end error after the end")
      \* nothing is promised after an error except that calls return
      [] m.ph = "error" -> m
      [] OTHER -> Reject(m, "not an event")
=============================================================================
