------------------------------ MODULE MC_Error ------------------------------
(***************************************************************************)
(* What is asked of errors can be done, and a change of anything an error  *)
(* is made of, or tells, is noticed.                                       *)
(***************************************************************************)
EXTENDS Error, Texts

VARIABLES r, changed
vars == <<r, changed>>

Kinds == {"io", "empty", "unmapped", "bad", "tagname", "space", "char", "indent", "close", "beyond", "attr",
          "newline", "equals", "eof"}
X == Cp("x")
Y == Cp("yz")
Values == [kind |-> Kinds, p |-> {<<>>, X}, n |-> {X, Y}, ch |-> {97, 233}, dp |-> {0, 12}, iok |-> {X, Y},
           want |-> {<<0, 1, 1, 0, 1, 1>>, <<0, 1, 1, 3, 1, 4>>}]

Request(k, p, n, ch, dp, io, w) ==
    [kind |-> k, p |-> p, n |-> n, ch |-> ch, dp |-> dp, dps |-> Digits(dp), iok |-> io, want |-> w]

Init == /\ \E k \in Kinds, p \in Values.p, n \in Values.n, ch \in Values.ch, dp \in Values.dp,
              io \in Values.iok, w \in Values.want : r = Request(k, p, n, ch, dp, io, w)
        /\ changed = [f |-> "", r |-> r]
Change == /\ changed.f = ""
          /\ \E f \in DOMAIN Values : \E v \in Values[f] :
                /\ v # r[f]
                /\ LET q == [r EXCEPT ![f] = v] IN changed' = [f |-> f, r |-> [q EXCEPT !.dps = Digits(q.dp)]]
          /\ UNCHANGED r
Spec == Init /\ [][Change]_vars

\* The error as it should be
About(q) ==
    LET v == Variant(q) IN
    CASE HasChar(v) -> <<q.ch>> [] HasDepth(v) -> q.dps [] v = "UnexpectedAttribute" -> q.p \o Cp(":") \o q.n
      [] v \in {"UnmappedPrefix", "BadName", "IoError"} -> q.n [] OTHER -> <<>>
Ideal(q) ==
    LET v == Variant(q)
        base == [e |-> v, held |-> IF HasPlace(v) THEN q.want ELSE <<>>, msg |-> Cp("error ") \o About(q),
                 src |-> IF HasCause(v) THEN <<About(q)>> ELSE <<>>, a |-> About(q), ch |-> q.ch, dp |-> q.dp, iok |-> q.iok,
                 sp |-> q.want]
        gone == (IF HasPlace(v) THEN {} ELSE {"sp"}) \cup (IF HasChar(v) THEN {} ELSE {"ch"})
                \cup (IF HasDepth(v) THEN {} ELSE {"dp"}) \cup (IF HasText(v) THEN {} ELSE {"a"})
                \cup (IF v = "IoError" THEN {} ELSE {"iok"})
    IN [f \in DOMAIN base \ gone |-> base[f]]

Accepts(q, e) == Made(q, e) /\ Told(e) /\ TellsDepth(q, e)

Relevant(q, f) ==
    LET v == Variant(q) IN
    CASE f = "kind" -> TRUE
      [] f = "want" -> HasPlace(v)
      [] f = "ch" -> HasChar(v)
      [] f = "dp" -> HasDepth(v)
      [] f = "n" -> v \in {"UnmappedPrefix", "BadName", "IoError", "UnexpectedAttribute"}
      [] f = "iok" -> v = "IoError"
      [] f = "p" -> FALSE
Optional(q, f) == f = "p" /\ Variant(q) = "UnexpectedAttribute"

Possible == Accepts(r, Ideal(r))
Sensitive == changed.f # "" =>
    \/ Optional(r, changed.f)
    \/ Relevant(r, changed.f) <=> ~Accepts(changed.r, Ideal(r))
\* Nothing can be left out of what is told
Mute == LET e == Ideal(r) IN
        /\ About(r) # <<>> => ~Accepts(r, [e EXCEPT !.msg = Cp("error")])
        /\ "sp" \in DOMAIN e => ~Accepts(r, [f \in DOMAIN e \ {"sp"} |-> e[f]])
=============================================================================
