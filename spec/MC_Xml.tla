------------------------------- MODULE MC_Xml -------------------------------
(***************************************************************************)
(* The conversion to XML events keeps events apart: no XML event is a      *)
(* right conversion of two events that differ in what XML can express.     *)
(* And the same for events as their accessors present them.                *)
(***************************************************************************)
EXTENDS Xml, Event, Texts, TLC

CONSTANT ATTRS   \* length of attribute lists

P == {<<>>, Cp("p")}
U == {<<>>, Cp("u")}
L == {Cp("a"), Cp("b")}
D == {<<>>, Cp("x"), Cp("y")}

NamesOf == { <<p, u, l>> : p \in P, u \in U, l \in L }
AttrsOf == UNION { [1..n -> { <<p, <<>>, l, v>> : p \in P, l \in L, v \in {<<>>, Cp("x")} }] : n \in 0..ATTRS }

Docs == { [k |-> "sd", v |-> v] : v \in {100, 110} } \cup { [k |-> "ed"] }
Starts == { [k |-> "se", n |-> n, at |-> at] : n \in NamesOf, at \in AttrsOf }
Ends == { [k |-> "ee", n |-> n] : n \in NamesOf }
Contents == { [k |-> "ct", ct |-> ct, d |-> d] : ct \in {"raw", "int", "ws"}, d \in D }
Comments == { [k |-> "cm", d |-> d] : d \in D }
Pis == { [k |-> "pi", pn |-> l] : l \in L } \cup { [k |-> "pi", pn |-> l, d |-> d] : l \in L, d \in D }

XName(n) == [p |-> Opt(n[1]), u |-> <<>>, l |-> n[3]]
XAttrs(at) == [i \in 1..Len(at) |-> [n |-> XName(at[i]), v |-> at[i][4]]]

\* The plain conversion
Common(e) ==
    CASE e.k = "sd" -> [k |-> "sd", v |-> IF e.v = 100 THEN "1.0" ELSE "1.1"]
      [] e.k = "se" -> [k |-> "se", n |-> XName(e.n), at |-> XAttrs(e.at)]
      [] e.k = "pi" -> [k |-> "pi", pn |-> e.pn, d |-> Optional(e)]
      [] OTHER -> [k |-> e.k, d |-> e.d]
Writer(e) == CASE e.k = "ed" -> [k |-> "none"]
               [] e.k = "ee" -> [k |-> "ee", n |-> <<XName(e.n)>>]
               [] OTHER -> Common(e)
Reading(e) == CASE e.k = "ed" -> [k |-> "ed"]
                [] e.k = "ee" -> [k |-> "ee", n |-> XName(e.n)]
                [] OTHER -> Common(e)

\* What of an event XML can express
NoUri(n) == <<n[1], n[3]>>
Essence(e) ==
    CASE e.k = "se" -> [k |-> "se", n |-> NoUri(e.n), at |-> [i \in 1..Len(e.at) |-> <<e.at[i][1], e.at[i][3], e.at[i][4]>>]]
      [] e.k = "ee" -> [k |-> "ee", n |-> NoUri(e.n)]
      [] e.k = "ct" -> [k |-> "ct", d |-> e.d]
      [] OTHER -> e

VARIABLES a, b, ev
vars == <<a, b, ev>>
Groups == {Docs, Starts, Ends, Contents, Comments, Pis}
\* Pairs of one kind, and pairs of different kinds with one representative each
Init == /\ \/ \E g \in Groups : a \in g
           \/ a = [k |-> "ed"]
        /\ b = a
        /\ ev = 0
Pick == /\ ev = 0 /\ ev' = 1
        /\ \/ \E g \in Groups : a \in g /\ b' \in g
           \/ \E g \in Groups : b' = CHOOSE x \in g : TRUE
        /\ UNCHANGED a
Spec == Init /\ [][Pick]_vars

Converts == ForWriter(a, Writer(a)) /\ FromReader(a, Reading(a))
Distinguishes == /\ (Essence(a) # Essence(b) /\ a.k = b.k) => ~ForWriter(b, Writer(a)) /\ ~FromReader(b, Reading(a))
                 /\ a.k # b.k => ~ForWriter(b, Writer(a)) /\ ~FromReader(b, Reading(a))
=============================================================================
