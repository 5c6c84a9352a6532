----------------------------- MODULE MC_Convert -----------------------------
(***************************************************************************)
(* Converter against a writer of XML: whatever the writer's style, its     *)
(* output is accounted for by the events it was given, and by no others    *)
(* but those that are the same document in XML.                            *)
(***************************************************************************)
EXTENDS Converter

CONSTANT LENGTH  \* number of events

VARIABLES evs,   \* the events
          stk,   \* names of open elements
          out,   \* what a writer has made of them, without a pending bracket
          pend,  \* whether a bracket is pending
          style  \* of the writer
vars == <<evs, stk, out, pend, style>>

N(l) == <<<<>>, <<>>, l>>
NameA == Cp("a")
NameB == Cp("b")
AttrB == <<<<>>, <<>>, NameB, <<60, 39, 34, 38, 10>>>>

Starts == {[k |-> "se", n |-> N(NameA), at |-> <<>>], [k |-> "se", n |-> N(NameB), at |-> <<AttrB>>]}
Leaves == {[k |-> "ct", d |-> d] : d \in {<<>>, NameA, <<32>>, <<60, 38>>, <<93, 93, 62>>}}
          \cup {[k |-> "cm", d |-> d] : d \in {NameA, <<32, 98, 32>>, <<45, 45>>}}

(* The writer *)
Entity(c) ==
    CASE style = "decimal" -> <<38, 35>> \o <<48 + c \div 10, 48 + (c % 10)>> \o <<59>>
      [] OTHER -> CASE c = 60 -> Cp("&lt;") [] c = 62 -> Cp("&gt;") [] c = 38 -> Cp("&amp;") [] c = 39 -> Cp("&apos;")
                    [] c = 34 -> Cp("&quot;") [] OTHER -> Cp("&#xA;")
Esc(t, must) == FoldLeft(LAMBDA acc, c : acc \o (IF c \in must THEN Entity(c) ELSE <<c>>), <<>>, t)
Quote == IF style = "decimal" THEN 39 ELSE 34
Blank == IF style = "plain" THEN <<>> ELSE <<10, 32>>
AfterText == evs # <<>> /\ \E i \in 1..Len(evs) : /\ evs[i].k = "ct" /\ evs[i].d # <<>>
                                                /\ \A j \in i + 1..Len(evs) : evs[j].k = "ct"
Bracket == IF pend THEN Gt ELSE <<>>
Sep == IF AfterText THEN <<>> ELSE Blank

StartText(e) == Lt \o e.n[3] \o FoldLeft(LAMBDA acc, a : acc \o <<32>> \o a[3] \o <<EQUALS, Quote>>
                                                         \o Esc(a[4], {60, 38, Quote, 10}) \o <<Quote>>, <<>>, e.at)
Dashes(t) == IF Hyphens(t) THEN <<45, 32>> ELSE t

Decl == [k |-> "sd", v |-> 110]
Init == /\ style \in {"plain", "indent", "decimal"}
        /\ evs = <<Decl>> /\ stk = <<>> /\ pend = FALSE
        /\ out = Cp("<?xml version='1.1'?>")

Start(e) == /\ e.k = "se"
            /\ out' = out \o Bracket \o Sep \o StartText(e)
            /\ pend' = TRUE
            /\ stk' = Append(stk, e.n)
Finish == /\ stk # <<>>
          /\ out' = out \o (IF pend /\ style # "plain" THEN Cp(" />")
                            ELSE Bracket \o (IF pend THEN <<>> ELSE Sep) \o LtSlash \o stk[Len(stk)][3] \o Gt)
          /\ pend' = FALSE
          /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
Leaf(e) == /\ out' = out \o Bracket \o (IF e.k = "ct" THEN Esc(e.d, {60, 38, 62})
                                        ELSE Sep \o OpenComment \o <<32>> \o Dashes(e.d) \o <<32>> \o CloseComment)
           /\ pend' = FALSE
           /\ UNCHANGED stk

Next == /\ Len(evs) <= LENGTH
        /\ UNCHANGED style
        /\ \/ \E e \in Starts : Start(e) /\ evs' = Append(evs, e)
           \/ Finish /\ evs' = Append(evs, [k |-> "ee", n |-> stk[Len(stk)]])
           \/ \E e \in Leaves : Leaf(e) /\ evs' = Append(evs, e)
Spec == Init /\ [][Next]_vars

(* What is claimed *)
Reads(es, end) == LET c == FoldLeft(LAMBDA s, e : IF s.done = 0 THEN s ELSE After(out, s, e), NothingWritten, es) IN
                  c.done # 0 /\ Accounted(out, After(out, c, [k |-> end]))

Accepted == /\ Reads(evs, "er")
            /\ stk = <<>> => Reads(evs, "ed")

\* Contents that follow each other are one, and comments have no hyphens
RECURSIVE Merged(_)
Merged(es) ==
    IF es = <<>> THEN <<>>
    ELSE LET e == es[Len(es)]
             r == Merged(SubSeq(es, 1, Len(es) - 1))
         IN IF e.k = "ct"
            THEN IF e.d = <<>> THEN r
                 ELSE IF r[Len(r)].k = "ct" THEN [r EXCEPT ![Len(r)].d = @ \o e.d] ELSE Append(r, e)
            ELSE IF e.k = "cm"
            THEN Append(r, [k |-> "cm", d |-> IF Hyphens(e.d) THEN <<>> ELSE Trim(e.d)])
            \* the end of an empty element has no name
            ELSE IF e.k = "ee" THEN Append(r, [k |-> "ee"])
            ELSE Append(r, e)

\* White space alone may as well be the writer's, and so may it be at the end
RightTrim(t) == SubSeq(t, 1, SelectLastInSeq(t, LAMBDA c : ~IsXmlSpace(c)))
Normal(es) ==
    LET m == Merged(es)
        t == IF m[Len(m)].k = "ct" THEN [m EXCEPT ![Len(m)].d = RightTrim(@)] ELSE m
    IN SelectSeq(t, LAMBDA e : e.k # "ct" \/ RightTrim(e.d) # <<>>)

\* Other sequences of events: one event changed, left out or put in
Changes(es) ==
    LET all == Starts \cup Leaves \cup {[k |-> "ee", n |-> N(NameA)], [k |-> "ee", n |-> N(NameB)]} IN
    { [es EXCEPT ![i] = e] : i \in 2..Len(es), e \in all }
    \cup { SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es)) : i \in 2..Len(es) }
    \cup { SubSeq(es, 1, i) \o <<e>> \o SubSeq(es, i + 1, Len(es)) : i \in 1..Len(es), e \in all }
    \cup { [es EXCEPT ![1].v = 100] }

OnlyThese == stk = <<>> => \A es \in Changes(evs) : Reads(es, "ed") => Normal(es) = Normal(evs)
=============================================================================
