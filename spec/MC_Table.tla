------------------------------ MODULE MC_Table ------------------------------
(***************************************************************************)
(* Every way a table may hand out identifiers for a few texts.             *)
(***************************************************************************)
EXTENDS Table, Texts, FiniteSets

CONSTANTS IDS, TEXTS

VARIABLES tab, handed    \* handed: every pair of text and identifier ever returned

Some == { SubSeq(Cp("abcdefgh"), i, i) : i \in 1..TEXTS } \cup {<<>>}

Init == tab = EmptyTable /\ handed = {}
Intern == \E s \in Some, i \in 0..IDS :
            /\ Consistent(tab, s, i)
            /\ tab' = Learn(tab, s, i)
            /\ handed' = handed \cup {<<s, i>>}
Refuse == \E s \in Some : tab' = Perhaps(tab, s) /\ UNCHANGED handed
Spec == Init /\ [][Intern \/ Refuse]_<<tab, handed>>

Unique == Injective(tab)
\* Equal texts have equal identifiers and different texts different ones
Same == \A x, y \in handed : x[1] = y[1] <=> x[2] = y[2]
None == \A x \in handed : x[1] = <<>> <=> x[2] = 0
Converse == \A s \in DOMAIN tab.ids : tab.texts[tab.ids[s]] = s
\* A text is found if it was added, and only if some call was given it
Findable == \A s \in Some : /\ (\E x \in handed : x[1] = s) => MustFind(tab, s)
                            /\ MustFind(tab, s) => MayFind(tab, s)
Stable == [][ \A s \in DOMAIN tab.ids : tab'.ids[s] = tab.ids[s] ]_<<tab, handed>>
=============================================================================
