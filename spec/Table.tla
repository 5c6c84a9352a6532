------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Interning of texts: one table each for prefixes, URIs and names.        *)
(*                                                                         *)
(* Identifiers are numbers from 1, in no particular order; 0 is the none   *)
(* identifier.  The specification does not choose identifiers, it learns   *)
(* the one the implementation hands out for a text when it first sees it   *)
(* and then insists on it.                                                 *)
(*     ids    text -> identifier, as far as known                          *)
(*     texts  the converse                                                 *)
(*     added  texts that have been added                                   *)
(*     maybe  texts that a refused call may have added                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

EmptyTable == [ids |-> <<>>, texts |-> <<>>, added |-> {}, maybe |-> {}]

\* May text s have identifier i?
Consistent(tab, s, i) ==
    IF s = <<>> THEN i = 0
    ELSE /\ i # 0
         /\ IF s \in DOMAIN tab.ids THEN tab.ids[s] = i ELSE i \notin DOMAIN tab.texts

Learn(tab, s, i) ==
    IF s = <<>> THEN tab
    ELSE IF s \in DOMAIN tab.ids /\ s \in tab.added THEN tab
    ELSE [tab EXCEPT !.ids = (s :> i) @@ @, !.texts = (i :> s) @@ @, !.added = @ \cup {s}]

Added(tab, s) == IF s = <<>> THEN tab ELSE [tab EXCEPT !.added = @ \cup {s}]
Perhaps(tab, s) == IF s = <<>> THEN tab ELSE [tab EXCEPT !.maybe = @ \cup {s}]

\* Must, or may, looking up s find something?
MustFind(tab, s) == s = <<>> \/ s \in tab.added
MayFind(tab, s) == MustFind(tab, s) \/ s \in tab.maybe

Injective(tab) == \A s, t \in DOMAIN tab.ids : tab.ids[s] = tab.ids[t] => s = t
=============================================================================
