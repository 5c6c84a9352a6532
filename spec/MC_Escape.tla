----------------------------- MODULE MC_Escape -----------------------------
(***************************************************************************)
(* Escaping and expansion on every short text.                             *)
(***************************************************************************)
EXTENDS Escape

CONSTANTS ALPHA, MAXLEN

\* The second alphabet reaches references within few characters: its letters
\* are fragments
Fragments ==
    CASE ALPHA = "escape" -> {<<38>>, <<60>>, <<62>>, <<34>>, <<39>>, <<10>>, <<13>>, <<97>>, <<59>>, <<8364>>}
      [] ALPHA = "expand" -> {<<38>>, <<35>>, <<120>>, <<59>>, Cp("amp"), Cp("lt"), Cp("A"), Cp("41"),
                              Cp("&#38;"), Cp("D800"), Cp("10FFFF"), <<233>>}

VARIABLES t, mask
vars == <<t, mask>>

Init == t = <<>> /\ mask \in (IF ALPHA = "escape" THEN 0..31 ELSE {0, 31})
VARIABLE n
Grow == n < MAXLEN /\ n' = n + 1 /\ \E f \in Fragments : t' = t \o f /\ UNCHANGED mask
Spec == Init /\ n = 0 /\ [][Grow]_<<vars, n>>

Escaped == EscapeText(t, mask)

\* Expanding what was escaped gives the original, also without the names if
\* only numeric references were needed
RoundTrip == Expand(Escaped, XmlEntities).r = t
\* Exactly the selected characters disappear
Chosen == {38, 60} \cup (IF Bit(mask, 1) THEN {34} ELSE {}) \cup (IF Bit(mask, 2) THEN {39} ELSE {})
          \cup (IF Bit(mask, 4) THEN {62} ELSE {}) \cup (IF Bit(mask, 8) THEN {10} ELSE {})
          \cup (IF Bit(mask, 16) THEN {13} ELSE {})
Unchanged == NeedsEscape(t, mask) <=> Escaped # t
NoneLeft == \A i \in 1..Len(Escaped) : Escaped[i] \in Chosen => Escaped[i] = 38
EveryAmpersandStartsAReference ==
    \A i \in 1..Len(Escaped) : Escaped[i] = 38 => ReferenceAt(Escaped, i, XmlEntities).c # -1

\* Without a complete reference nothing changes
NothingToExpand == (\A i \in 1..Len(t) : t[i] # 38 \/ ReferenceAt(t, i, XmlEntities).c = -1)
                   => Expand(t, XmlEntities) = [r |-> t, n |-> 0]
\* Each replaced reference is at least four characters shorter... and the
\* characters outside references stay in order
Counts == LET x == Expand(t, XmlEntities) IN x.n = 0 <=> x.r = t
\* Disabling names leaves at least as many references alone
Fewer == Expand(t, <<>>).n <= Expand(t, XmlEntities).n
=============================================================================
