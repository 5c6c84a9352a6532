---------------------------- MODULE MC_Backslash ----------------------------
(***************************************************************************)
(* Decoding of every short text built from fragments of escapes.           *)
(***************************************************************************)
EXTENDS Backslash
CONSTANT MAXLEN
Fragments == {<<92>>, Cp("0"), Cp("n"), Cp("x"), Cp("u"), Cp("{"), Cp("}"), Cp("4"), Cp("f"), Cp("\\u{"),
              Cp("D8"), Cp("10FFFF"), <<233>>, Cp("'")}
VARIABLES t, n
Init == t = <<>> /\ n = 0
Grow == n < MAXLEN /\ n' = n + 1 /\ \E f \in Fragments : t' = t \o f
Spec == Init /\ [][Grow]_<<t, n>>

\* An inverse: every text can be written so that decoding gives it back
Encode(s) == FoldLeft(LAMBDA acc, c : acc \o (IF c = 92 THEN <<92, 92>> ELSE IF c = 10 THEN <<92, 110>> ELSE <<c>>),
                      <<>>, s)
Reversible == Decode(Encode(t)) = [ok |-> TRUE, r |-> t]
Plain == (\A i \in 1..Len(t) : t[i] # 92) => Decode(t) = [ok |-> TRUE, r |-> t]
\* Decoding works piece by piece: a text that decodes can be followed by any
Compositional == \A f \in Fragments :
    Decode(t).ok => Decode(t \o f).ok = Decode(f).ok
                    /\ (Decode(f).ok => Decode(t \o f).r = Decode(t).r \o Decode(f).r)
\* A text that is refused because it is cut off can only be saved by more text;
\* other escapes stay refused
OnlyScalars == Decode(t).ok => \A i \in 1..Len(Decode(t).r) : IsScalar(Decode(t).r[i])
=============================================================================
