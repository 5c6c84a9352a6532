------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* Escaping of text for XML, and expansion of references.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Texts, TLC

Bit(mask, b) == (mask \div b) % 2 = 1

Amp == Cp("&amp;")
Lt == Cp("&lt;")
Gt == Cp("&gt;")
Quot == Cp("&quot;")
Apos == Cp("&apos;")
LfRef == Cp("&#xA;")
CrRef == Cp("&#xD;")

\* What character c is replaced by, <<>> if it is kept.  & and < always are;
\* the caller selects the others.
Replacement(c, mask) ==
    CASE c = 38 -> Amp
      [] c = 60 -> Lt
      [] c = 34 /\ Bit(mask, 1) -> Quot
      [] c = 39 /\ Bit(mask, 2) -> Apos
      [] c = 62 /\ Bit(mask, 4) -> Gt
      [] c = 10 /\ Bit(mask, 8) -> LfRef
      [] c = 13 /\ Bit(mask, 16) -> CrRef
      [] OTHER -> <<>>

NeedsEscape(t, mask) == \E i \in 1..Len(t) : Replacement(t[i], mask) # <<>>

EscapeChar(c, mask) == LET r == Replacement(c, mask) IN IF r = <<>> THEN <<c>> ELSE r

EscapeText(t, mask) == FoldLeft(LAMBDA acc, c : acc \o EscapeChar(c, mask), <<>>, t)

(***************************************************************************)
(* References: & and what follows up to the first ; with no & between.     *)
(***************************************************************************)
Digit(c) == IF c \in 48..57 THEN c - 48
            ELSE IF c \in 97..102 THEN c - 87
            ELSE IF c \in 65..70 THEN c - 55
            ELSE 99

IsNumber(t, base) == t # <<>> /\ \A i \in 1..Len(t) : Digit(t[i]) < base

\* The value, or something above all characters if it is larger
TooLarge == 1114112
Value(t, base) ==
    FoldLeft(LAMBDA v, c : IF v >= TooLarge THEN TooLarge ELSE v * base + Digit(c), 0, t)

IsScalar(v) == v < TooLarge /\ v \notin 55296..57343

\* The entities of XML, in lower or in upper case
XmlEntities ==
    (Cp("amp") :> 38) @@ (Cp("lt") :> 60) @@ (Cp("gt") :> 62) @@ (Cp("apos") :> 39) @@ (Cp("quot") :> 34) @@
    (Cp("AMP") :> 38) @@ (Cp("LT") :> 60) @@ (Cp("GT") :> 62) @@ (Cp("APOS") :> 39) @@ (Cp("QUOT") :> 34)

\* The character a reference with this text between & and ; stands for, or -1
Denotes(body, named) ==
    IF body \in DOMAIN named THEN named[body]
    ELSE IF body = <<>> \/ body[1] # 35 THEN -1
    ELSE LET hex == Len(body) > 1 /\ body[2] = 120
             num == SubSeq(body, IF hex THEN 3 ELSE 2, Len(body))
             base == IF hex THEN 16 ELSE 10
         IN IF IsNumber(num, base) /\ IsScalar(Value(num, base)) THEN Value(num, base) ELSE -1

\* [e, c]: a reference to c starts at i and ends before e; c = -1 if none does
ReferenceAt(t, i, named) ==
    LET j == IF i < Len(t) THEN SelectInSubSeq(t, i + 1, Len(t), LAMBDA c : c \in {38, 59}) ELSE 0 IN
    IF t[i] # 38 \/ j = 0 \/ t[j] # 59 THEN [e |-> i + 1, c |-> -1]
    ELSE LET c == Denotes(SubSeq(t, i + 1, j - 1), named) IN
         [e |-> IF c = -1 THEN i + 1 ELSE j + 1, c |-> c]

\* [r, n]: the expanded text and the number of references replaced
RECURSIVE ExpandFrom(_, _, _, _)
ExpandFrom(t, i, named, acc) ==
    IF i > Len(t) THEN acc
    ELSE LET ref == ReferenceAt(t, i, named) IN
         IF ref.c = -1 THEN ExpandFrom(t, i + 1, named, [acc EXCEPT !.r = Append(@, t[i])])
         ELSE ExpandFrom(t, ref.e, named, [r |-> Append(acc.r, ref.c), n |-> acc.n + 1])

Expand(t, named) == ExpandFrom(t, 1, named, [r |-> <<>>, n |-> 0])
=============================================================================
