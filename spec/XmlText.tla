------------------------------ MODULE XmlText -------------------------------
(***************************************************************************)
(* XML as text.                                                            *)
(*                                                                         *)
(* The operators say how far a piece of XML reaches in a text: given the   *)
(* text o and a position i they return the position after the piece, or 0  *)
(* if it is not there.  Position 0 has no pieces, so they can be chained.  *)
(* What XML leaves to the writer is left open: which quotes are used,      *)
(* which characters are written as references, white space inside tags and *)
(* the form of empty elements.                                             *)
(***************************************************************************)
EXTENDS Chars, Texts

Lt == Cp("<")
Gt == Cp(">")
LtSlash == Cp("</")
SlashGt == Cp("/>")
OpenComment == Cp("<!--")
CloseComment == Cp("-->")
OpenCdata == Cp("<![CDATA[")
CloseCdata == Cp("]]>")
DoubleDash == Cp("--")
OpenDecl == Cp("<?xml")
OpenPi == Cp("<?")
ClosePi == Cp("?>")
WordVersion == Cp("version")
WordEncoding == Cp("encoding")
WordStandalone == Cp("standalone")
OneNought == Cp("1.0")
OneOne == Cp("1.1")
Utf8Names == {Cp("UTF-8"), Cp("utf-8")}
YesNo == {Cp("yes"), Cp("no")}

IsXmlSpace(c) == c \in {9, 10, 13, 32}

\* Literally text t
Lit(o, i, t) ==
    IF i = 0 \/ i + Len(t) - 1 > Len(o) THEN 0
    ELSE IF SubSeq(o, i, i + Len(t) - 1) = t THEN i + Len(t) ELSE 0

\* Any white space, and at least one
Gap(o, i) == IF i = 0 THEN 0 ELSE First(o, i, LAMBDA c : ~IsXmlSpace(c))
Space(o, i) == LET e == Gap(o, i) IN IF e = i THEN 0 ELSE e

(* References *)
Named == [lt |-> 60, gt |-> 62, amp |-> 38, quot |-> 34, apos |-> 39]
NamedText == [n \in DOMAIN Named |-> Cp(n)]

Digit(c, base) ==
    IF c \in 48..57 THEN c - 48
    ELSE IF base = 16 /\ c \in 65..70 THEN c - 55
    ELSE IF base = 16 /\ c \in 97..102 THEN c - 87
    ELSE -1

NumberOf(t, base) ==
    IF t = <<>> \/ Len(t) > 7 THEN -1
    ELSE FoldLeft(LAMBDA n, c : IF n < 0 \/ Digit(c, base) < 0 THEN -1 ELSE n * base + Digit(c, base), 0, t)

\* The character a reference body stands for, or -1
Denotes(b) ==
    IF b # <<>> /\ b[1] = HASH
    THEN IF Len(b) > 1 /\ b[2] = 120 THEN NumberOf(SubSeq(b, 3, Len(b)), 16)
         ELSE NumberOf(SubSeq(b, 2, Len(b)), 10)
    ELSE IF \E n \in DOMAIN Named : NamedText[n] = b
    THEN Named[CHOOSE n \in DOMAIN Named : NamedText[n] = b]
    ELSE -1

\* One character, itself or a reference; those in `must' have to be references
OneChar(o, i, c, must) ==
    IF i = 0 \/ i > Len(o) THEN 0
    ELSE IF o[i] = AMP
    THEN LET e == First(o, i, LAMBDA x : x = SEMI) IN
         IF e <= Len(o) /\ e - i <= 12 /\ Denotes(Text(o, i + 1, e)) = c THEN e + 1 ELSE 0
    ELSE IF o[i] = c /\ c \notin must THEN i + 1 ELSE 0

Escaped(o, i, t, must) == FoldLeft(LAMBDA e, c : OneChar(o, e, c, must), i, t)

\* Character content t, possibly as a CDATA section
Chardata(o, i, t) ==
    LET e == Escaped(o, i, t, {60, AMP}) IN
    IF e # 0 THEN e ELSE Lit(o, i, OpenCdata \o t \o CloseCdata)

Quoted(o, i, Body(_, _)) ==
    IF i = 0 \/ i > Len(o) \/ ~IsQuote(o[i]) THEN 0
    ELSE Lit(o, Body(i + 1, o[i]), <<o[i]>>)

\* name = "value"
Assign(o, i, name, Body(_, _)) ==
    Quoted(o, Gap(o, Lit(o, Gap(o, Lit(o, i, name)), <<EQUALS>>)), Body)

\* [p, n, v] attributes in order, each after white space
QName(p, n) == IF p = <<>> THEN n ELSE p \o <<COLON>> \o n

AttributesText(o, i, at) ==
    FoldLeft(LAMBDA e, a : Assign(o, Space(o, e), QName(a[1], a[3]),
                                  LAMBDA j, q : Escaped(o, j, a[4], {60, AMP, q})),
             i, at)

\* A start tag without its closing bracket
OpenTag(o, i, n, at) == AttributesText(o, Lit(o, i, Lt \o QName(n[1], n[3])), at)

TagEnd(o, i) == Lit(o, Gap(o, i), Gt)
EmptyTagEnd(o, i) == Lit(o, Gap(o, i), SlashGt)
CloseTag(o, i, n) == TagEnd(o, Lit(o, i, LtSlash \o QName(n[1], n[3])))

(***************************************************************************)
(* Comments: two hyphens cannot be written in a comment, nor one at its    *)
(* end, so hyphens and white space may differ in comments that have them.  *)
(***************************************************************************)
Trim(t) ==
    LET a == First(t, 1, LAMBDA c : ~IsWhitespace(c))
        b == SelectLastInSeq(t, LAMBDA c : ~IsWhitespace(c))
    IN SubSeq(t, a, b)

Essence(t) == SelectSeq(t, LAMBDA c : c # 45 /\ ~IsWhitespace(c))

Hyphens(t) == \/ \E k \in 1..Len(t) - 1 : t[k] = 45 /\ t[k + 1] = 45
              \/ (t # <<>> /\ t[Len(t)] = 45)

\* Where a literal text begins at or after i, or 0
RECURSIVE FindText(_, _, _)
FindText(o, i, t) ==
    LET k == First(o, i, LAMBDA c : c = t[1]) IN
    IF k + Len(t) - 1 > Len(o) THEN 0
    ELSE IF SubSeq(o, k, k + Len(t) - 1) = t THEN k ELSE FindText(o, k + 1, t)

CommentText(o, i, t) ==
    LET a == Lit(o, i, OpenComment)
        b == IF a = 0 THEN 0 ELSE FindText(o, a, DoubleDash)
        w == IF b = 0 THEN <<>> ELSE Text(o, a, b)
    IN IF b = 0 \/ Lit(o, b, CloseComment) = 0 THEN 0
       ELSE IF IF Hyphens(t) THEN Essence(w) = Essence(t) ELSE Trim(w) = Trim(t)
       THEN b + 3 ELSE 0

(* The XML declaration; versions other than 1.0 and 1.1 are not judged *)
OneOf(o, i, ts) == IF \E t \in ts : Lit(o, i, t) # 0
                   THEN Lit(o, i, CHOOSE t \in ts : Lit(o, i, t) # 0) ELSE 0

VersionsOf(v) == IF v = 100 THEN {OneNought} ELSE IF v = 110 THEN {OneOne} ELSE {OneNought, OneOne}

Optionally(i, j) == IF j = 0 THEN i ELSE j

Declaration(o, i, v) ==
    LET a == Assign(o, Space(o, Lit(o, i, OpenDecl)), WordVersion, LAMBDA j, q : OneOf(o, j, VersionsOf(v)))
        b == Optionally(a, Assign(o, Space(o, a), WordEncoding, LAMBDA j, q : OneOf(o, j, Utf8Names)))
        c == Optionally(b, Assign(o, Space(o, b), WordStandalone, LAMBDA j, q : OneOf(o, j, YesNo)))
    IN Lit(o, Gap(o, c), ClosePi)
=============================================================================
