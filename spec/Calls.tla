------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Operations of a namespace stack and of names, over module Names.        *)
(***************************************************************************)
EXTENDS Names

\* Frames after an operation; op and a are its name and arguments
AddXml(fr) == AddTop(AddTop(AddTop(fr, <<>>, <<>>), XMLNS, XMLNS_URI), XML, XML_URI)

InTop(fr, p) == p \in DOMAIN fr[Len(fr)]
AddIfUnset(fr, p, u) == IF InTop(fr, p) THEN fr ELSE AddTop(fr, p, u)
Push(fr) == Append(fr, EmptyFrame)
Pop(fr) == SubSeq(fr, 1, Len(fr) - 1)

Mappings(f) == { <<p, f[p]>> : p \in DOMAIN f }

Sees(fr, p) == IF Mapped(fr, p) THEN <<Lookup(fr, p)>> ELSE <<>>

(***************************************************************************)
(* Names: the set of allowed results of building one.                      *)
(***************************************************************************)
NameOk(p, u, n) == [r |-> "ok", n |-> <<p, u, n>>]
NameErr(e, a) == [r |-> "err", e |-> e, a |-> a]

NewName(fr, p, n) ==
    IF n # <<>> /\ Mapped(fr, p) THEN { NameOk(p, Lookup(fr, p), n) }
    ELSE (IF n = <<>> THEN { NameErr("EmptyName", <<>>) } ELSE {})
         \cup (IF Mapped(fr, p) THEN {} ELSE { NameErr("UnmappedPrefix", p) })

NewLocal(n) == IF n = <<>> THEN { NameErr("EmptyName", <<>>) } ELSE { NameOk(<<>>, <<>>, n) }

FromText(fr, t) ==
    LET c == SelectInSeq(t, LAMBDA x : x = 58)
        p == SubSeq(t, 1, c - 1)
        n == SubSeq(t, c + 1, Len(t))
    IN IF c = 0 THEN NewLocal(t)
       ELSE IF SelectInSeq(n, LAMBDA x : x = 58) # 0 THEN { NameErr("BadName", t) }
       ELSE NewName(fr, p, n)

\* An attribute: the frames after the declaration it may be, and its name
AttrName(fr, xmlns, p, n) ==
    { IF DeclaresDefault(xmlns, p, n) /\ x.r = "ok" THEN NameOk(<<>>, x.n[2], n) ELSE x :
        x \in NewName(fr, ResolvingPrefix(xmlns, p, n), n) }

ToText(n) == IF n[1] = <<>> THEN n[3] ELSE n[1] \o <<58>> \o n[3]
=============================================================================
