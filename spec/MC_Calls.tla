------------------------------ MODULE MC_Calls ------------------------------
(***************************************************************************)
(* Histories of calls on a namespace stack, over a few texts.              *)
(*                                                                         *)
(* Checks the meaning of a stack of scopes; with every transition one      *)
(* history is printed for the implementation.                              *)
(***************************************************************************)
EXTENDS Calls, Json

CONSTANTS MAXOPS, MAXFRAMES, XMLNSP

SomePrefixes == {Cp("p"), Cp("q"), <<>>}
SomeUris == {Cp("u"), Cp("v"), <<>>}

VARIABLES frames, hist, saved
vars == <<frames, hist, saved>>

Init ==
    /\ frames = <<RootFrame(XMLNSP)>>
    /\ hist = <<>>
    /\ saved = <<EmptyFrame>>  \* what was visible below each pushed frame

Log(op, a) == hist' = Append(hist, [op |-> op, a |-> a])

PushFrame == /\ Len(frames) < MAXFRAMES
             /\ frames' = Push(frames)
             /\ saved' = Append(saved, Visible(frames))
             /\ Log("push", <<>>)
\* The first frame may be popped as well; nothing can be added then
PopFrame == /\ frames # <<>>
            /\ frames' = Pop(frames)
            /\ saved' = SubSeq(saved, 1, Len(saved) - 1)
            /\ Log("pop", <<>>)
Add == frames # <<>> /\ \E p \in SomePrefixes, u \in SomeUris :
          frames' = AddTop(frames, p, u) /\ Log("add", <<p, u>>) /\ UNCHANGED saved
AddIf == frames # <<>> /\ \E p \in SomePrefixes, u \in SomeUris :
          frames' = AddIfUnset(frames, p, u) /\ Log("addif", <<p, u>>) /\ UNCHANGED saved
XmlNs == frames # <<>> /\ frames' = AddXml(frames) /\ Log("xml", <<>>) /\ UNCHANGED saved

Next == /\ Len(hist) < MAXOPS
        /\ PushFrame \/ PopFrame \/ Add \/ AddIf \/ XmlNs
        /\ PrintT("CASE " \o ToJson(hist'))

Spec == Init /\ [][Next]_vars
View == <<frames, saved, Len(hist)>>

\* What is visible is what the innermost frame with a mapping says
VisibleIsLookup ==
    /\ \A p \in SomePrefixes \cup {XML, XMLNS} : Mapped(frames, p) <=> p \in DOMAIN Visible(frames)
    /\ \A p \in DOMAIN Visible(frames) : Visible(frames)[p] = Lookup(frames, p)

\* Popping restores exactly what was visible before the push
PopRestores == [][ Len(frames') < Len(frames) => Visible(frames') = saved[Len(saved)] ]_vars

\* Adding changes nothing but the meaning of one prefix, in the topmost frame
OnlyTop == [][ Len(frames') = Len(frames) =>
                 \A i \in 1..(Len(frames) - 1) : frames'[i] = frames[i] ]_vars

\* A name is built exactly when its prefix is mapped and its local part is not
\* empty, and its text gives the same name again if it has a prefix
NamesMakeSense ==
    \A p \in SomePrefixes, n \in {Cp("a"), <<>>} :
        \A x \in NewName(frames, p, n) :
            /\ x.r = "ok" <=> (n # <<>> /\ Mapped(frames, p))
            /\ (x.r = "ok" /\ p # <<>>) => x \in FromText(frames, ToText(x.n))
=============================================================================
