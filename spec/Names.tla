------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Namespace scopes.                                                       *)
(*                                                                         *)
(* A frame maps prefixes to URIs (both texts; the empty prefix is the      *)
(* default namespace).  A stack of frames has one frame per open scope,    *)
(* the root frame first; a prefix means what the last frame that maps it   *)
(* says.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Texts

XMLNS == Cp("xmlns")
XML == Cp("xml")
XMLNS_URI == Cp("http://www.w3.org/2000/xmlns/")
XML_URI == Cp("http://www.w3.org/XML/1998/namespace")

EmptyFrame == <<>>

FrameAdd(f, p, u) == (p :> u) @@ f

NullFrame == <<>> :> <<>>
XmlFrame == (<<>> :> <<>>) @@ (XMLNS :> XMLNS_URI) @@ (XML :> XML_URI)

\* The root frame of a stack, with or without XML namespace processing
RootFrame(xmlns) == IF xmlns THEN XmlFrame ELSE NullFrame

\* The same with mappings that the client adds, given as pairs
BaseFrame(xmlns, pairs) ==
    FoldLeft(LAMBDA f, m : FrameAdd(f, m[1], m[2]), RootFrame(xmlns), pairs)

\* Index of the frame that decides p, or 0
Deciding(frames, p) == SelectLastInSeq(frames, LAMBDA f : p \in DOMAIN f)

Mapped(frames, p) == Deciding(frames, p) # 0
Lookup(frames, p) == frames[Deciding(frames, p)][p]

AddTop(frames, p, u) == [frames EXCEPT ![Len(frames)] = FrameAdd(@, p, u)]

\* Everything visible: a single frame
Visible(frames) == FoldLeft(LAMBDA acc, f : f @@ acc, EmptyFrame, frames)

(***************************************************************************)
(* Attributes.  A namespace attribute declares a mapping in the topmost    *)
(* frame; only when namespace processing is on.                            *)
(***************************************************************************)
DeclaresDefault(xmlns, p, n) == xmlns /\ p = <<>> /\ n = XMLNS
DeclaresPrefix(xmlns, p) == xmlns /\ p = XMLNS

Declare(frames, xmlns, p, n, v) ==
    IF DeclaresDefault(xmlns, p, n) THEN AddTop(frames, <<>>, v)
    ELSE IF DeclaresPrefix(xmlns, p) THEN AddTop(frames, n, v)
    ELSE frames

\* The attribute declaring the default namespace is itself in the xmlns
\* namespace although it has no prefix
ResolvingPrefix(xmlns, p, n) == IF DeclaresDefault(xmlns, p, n) THEN XMLNS ELSE p
=============================================================================
