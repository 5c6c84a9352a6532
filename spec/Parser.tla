------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The HML reader as a state machine: tokens in, events out.               *)
(*                                                                         *)
(* One action is one turn of the reader's loop.  A turn either emits an    *)
(* event (`out' becomes an event or an error) or only changes the state    *)
(* (`out' becomes NoEvent).  A request for an event is a sequence of turns *)
(* up to and including the first that emits.                               *)
(*                                                                         *)
(* Tokens are those of module Lexer with `sp', the pair of positions of    *)
(* its ends; positions are opaque here.                                    *)
(***************************************************************************)
EXTENDS Names

CONSTANT VOID   \* The value of a variable that is not in use

VARIABLES
    phase,     \* "new", "open", "eof", "ended", "done"
    xmlns,     \* whether namespace processing is on
    depth,     \* depth of the innermost element within its box
    stack,     \* open elements, innermost last
    todo,      \* [k |-> "none"] or what is still to be done with a token
    building,  \* the innermost element is still being given attributes
    frames,    \* namespace frames: the root, then one per open element
    tpos,      \* end of the last construct
    out        \* what the last turn emitted

parserVars == <<phase, xmlns, depth, stack, todo, building, frames, tpos, out>>

NoEvent == [k |-> "none"]
Nothing == [k |-> "none"]
At(p) == <<p, p>>

\* base is the frame of the mappings there are before anything is read
ParserInitOver(ns, base, start) ==
    /\ phase = "new"
    /\ xmlns = ns
    /\ depth = 0
    /\ stack = <<>>
    /\ todo = Nothing
    /\ building = FALSE
    /\ frames = <<base>>
    /\ tpos = start
    /\ out = NoEvent

ParserInit(ns, start) == ParserInitOver(ns, RootFrame(ns), start)

Error(e, sp) == [k |-> "er", e |-> e, sp |-> sp]

Top == stack[Len(stack)]

-----------------------------------------------------------------------------
(* Start and end of the document *)

EmitStart(version) ==
    /\ phase = "new"
    /\ phase' = "open"
    /\ out' = [k |-> "sd", v |-> version, sp |-> At(tpos)]
    /\ UNCHANGED <<xmlns, depth, stack, todo, building, frames, tpos>>

EmitEnd ==
    /\ phase = "ended"
    /\ phase' = "done"
    /\ out' = [k |-> "ed", sp |-> At(tpos)]
    /\ UNCHANGED <<xmlns, depth, stack, todo, building, frames, tpos>>

BeyondEnd ==
    /\ phase = "done"
    /\ out' = [k |-> "er", e |-> "BeyondEndOfTokens"]
    /\ UNCHANGED <<phase, xmlns, depth, stack, todo, building, frames, tpos>>

-----------------------------------------------------------------------------
(* Elements *)

\* End the innermost element, with the given span
Pop(sp) ==
    /\ out' = [k |-> "ee", n |-> Top.name, sp |-> sp]
    /\ depth' = Top.parent
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)

\* At the end of the text every open element ends
EofPop ==
    /\ phase = "eof"
    /\ stack # <<>>
    /\ Pop(At(tpos))
    /\ UNCHANGED <<phase, xmlns, todo, building, tpos>>

EofDone ==
    /\ phase = "eof"
    /\ stack = <<>>
    /\ phase' = "ended"
    /\ out' = NoEvent
    /\ UNCHANGED <<xmlns, depth, stack, todo, building, frames, tpos>>

\* A closing tag first ends the elements still open in the box
ClosePop ==
    /\ phase = "open" /\ todo.k = "close"
    /\ depth > 0
    /\ Pop(At(todo.t.sp[1]))
    /\ UNCHANGED <<phase, xmlns, todo, building, tpos>>

\* The closing tag fits the box: same prefix, name and number of hashes
Fits(t) ==
    /\ stack # <<>>
    /\ Top.name[1] = t.p
    /\ Top.name[3] = t.n
    /\ Top.parent + 1 = t.dp

CloseBox ==
    /\ phase = "open" /\ todo.k = "close"
    /\ depth = 0
    /\ Fits(todo.t)
    /\ Pop(todo.t.sp)
    /\ todo' = Nothing
    /\ UNCHANGED <<phase, xmlns, building, tpos>>

CloseWrong ==
    /\ phase = "open" /\ todo.k = "close"
    /\ depth = 0
    /\ ~Fits(todo.t)
    /\ out' = Error("UnexpectedCloseTag", todo.t.sp)
    /\ todo' = Nothing
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames, tpos>>

\* An opening tag first ends the elements that are not its ancestors
OpenPop ==
    /\ phase = "open" /\ todo.k = "open"
    /\ todo.t.dp <= depth
    /\ Pop(At(todo.t.sp[1]))
    /\ UNCHANGED <<phase, xmlns, todo, building, tpos>>

OpenPush ==
    /\ phase = "open" /\ todo.k = "open"
    /\ todo.t.dp = depth + 1
    /\ stack' = Append(stack, [parent |-> depth, p |-> todo.t.p, n |-> todo.t.n,
                               box |-> todo.t.box, sp |-> todo.t.sp,
                               name |-> VOID, attrs |-> <<>>])
    /\ frames' = Append(frames, EmptyFrame)
    /\ building' = TRUE
    /\ depth' = IF todo.t.box THEN 0 ELSE depth + 1
    /\ todo' = Nothing
    /\ out' = NoEvent
    /\ UNCHANGED <<phase, xmlns, tpos>>

OpenTooDeep ==
    /\ phase = "open" /\ todo.k = "open"
    /\ todo.t.dp > depth + 1
    /\ out' = [k |-> "er", e |-> "UnexpectedTagIndent", dp |-> depth + 1, sp |-> todo.t.sp]
    /\ todo' = Nothing
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames, tpos>>

-----------------------------------------------------------------------------
(***************************************************************************)
(* Tokens                                                                  *)
(***************************************************************************)

\* The first token after the attributes of an element completes its start:
\* names are resolved, attributes in order and then the element
Unmapped(p, sp) == [k |-> "er", e |-> "UnmappedPrefix", a |-> p, sp |-> sp]

ResolvedAttr(fr, a) ==
    <<IF DeclaresDefault(xmlns, a.p, a.n) THEN <<>> ELSE a.p,
      Lookup(fr, ResolvingPrefix(xmlns, a.p, a.n)), a.n, a.v>>

StartEvent ==
    LET bad == SelectInSeq(Top.attrs,
                   LAMBDA a : ~Mapped(frames, ResolvingPrefix(xmlns, a.p, a.n))) IN
    IF bad # 0 THEN Unmapped(ResolvingPrefix(xmlns, Top.attrs[bad].p, Top.attrs[bad].n),
                             Top.attrs[bad].sp)
    ELSE IF ~Mapped(frames, Top.p) THEN Unmapped(Top.p, Top.sp)
    ELSE [k  |-> "se",
          n  |-> <<Top.p, Lookup(frames, Top.p), Top.n>>,
          at |-> [i \in 1..Len(Top.attrs) |-> ResolvedAttr(frames, Top.attrs[i])],
          sp |-> Top.sp]

CompleteStart(t) ==
    /\ building
    /\ t.k \notin {"ws", "at"}
    /\ building' = FALSE
    /\ todo' = [k |-> "token", t |-> t]
    /\ out' = StartEvent
    /\ stack' = IF out'.k = "se" THEN [stack EXCEPT ![Len(stack)].name = out'.n] ELSE stack
    /\ UNCHANGED <<phase, xmlns, depth, frames, tpos>>

TokWhitespace(t) ==
    /\ t.k = "ws"
    /\ out' = NoEvent
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames, tpos>>

TokComment(t) ==
    /\ ~building /\ t.k = "cm"
    /\ tpos' = t.sp[2]
    /\ out' = [k |-> "cm", lines |-> t.lines, sp |-> t.sp]
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames>>

TokContent(t) ==
    /\ ~building /\ t.k = "ct"
    /\ tpos' = t.sp[2]
    /\ out' = [k |-> "ct", raw |-> t.raw, d |-> t.d, sp |-> t.sp]
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames>>

TokAttribute(t) ==
    /\ building /\ t.k = "at"
    /\ tpos' = t.sp[2]
    /\ frames' = Declare(frames, xmlns, t.p, t.n, t.v)
    /\ stack' = [stack EXCEPT ![Len(stack)].attrs =
                     Append(@, [p |-> t.p, n |-> t.n, v |-> t.v, sp |-> t.sp])]
    /\ out' = NoEvent
    /\ UNCHANGED <<phase, xmlns, depth, building>>

TokStrayAttribute(t) ==
    /\ ~building /\ t.k = "at"
    /\ tpos' = t.sp[2]
    /\ out' = [k |-> "er", e |-> "UnexpectedAttribute", a |-> t.p \o <<58>> \o t.n, sp |-> t.sp]
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames>>

\* The end of the text
TokEof(t) ==
    /\ ~building /\ t.k = "eof"
    /\ phase' = "eof"
    /\ out' = NoEvent
    /\ UNCHANGED <<xmlns, depth, stack, building, frames, tpos>>

TokOpen(t) ==
    /\ ~building /\ t.k = "op"
    /\ tpos' = t.sp[2]
    /\ todo' = [k |-> "open", t |-> t]
    /\ out' = NoEvent
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames>>

TokClose(t) ==
    /\ ~building /\ t.k = "cl"
    /\ tpos' = t.sp[2]
    /\ IF Mapped(frames, t.p)
       THEN /\ todo' = [k |-> "close", t |-> t]
            /\ out' = NoEvent
       ELSE /\ todo' = Nothing
            /\ out' = Unmapped(t.p, t.sp)
    /\ UNCHANGED <<phase, xmlns, depth, stack, building, frames>>

\* A token is either used up by its turn or leaves something to do
Token(t) ==
    \/ CompleteStart(t)
    \/ TokOpen(t)
    \/ TokClose(t)
    \/ /\ \/ TokWhitespace(t)
          \/ TokComment(t)
          \/ TokContent(t)
          \/ TokAttribute(t)
          \/ TokStrayAttribute(t)
          \/ TokEof(t)
       /\ todo' = Nothing

\* A token that had completed the start of an element is taken up again
Resume ==
    /\ phase = "open" /\ todo.k = "token"
    /\ Token(todo.t)

\* The next token is asked for
Idle == phase = "open" /\ todo.k = "none"
Pull(t) == Idle /\ Token(t)

\* The lexer reports an error instead of a token
PullError(err) ==
    /\ Idle
    /\ out' = err
    /\ UNCHANGED <<phase, xmlns, depth, stack, todo, building, frames, tpos>>

\* Turns that do not need a token
Internal(version) ==
    \/ EmitStart(version)
    \/ EmitEnd
    \/ BeyondEnd
    \/ EofPop
    \/ EofDone
    \/ ClosePop
    \/ CloseBox
    \/ CloseWrong
    \/ OpenPop
    \/ OpenPush
    \/ OpenTooDeep
    \/ Resume

-----------------------------------------------------------------------------
(***************************************************************************)
(* What a state of the reader always satisfies                             *)
(***************************************************************************)

\* Elements opened since (and not including) the innermost box
RECURSIVE Unboxed(_)
Unboxed(st) == IF st = <<>> \/ st[Len(st)].box THEN 0
               ELSE 1 + Unboxed(SubSeq(st, 1, Len(st) - 1))

DepthIsUnboxed == depth = Unboxed(stack)
\* The same, without counting: the depth just inside an element
Inside(e) == IF e.box THEN 0 ELSE e.parent + 1
DepthIsInside == depth = IF stack = <<>> THEN 0 ELSE Inside(Top)
ParentIsInside == \A i \in 1..Len(stack) : stack[i].parent = IF i = 1 THEN 0 ELSE Inside(stack[i - 1])
ParentDepths == \A i \in 1..Len(stack) : stack[i].parent = Unboxed(SubSeq(stack, 1, i - 1))
OneFramePerElement == Len(frames) = Len(stack) + 1
BuildingHasElement == building => stack # <<>>
ClosedAtEnd == phase \in {"ended", "done"} => stack = <<>> /\ todo.k = "none"
RootFrameKept == DOMAIN RootFrame(xmlns) \subseteq DOMAIN frames[1]

\* What is cheap enough for states of any size; with ParentIsInside the first
\* two say the same as DepthIsUnboxed and ParentDepths
ParserInv ==
    /\ DepthIsInside
    /\ ParentIsInside
    /\ OneFramePerElement
    /\ BuildingHasElement
    /\ ClosedAtEnd
    /\ RootFrameKept

ParserCounts == DepthIsUnboxed /\ ParentDepths
=============================================================================
