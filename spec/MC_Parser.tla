----------------------------- MODULE MC_Parser -----------------------------
(***************************************************************************)
(* The reader on every sequence of up to MAXTOK tokens of an alphabet.     *)
(*                                                                         *)
(* Checks that the state of the reader is always consistent, that its      *)
(* events always satisfy Stream, and the nesting rules, box rules and      *)
(* scope rules stated below.  With EXPORT every complete sequence is       *)
(* printed as a text for the implementation.                               *)
(***************************************************************************)
EXTENDS Parser, Lexer, Stream, Json, FiniteSetsExt

CONSTANTS ALPHA, MAXTOK, EXPORT

Structure == <<Cp("#a "), Cp("##b "), Cp("###a "), Cp("#a{ "), Cp("##b{ "), Cp("#a} "),
               Cp("##b} "), Cp("'t' "), Cp("; c\n")>>
Boxes == <<Cp("#a "), Cp("##a "), Cp("#a{ "), Cp("#b{ "), Cp("##a{ "), Cp("#a} "), Cp("#b} "),
           Cp("##a} ")>>
Scopes == <<Cp("#a "), Cp("##p:a "), Cp("#p:a{ "), Cp("#p:a} "), Cp("xmlns:p='u' "),
            Cp("xmlns:p='v' "), Cp("xmlns='w' "), Cp("p:x='1' "), Cp("y=2 "), Cp("; c\n")>>
Mixed == <<Cp("#a "), Cp("##b{ "), Cp("##b} "), Cp("x=1 "), Cp("q:x=1 "), Cp("xmlns:q=u "),
           Cp("r'' "), Cp("##c "), Cp("#q:a ")>>

Closings == <<Cp("#p:a{ "), Cp("#a{ "), Cp("##p:a{ "), Cp("xmlns:p='u' "), Cp("xmlns:q='u' "), Cp("#p:a} "), Cp("#a} "),
              Cp("#q:a} "), Cp("##p:a} "), Cp("#p:b} ")>>

Alphabet == CASE ALPHA = "structure" -> Structure
              [] ALPHA = "boxes" -> Boxes
              [] ALPHA = "scopes" -> Scopes
              [] ALPHA = "mixed" -> Mixed
              [] ALPHA = "closings" -> Closings

\* What the client may have mapped before reading
ClientMaps == << <<Cp("p"), Cp("t")>>, <<<<>>, Cp("d")>> >>

\* Positions do not matter here
Tokens == [i \in 1..Len(Alphabet) |-> LexAt(Alphabet[i], 1) @@ [sp |-> <<0, 0>>]]
Eof == [k |-> "eof", sp |-> <<0, 0>>]

VARIABLES hist,  \* indices of the tokens given so far
          mon,   \* the monitor of Stream
          cut    \* the input is exhausted

vars == <<parserVars, hist, mon, cut>>

Init ==
    /\ \E ns \in (IF ALPHA = "scopes" THEN {TRUE, FALSE} ELSE {TRUE}) :
       \E given \in (IF ALPHA = "scopes" THEN {<<>>, ClientMaps} ELSE {<<>>}) :
          ParserInitOver(ns, BaseFrame(ns, given), 0)
    /\ hist = <<>>
    /\ mon = StreamInit
    /\ cut = FALSE

Observe == mon' = IF out'.k = "none" THEN mon ELSE Follow(mon, out')

\* The text given so far, for the implementation
TextOf(h) == FoldLeft(LAMBDA acc, i : acc \o Alphabet[i], <<>>, h)

Over == mon.ph = "error" \/ (phase = "done" /\ out.k = "er")

Feed ==
    /\ Idle /\ ~Over /\ ~cut
    /\ Len(hist) < MAXTOK
    /\ \E i \in 1..Len(Alphabet) :
          /\ Pull(Tokens[i])
          /\ hist' = Append(hist, i)
    /\ UNCHANGED cut

Exhaust ==
    /\ Idle /\ ~Over
    /\ cut' = TRUE
    /\ Pull(Eof)
    /\ UNCHANGED hist

Turn ==
    /\ ~Over
    /\ Internal(100)
    /\ UNCHANGED <<hist, cut>>

Emit == (EXPORT /\ ((cut' # cut /\ Len(hist) = MAXTOK) \/ (out'.k = "er" /\ phase # "done"))) =>
            PrintT("CASE " \o ToJson([x |-> xmlns, m |-> frames[1] # RootFrame(xmlns), t |-> TextOf(hist')]))

Next ==
    \/ (Feed \/ Exhaust \/ Turn) /\ Observe /\ Emit
    \/ Over /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

View == <<phase, xmlns, depth, stack, todo, building, frames, out, mon, cut, Len(hist)>>

-----------------------------------------------------------------------------
Inv == ParserInv /\ ParserCounts

\* The events always form a stream as Stream describes it
StreamHolds == mon.why = ""

\* The reader's open elements are those whose start the client has seen and
\* whose end it has not, except for one being built
OpenAsSeen ==
    mon.ph = "open" =>
        LET seen == IF building THEN Len(stack) - 1 ELSE Len(stack) IN
        /\ Len(mon.st) = seen
        /\ \A i \in 1..seen : stack[i].name = mon.st[i]

(***************************************************************************)
(* Nesting by depth, stated without the stack: element i is the parent of  *)
(* a new element of depth d.  OpenDepths gives for every open element its  *)
(* depth within its box.                                                   *)
(***************************************************************************)
OpenDepth(i) == stack[i].parent + 1

\* A new element goes below the most recent open element of depth d - 1 of
\* the same box, or directly into the box if d is one
NestingByDepth ==
    [][ stack' # stack /\ Len(stack') = Len(stack) + 1 =>
          LET d == todo.t.dp
              lastBox == SelectLastInSeq(stack, LAMBDA e : e.box)
              parents == { i \in (lastBox + 1)..Len(stack) : OpenDepth(i) = d - 1 }
          IN IF d = 1 THEN Len(stack) = lastBox
             ELSE parents # {} /\ Len(stack) = Max(parents) ]_vars

\* An element is ended only by a tag of its depth or less in its box, by the
\* closing tag of a box around it, or by the end of the text
EndedForAReason ==
    [][ Len(stack') < Len(stack) =>
          \/ phase = "eof"
          \/ todo.k = "open" /\ ~Top.box /\ todo.t.dp <= OpenDepth(Len(stack))
          \/ todo.k = "close" /\ Len(stack') + 1 = Len(stack) ]_vars

\* The depth outside a box is restored when the box is closed
DepthRestored ==
    [][ Len(stack') < Len(stack) => depth' = OpenDepth(Len(stack)) - 1 ]_vars

\* A box is closed only by its own name
ClosedByName ==
    [][ (Len(stack') < Len(stack) /\ Top.box /\ phase = "open") =>
          todo.k = "close" /\ todo.t.n = Top.n /\ todo.t.p = Top.p
                          /\ todo.t.dp = OpenDepth(Len(stack)) ]_vars

\* Frames below the topmost never change; so closing an element restores
\* exactly the scope there was before it
OuterScopesFixed ==
    [][ \A i \in 1..Len(frames) :
          (i < Len(frames) /\ i <= Len(frames')) => frames'[i] = frames[i] ]_vars
\* Whatever the client had mapped is there throughout
GivenScopeFixed == [][ frames'[1] = frames[1] ]_vars
InnerScopeOnly ==
    [][ Len(frames') = Len(frames) + 1 => frames'[Len(frames')] = EmptyFrame ]_vars

\* Without namespace processing nothing is ever declared
NoDeclarations == ~xmlns => \A i \in 2..Len(frames) : frames[i] = EmptyFrame

\* Every delivered name carries what its prefix means where it was delivered
NamesResolved ==
    out.k = "se" => /\ out.n[2] = Lookup(frames, out.n[1])
                    /\ \A i \in 1..Len(out.at) :
                          out.at[i][2] = Lookup(frames, ResolvingPrefix(xmlns, out.at[i][1], out.at[i][3]))

\* The input is not asked for again once exhausted
NoRepoll == cut => ~Idle
=============================================================================
