----------------------------- MODULE MC_Source ------------------------------
(***************************************************************************)
(* The reader on every source of up to MAXTOK items.                       *)
(*                                                                         *)
(* A second reader is given the same tokens without the errors and the     *)
(* blanks.  Both must deliver the same events, wherever the errors and     *)
(* blanks are, and every error must be delivered as soon as it is given.   *)
(* With EXPORT every complete source is printed for the implementation.    *)
(***************************************************************************)
EXTENDS Source, Lexer, Json

CONSTANTS MAXTOK, EXPORT

Alphabet == <<Cp("#a "), Cp("##b{ "), Cp("##b} "), Cp("x=1 "), Cp("xmlns:q=u "), Cp("'t' "), Cp("; c\n"), Cp("##q:c ")>>
Tokens == [i \in 1..Len(Alphabet) |-> LexAt(Alphabet[i], 1) @@ [sp |-> <<2 * i, 2 * i + 1>>]]
Blank == [k |-> "ws", sp |-> <<0, 1>>]
Fault == [k |-> "er"]
Stop == [k |-> "end"]

\* An item of a history: a token by its index, a blank, an error or the end
BLANK == 0
FAULT == 100
STOP == 200
Item(h) == CASE h = BLANK -> Blank [] h = FAULT -> Fault [] h = STOP -> Stop [] OTHER -> Tokens[h]

VARIABLES hist,    \* items given so far
          log,     \* events delivered
          at,      \* number of items the second reader has been given
          log2,    \* events the second reader delivered
          phase2, xmlns2, depth2, stack2, todo2, building2, frames2, tpos2, out2

first == <<parserVars, hist, log>>
second == <<at, log2, phase2, xmlns2, depth2, stack2, todo2, building2, frames2, tpos2, out2>>
vars == <<first, second>>

B == INSTANCE Source WITH phase <- phase2, xmlns <- xmlns2, depth <- depth2, stack <- stack2, todo <- todo2,
                          building <- building2, frames <- frames2, tpos <- tpos2, out <- out2

Init ==
    /\ ParserInit(TRUE, 0) /\ hist = <<>> /\ log = <<>>
    /\ B!ParserInit(TRUE, 0) /\ at = 0 /\ log2 = <<>>

Note(l, ev) == IF ev.k = "none" THEN l ELSE Append(l, ev)

\* A reader is through when it has said so or found an error itself
Through(ph, l) == ph = "done" \/ (l # <<>> /\ l[Len(l)].k = "er" /\ ~OfSource(l[Len(l)]))
Over == Through(phase, log)
Over2 == Through(phase2, log2)

Feed ==
    /\ ~Over /\ Idle
    /\ \E h \in (IF Len(hist) < MAXTOK THEN 1..Len(Alphabet) \cup {BLANK, FAULT, STOP} ELSE {STOP}) :
          Give(Item(h)) /\ hist' = Append(hist, h)
    /\ log' = Note(log, out')
    /\ UNCHANGED second
Turn ==
    /\ ~Over /\ Internal(100)
    /\ log' = Note(log, out')
    /\ UNCHANGED <<hist, second>>

\* Once the first is through the second reads
Skip2 ==
    /\ Over /\ ~Over2 /\ B!Idle /\ at < Len(hist)
    /\ hist[at + 1] \in {BLANK, FAULT}
    /\ at' = at + 1
    /\ UNCHANGED <<first, log2, phase2, xmlns2, depth2, stack2, todo2, building2, frames2, tpos2, out2>>
Feed2 ==
    /\ Over /\ ~Over2 /\ B!Idle /\ at < Len(hist)
    /\ hist[at + 1] \notin {BLANK, FAULT}
    /\ B!Give(Item(hist[at + 1]))
    /\ at' = at + 1 /\ log2' = Note(log2, out2')
    /\ UNCHANGED first
Turn2 ==
    /\ Over /\ ~Over2 /\ B!Internal(100)
    /\ log2' = Note(log2, out2')
    /\ UNCHANGED <<first, at>>
Finish == Over /\ Over2 /\ UNCHANGED vars

Emit == (EXPORT /\ Over2' /\ ~Over2) => PrintT("CASE " \o ToJson(hist))

Next == Feed \/ Turn \/ ((Skip2 \/ Feed2 \/ Turn2) /\ Emit) \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Inv == ParserInv

\* Errors and blanks make no difference to what is read
Undisturbed == Over /\ Over2 => SelectSeq(log, LAMBDA e : ~OfSource(e)) = log2

\* As many errors as the source gave
Faults(s, P(_)) == Len(SelectSeq(s, P))
EveryError == Faults(log, OfSource) = Faults(hist, LAMBDA h : h = FAULT)

\* At once, and nothing else is changed by it
AtOnce == [][ hist' # hist /\ hist'[Len(hist')] = FAULT =>
                 OfSource(out') /\ UNCHANGED <<phase, depth, stack, todo, building, frames, tpos>> ]_vars

\* The end is the end: it is the last that is asked for
EndedOnce == \A i \in 1..Len(hist) : hist[i] = STOP => i = Len(hist)
=============================================================================
