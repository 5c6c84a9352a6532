------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reader on a text: Parser fed by Lexer.                              *)
(*                                                                         *)
(* Txt is the text; a module that extends this one says where it comes     *)
(* from (Txt is an operator so that it need not be part of the state).     *)
(***************************************************************************)
EXTENDS Parser, Lexer

VARIABLES at,   \* index in the text of the next character to be lexed
          pos   \* its position

readerVars == <<parserVars, at, pos>>

ReaderInitOver(ns, base) ==
    /\ ParserInitOver(ns, base, StartPos)
    /\ at = 1
    /\ pos = StartPos

ReaderInit(ns) == ReaderInitOver(ns, RootFrame(ns))

LexError(txt, t) ==
    LET p == Advance(txt, pos, at, t.s)
        e == [k |-> "er", e |-> t.err, sp |-> <<p, Advance(txt, p, t.s, t.e)>>]
    IN IF t.err \in {"ExpectedEquals", "UnexpectedCharacter"} THEN e @@ [ch |-> t.ch] ELSE e

\* The next token is asked for
PullEof(txt) ==
    /\ Idle /\ at > Len(txt)
    /\ Pull([k |-> "eof", sp |-> At(tpos)])
    /\ UNCHANGED <<at, pos>>

PullToken(txt) ==
    /\ Idle /\ at <= Len(txt)
    /\ LET t == LexAt(txt, at) IN
       IF t.k = "er"
       THEN /\ PullError(LexError(txt, t))
            /\ UNCHANGED <<at, pos>>
       ELSE LET p1 == Advance(txt, pos, at, t.e) IN
            /\ Pull(t @@ [sp |-> <<pos, p1>>])
            /\ at' = t.e
            /\ pos' = p1

InternalTurn(version) == Internal(version) /\ UNCHANGED <<at, pos>>

ReaderTurn(txt, version) ==
    \/ InternalTurn(version)
    \/ PullToken(txt)
    \/ PullEof(txt)
=============================================================================
