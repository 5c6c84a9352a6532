------------------------------ MODULE MC_Tree -------------------------------
(***************************************************************************)
(* For every small tree and every choice of boxes: the reader's events are *)
(* those of the tree.                                                      *)
(*                                                                         *)
(* The tree is grown by actions, so the states are the trees; a written    *)
(* tree is then given to the reader, token by token.                       *)
(***************************************************************************)
EXTENDS Parser, Tree

CONSTANTS MAXNODES, WITHNS

\* A tree under construction is a sequence of nodes in document order, each
\* with its level (1 for the root), and a choice of box for elements
VARIABLES pre,     \* [k, l, box, v]
          toks,    \* tokens still to be given to the reader
          want,    \* events that should still be received
          fault,   \* an event was not the one wanted
          mode     \* "grow" or "read"

vars == <<parserVars, pre, toks, want, fault, mode>>

\* Variants of elements: with and without prefix and declarations
A1 == <<Cp("xmlns"), Cp("p"), Cp("u")>>
A2 == <<Cp("xmlns"), Cp("p"), Cp("v")>>
A3 == <<<<>>, Cp("xmlns"), Cp("w")>>
A4 == <<Cp("p"), Cp("x"), Cp("1")>>
A5 == <<<<>>, Cp("y"), Cp("2")>>
Pp == Cp("p")
Na == Cp("a")
Nb == Cp("b")
Variants ==
    IF WITHNS THEN << [p |-> <<>>, n |-> Na, at |-> <<>>], [p |-> Pp, n |-> Na, at |-> <<A1>>],
                      [p |-> Pp, n |-> Na, at |-> <<A4, A2>>], [p |-> <<>>, n |-> Nb, at |-> <<A3, A5>>] >>
    ELSE << [p |-> <<>>, n |-> Na, at |-> <<>>], [p |-> <<>>, n |-> Nb, at |-> <<A5>>] >>

Init ==
    /\ ParserInit(TRUE, 0)
    /\ pre = <<>> /\ toks = <<>> /\ want = <<>> /\ fault = FALSE /\ mode = "grow"

LastNode == pre[Len(pre)]
Grow ==
    /\ mode = "grow" /\ Len(pre) < MAXNODES
    /\ \E k \in {"e", "t", "c"}, v \in 1..Len(Variants), box \in BOOLEAN, l \in 1..MAXNODES :
          /\ k # "e" => v = 1 /\ box = FALSE
          /\ IF pre = <<>> THEN k = "e" /\ l = 1
             ELSE l > 1 /\ l <= (IF LastNode.k = "e" THEN LastNode.l + 1 ELSE LastNode.l)
          /\ pre' = Append(pre, [k |-> k, v |-> v, box |-> box, l |-> l])
    /\ UNCHANGED <<parserVars, toks, want, fault, mode>>

\* The nodes of level l from index i on, up to the first of a lower level
RECURSIVE Nodes(_, _)
Nodes(i, l) ==
    IF i > Len(pre) \/ pre[i].l < l THEN <<>>
    ELSE IF pre[i].l > l THEN Nodes(i + 1, l)
    ELSE << IF pre[i].k = "e" THEN Variants[pre[i].v] @@ [k |-> "e", ch |-> Nodes(i + 1, l + 1), box |-> pre[i].box]
            ELSE IF pre[i].k = "t" THEN [k |-> "t", raw |-> FALSE, d |-> Cp("t")]
            ELSE [k |-> "c", d |-> <<Cp("c")>>] >> \o Nodes(i + 1, l)

Doc == Nodes(1, 1)

\* Tokens of a node at depth d of its box
Sp == <<0, 0>>
RECURSIVE Tokens(_, _, _)
Tokens(nodes, i, d) ==
    IF i > Len(nodes) THEN <<>>
    ELSE LET x == nodes[i] IN
         (CASE x.k = "t" -> << [k |-> "ct", raw |-> x.raw, d |-> x.d, sp |-> Sp] >>
            [] x.k = "c" -> << [k |-> "cm", lines |-> x.d, sp |-> Sp] >>
            [] x.k = "e" ->
                 << [k |-> "op", p |-> x.p, n |-> x.n, dp |-> d, box |-> x.box, sp |-> Sp] >>
                 \o [j \in 1..Len(x.at) |-> [k |-> "at", p |-> x.at[j][1], n |-> x.at[j][2], v |-> x.at[j][3], sp |-> Sp]]
                 \o Tokens(x.ch, 1, IF x.box THEN 1 ELSE d + 1)
                 \o (IF x.box THEN << [k |-> "cl", p |-> x.p, n |-> x.n, dp |-> d, sp |-> Sp] >> ELSE <<>>))
         \o Tokens(nodes, i + 1, d)

RECURSIVE Writable(_)
Writable(nodes) ==
    \A i \in 1..Len(nodes) :
        nodes[i].k = "e" => (MustBox(nodes, i) => nodes[i].box) /\ Writable(nodes[i].ch)

\* Every prefix is declared where it is used
RECURSIVE Declared(_, _)
Declared(nodes, fr) ==
    \A i \in 1..Len(nodes) :
        nodes[i].k = "e" =>
            LET f == ScopeOf(fr, TRUE, nodes[i].at) IN
            /\ Mapped(f, nodes[i].p)
            /\ \A j \in 1..Len(nodes[i].at) : Mapped(f, nodes[i].at[j][1])
            /\ Declared(nodes[i].ch, f)

Write ==
    /\ mode = "grow" /\ pre # <<>>
    /\ Writable(Doc) /\ Declared(Doc, <<RootFrame(TRUE)>>)
    /\ toks' = Tokens(Doc, 1, 1)
    /\ want' = EventsOf(Doc, TRUE)
    /\ mode' = "read"
    /\ pre' = <<>>
    /\ UNCHANGED <<parserVars, fault>>

\* Events without positions, and with the start of document reduced to its kind
Bare(e) == CASE e.k = "se" -> [k |-> "se", n |-> e.n, at |-> e.at]
             [] e.k = "ee" -> [k |-> "ee", n |-> e.n]
             [] e.k = "ct" -> [k |-> "ct", raw |-> e.raw, d |-> e.d]
             [] e.k = "cm" -> [k |-> "cm", lines |-> e.lines]
             [] OTHER -> [k |-> e.k]

Receive ==
    IF out'.k = "none" THEN UNCHANGED <<want, fault>>
    ELSE /\ fault' = (want = <<>> \/ Bare(out') # want[1])
         /\ want' = IF fault' THEN want ELSE Tail(want)

Read ==
    /\ mode = "read" /\ phase # "done" /\ ~fault
    /\ \/ Internal(100) /\ UNCHANGED toks
       \/ toks # <<>> /\ Pull(toks[1]) /\ toks' = Tail(toks)
       \/ toks = <<>> /\ Pull([k |-> "eof", sp |-> Sp]) /\ UNCHANGED toks
    /\ Receive
    /\ UNCHANGED <<pre, mode>>

Next == Grow \/ Write \/ Read
Spec == Init /\ [][Next]_vars

\* What is received is always the walk of the tree, and all of it in the end
WalkOfTree == ~fault /\ (phase = "done" => want = <<>>)
NoErrors == out.k # "er"
=============================================================================
