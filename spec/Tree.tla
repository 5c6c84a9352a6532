-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Documents as trees, and the events of a tree: a depth-first walk.       *)
(*                                                                         *)
(* A node is                                                               *)
(*    [k |-> "e", p, n, at, ch]   element: prefix, name, attributes        *)
(*                                <<prefix, name, value>>, children        *)
(*    [k |-> "t", raw, d]         text                                     *)
(*    [k |-> "c", d]              comment: its lines                       *)
(* Nothing here knows about hashes, boxes, quotes or whitespace.           *)
(***************************************************************************)
EXTENDS Names

\* Every declaration of an element holds for all its names
ScopeOf(fr, ns, at) ==
    FoldLeft(LAMBDA f, a : Declare(f, ns, a[1], a[2], a[3]), Append(fr, EmptyFrame), at)

TreeAttr(fr, ns, a) == <<a[1], Lookup(fr, ResolvingPrefix(ns, a[1], a[2])), a[2], a[3]>>

RECURSIVE Walk(_, _, _), WalkAll(_, _, _)
WalkAll(nodes, fr, ns) == FoldLeft(LAMBDA acc, x : acc \o Walk(x, fr, ns), <<>>, nodes)
Walk(x, fr, ns) ==
    CASE x.k = "e" ->
            LET f    == ScopeOf(fr, ns, x.at)
                name == <<x.p, Lookup(f, x.p), x.n>>
            IN << [k |-> "se", n |-> name, at |-> [i \in 1..Len(x.at) |-> TreeAttr(f, ns, x.at[i])]] >>
               \o WalkAll(x.ch, f, ns)
               \o << [k |-> "ee", n |-> name] >>
      [] x.k = "t" -> << [k |-> "ct", raw |-> x.raw, d |-> x.d] >>
      [] x.k = "c" -> << [k |-> "cm", lines |-> x.d] >>

\* The events of a document
EventsOf(nodes, ns) ==
    << [k |-> "sd"] >> \o WalkAll(nodes, <<RootFrame(ns)>>, ns) \o << [k |-> "ed"] >>

(***************************************************************************)
(* Writing a tree as tokens.  An element may be boxed or not; it has to be *)
(* if something other than an element follows it, which would otherwise    *)
(* end up inside it.                                                       *)
(***************************************************************************)
MustBox(nodes, i) == i < Len(nodes) /\ nodes[i + 1].k # "e"
=============================================================================
