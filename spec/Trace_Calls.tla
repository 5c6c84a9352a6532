---------------------------- MODULE Trace_Calls ----------------------------
(***************************************************************************)
(* Recorded histories of calls on a name table and its stacks.             *)
(***************************************************************************)
EXTENDS Calls, Table, Json, IOUtils, FiniteSets

CONSTANT JUDGE  \* what is judged: "ids", "frames" or "names"

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, oi, frames, ps, us, ns, verdict
vars == <<ci, oi, frames, ps, us, ns, verdict>>

Case == Cases[ci]
Ops == Case.ops
Op == Ops[oi]

Init ==
    /\ ci \in 1..Len(Cases)
    /\ oi = 1
    /\ frames = <<>>
    /\ ps = EmptyTable /\ us = EmptyTable /\ ns = EmptyTable
    /\ verdict = "run"

Complain(why) == PrintT("BAD " \o ToJson([id |-> Case.id, what |-> why, op |-> oi, record |-> Op]))

\* Each operation gives the next frames and tables, and a set of complaints
\* of the form <<what is judged, text>>
Wrong(cond, what, text) == IF cond THEN {} ELSE { <<what, text>> }

Same == [fr |-> frames, p |-> ps, u |-> us, n |-> ns, bad |-> {}]

XmlAdded(r) == [r EXCEPT !.p = Added(Added(@, XMLNS), XML), !.u = Added(Added(@, XMLNS_URI), XML_URI)]

\* A prefix and a URI with the identifiers they were given
MapIds(r, p, u) ==
    [r EXCEPT !.p = Learn(@, p, Op.pid), !.u = Learn(@, u, Op.uid),
              !.bad = @ \cup Wrong(Consistent(ps, p, Op.pid) /\ Op.pidok = 1, "ids", "prefix identifier")
                        \cup Wrong(Consistent(us, u, Op.uid) /\ Op.uidok = 1, "ids", "URI identifier")]

\* A result of building a name, given the allowed results
NameResult(allowed) ==
    IF Op.r = "ok"
    THEN LET nm == Op.nm
             r  == MapIds(Same, nm[1], nm[2])
             r1 == [r EXCEPT !.n = Learn(@, nm[3], Op.nid),
                             !.bad = @ \cup Wrong(Consistent(ns, nm[3], Op.nid) /\ Op.nidok = 1, "ids", "name identifier")]
         IN [r1 EXCEPT !.bad = @ \cup Wrong(\E x \in allowed : x.r = "ok" /\ x.n = nm, "names", "name")
                                 \cup Wrong(Op.ts = ToText(nm), "names", "textual form")
                                 \cup Wrong(Op.hp = (IF nm[1] = <<>> THEN 0 ELSE 1), "names", "has_prefix")
                                 \cup Wrong(Op.hu = (IF nm[2] = <<>> THEN 0 ELSE 1), "names", "has_uri")]
    ELSE [Same EXCEPT
            !.bad = Wrong(\E x \in allowed : /\ x.r = "err" /\ x.e = Op.e
                                            /\ "ea" \in DOMAIN Op => x.a = Op.ea, "names", "error")]

\* A refused call may or may not have added what it was given
Refused(r, p, n) ==
    IF Op.r = "ok" THEN r ELSE [r EXCEPT !.p = Perhaps(@, p), !.n = Perhaps(@, n)]

Pairs(ms) == { ms[i] : i \in 1..Len(ms) }
Lists(ms, f) == Len(ms) = Cardinality(Pairs(ms)) /\ Pairs(ms) = Mappings(f)

\* A lookup in a table: nothing, or identifier and text
Found(tab, s, f) ==
    IF f = <<>> THEN ~MustFind(tab, s)
    ELSE MayFind(tab, s) /\ Consistent(tab, s, f[1]) /\ f[2] = s
Looked(tab, s, f) == IF f = <<>> THEN tab ELSE Learn(tab, s, f[1])

\* Identifiers of as many texts, all different and none seen before.  They
\* are not learned: these calls come last in a history.
AllNew(tab, is) ==
    LET all == { is[i] : i \in 1..Len(is) } IN
    /\ Cardinality(all) = Len(is) /\ 0 \notin all
    /\ all \cap DOMAIN tab.texts = {}
\* These denote their texts (w: where not) and are found again (g: where not)
ManyNew(tab, what) == Wrong(AllNew(tab, Op.is) /\ Op.w = <<>> /\ Op.g = <<>>, "ids", what)

\* Identifiers handed out earlier still denote their texts
Denote(tab, list) ==
    \A i \in 1..Len(list) :
        IF list[i].i = 0 THEN list[i].s = <<>>
        ELSE list[i].s \in DOMAIN tab.ids /\ tab.ids[list[i].s] = list[i].i

A(k) == Op.a[k]
TextParts(t) ==
    LET c == SelectInSeq(t, LAMBDA x : x = 58) IN
    IF c = 0 THEN <<<<>>, t>> ELSE <<SubSeq(t, 1, c - 1), SubSeq(t, c + 1, Len(t))>>

\* An attribute that declares a namespace adds its prefix and URI
Declared(r, p, n, v) ==
    IF DeclaresDefault(Case.xmlns = 1, p, n) THEN [r EXCEPT !.u = Added(@, v)]
    ELSE IF DeclaresPrefix(Case.xmlns = 1, p) THEN [r EXCEPT !.p = Added(@, n), !.u = Added(@, v)]
    ELSE r
AttrFrames(fr, v) == Declare(fr, Case.xmlns = 1, A(1), A(2), v)
AttrOk(fr) == \E x \in AttrName(fr, Case.xmlns = 1, A(1), A(2)) : x.r = "ok"

\* A document read with the table: identifiers of the names of its elements
\* and attributes.  It may have added any of the texts that follow.
RECURSIVE DocNames(_, _)
DocNames(r, i) ==
    IF i > Len(Op.es) THEN r
    ELSE LET e == Op.es[i]
             ok == /\ Consistent(r.p, e.nm[1], e.pid) /\ Consistent(r.u, e.nm[2], e.uid)
                   /\ Consistent(r.n, e.nm[3], e.nid) /\ e.pidok = 1 /\ e.uidok = 1 /\ e.nidok = 1
         IN DocNames([r EXCEPT !.p = Learn(@, e.nm[1], e.pid), !.u = Learn(@, e.nm[2], e.uid),
                               !.n = Learn(@, e.nm[3], e.nid),
                               !.bad = @ \cup Wrong(ok, "ids", "identifiers in a document")], i + 1)
MaybeAll(tab) == [tab EXCEPT !.maybe = @ \cup { A(k) : k \in 2..Len(Op.a) }]

Result ==
    CASE Op.op = "stack" ->
            LET r == [Same EXCEPT !.fr = <<RootFrame(Case.xmlns = 1)>>] IN
            IF Case.xmlns = 1 THEN XmlAdded(r) ELSE r
      [] Op.op = "drop" -> [Same EXCEPT !.fr = <<>>]
      [] Op.op = "push" -> [Same EXCEPT !.fr = Push(@)]
      [] Op.op = "pop" -> [Same EXCEPT !.fr = Pop(@)]
      [] Op.op = "null" -> [Same EXCEPT !.fr = AddTop(@, <<>>, <<>>)]
      [] Op.op = "xml" -> XmlAdded([Same EXCEPT !.fr = AddXml(@)])
      [] Op.op = "add" -> [MapIds(Same, A(1), A(2)) EXCEPT !.fr = AddTop(@, A(1), A(2))]
      [] Op.op = "addif" ->
            [MapIds(Same, A(1), A(2)) EXCEPT
                !.fr = AddIfUnset(@, A(1), A(2)),
                !.bad = @ \cup Wrong((Op.b = 1) = ~InTop(frames, A(1)), "frames", "report")]
      [] Op.op = "byid" -> [Same EXCEPT !.fr = AddTop(@, Op.bp, Op.bu)]
      [] Op.op = "byidif" ->
            [Same EXCEPT !.fr = AddIfUnset(@, Op.bp, Op.bu),
                         !.bad = Wrong((Op.b = 1) = ~InTop(frames, Op.bp), "frames", "report")]
      [] Op.op = "find" ->
            LET f == Op.f IN
            [Same EXCEPT
                !.p = IF f = <<>> THEN @ ELSE Learn(@, A(1), f[1].pid),
                !.bad = Wrong((IF f = <<>> THEN <<>> ELSE f[1].u) = Sees(frames, A(1)), "frames", "mapping")
                        \cup Wrong(Found(ps, A(1), IF f = <<>> THEN f ELSE <<f[1].pid, A(1)>>), "ids", "find_prefix_id")]
      [] Op.op = "iter" -> [Same EXCEPT !.bad = Wrong(Lists(Op.ms, Visible(frames)), "frames", "iteration")]
      [] Op.op = "deep" ->
            \* frames that were pushed, each with the same mapping, and popped again
            [MapIds(Same, A(1), A(2)) EXCEPT
                !.bad = @ \cup Wrong(Lists(Op.ms, Visible(AddTop(Push(frames), A(1), A(2)))), "frames", "deep iteration")]
      [] Op.op = "top" -> [Same EXCEPT !.bad = Wrong(Lists(Op.ms, frames[Len(frames)]), "frames", "topmost frame")]
      [] Op.op = "name" ->
            [Same EXCEPT !.n = Learn(@, A(1), Op.nid),
                         !.bad = Wrong(Consistent(ns, A(1), Op.nid) /\ Op.nidok = 1, "ids", "name identifier")]
      [] Op.op \in {"new", "tag"} -> Refused(NameResult(NewName(frames, A(1), A(2))), A(1), A(2))
      [] Op.op = "local" -> Refused(NameResult(NewLocal(A(1))), <<>>, A(1))
      [] Op.op = "str" ->
            LET r  == NameResult(FromText(frames, A(1)))
                tp == TextParts(A(1))
            IN Refused([r EXCEPT !.bad = @ \cup
                  \* names that are local or have a prefix can be told from their text
                  Wrong((Op.r = "ok" /\ (Op.hp = 1 \/ Op.hu = 0)) => Op.same = 1, "names", "built again")], tp[1], tp[2])
      [] Op.op = "attr" ->
            LET fr == AttrFrames(frames, A(3))
                r  == NameResult(AttrName(fr, Case.xmlns = 1, A(1), A(2)))
                r1 == [r EXCEPT !.fr = fr,
                                !.bad = @ \cup Wrong(Op.r = "ok" => Op.v = A(3), "names", "value")]
            IN Declared(Refused(r1, A(1), A(2)), A(1), A(2), A(3))
      [] Op.op = "attrs" ->
            \* two lists of one attribute each, the second then moved to the first
            LET fr1 == AttrFrames(frames, A(3))
                fr2 == AttrFrames(fr1, A(4))
                vs  == (IF AttrOk(fr1) THEN <<A(3)>> ELSE <<>>) \o (IF AttrOk(fr2) THEN <<A(4)>> ELSE <<>>)
                r   == [Same EXCEPT
                          !.fr = fr2, !.p = Perhaps(@, A(1)), !.n = Perhaps(@, A(2)),
                          !.bad = Wrong(/\ (Op.ra = 1) = AttrOk(fr1) /\ (Op.rb = 1) = AttrOk(fr2)
                                        /\ Op.vs = vs /\ (Op.e1 = 1) = (vs = <<>>)
                                        /\ Op.e0 = 1 /\ Op.e2 = 1 /\ Op.k = 1, "names", "attributes")]
            IN Declared(Declared(r, A(1), A(2), A(3)), A(1), A(2), A(4))
      [] Op.op = "strs" ->
            [Same EXCEPT !.bad = Wrong(Denote(ps, Op.sp) /\ Denote(us, Op.su) /\ Denote(ns, Op.sn), "ids", "denotation")]
      [] Op.op = "findn" -> [Same EXCEPT !.n = Looked(@, A(1), Op.f), !.bad = Wrong(Found(ns, A(1), Op.f), "ids", "find_name")]
      [] Op.op = "findp" -> [Same EXCEPT !.p = Looked(@, A(1), Op.f), !.bad = Wrong(Found(ps, A(1), Op.f), "ids", "find_prefix")]
      [] Op.op = "findu" -> [Same EXCEPT !.u = Looked(@, A(1), Op.f), !.bad = Wrong(Found(us, A(1), Op.f), "ids", "find_uri")]
      [] Op.op = "addmap" -> MapIds(Same, A(1), A(2))
      [] Op.op = "doc" ->
            LET r == DocNames(IF Case.xmlns = 1 THEN XmlAdded(Same) ELSE Same, 1) IN
            [r EXCEPT !.p = MaybeAll(@), !.u = MaybeAll(@), !.n = MaybeAll(@)]
      [] Op.op = "manyn" -> [Same EXCEPT !.bad = ManyNew(ns, "many names")]
      [] Op.op = "manyp" -> [Same EXCEPT !.bad = ManyNew(ps, "many prefixes")]
      [] Op.op = "manyu" -> [Same EXCEPT !.bad = ManyNew(us, "many URIs")]
      [] Op.op = "dflt" -> [Same EXCEPT !.bad = Wrong(Op.b = 1, "ids", "none denotes the default")]
      [] Op.op = "xmlns" -> [Same EXCEPT !.bad = Wrong(Op.b = Case.xmlns, "frames", "uses_xmlns")]

Call ==
    /\ verdict = "run" /\ "fatal" \notin DOMAIN Case /\ oi <= Len(Ops)
    /\ IF Op.ok = 0
       THEN /\ Complain("panic")
            /\ verdict' = "bad"
            /\ UNCHANGED <<frames, ps, us, ns, oi>>
       ELSE LET r   == Result
                bad == { b \in r.bad : b[1] \in JUDGE }
            IN /\ frames' = r.fr /\ ps' = r.p /\ us' = r.u /\ ns' = r.n
               /\ oi' = oi + 1
               /\ IF bad = {} THEN verdict' = "run"
                  ELSE Complain((CHOOSE b \in bad : TRUE)[2]) /\ verdict' = "bad"
    /\ UNCHANGED ci

Finish ==
    /\ verdict = "run" /\ "fatal" \notin DOMAIN Case /\ oi > Len(Ops)
    /\ verdict' = "ok"
    /\ UNCHANGED <<ci, oi, frames, ps, us, ns>>

Crashed ==
    /\ verdict = "run" /\ "fatal" \in DOMAIN Case
    /\ PrintT("BAD " \o ToJson([id |-> Case.id, what |-> Case.fatal]))
    /\ verdict' = "bad"
    /\ UNCHANGED <<ci, oi, frames, ps, us, ns>>

Done == verdict # "run" /\ UNCHANGED vars

Next == Call \/ Finish \/ Crashed \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
