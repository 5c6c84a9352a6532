------------------------------ MODULE MC_Event ------------------------------
(***************************************************************************)
(* Constructors and accessors of events: what is asked of them can be      *)
(* done, and a change of anything an event is made of is noticed.          *)
(***************************************************************************)
EXTENDS Event, Texts

VARIABLES r, changed
vars == <<r, changed>>

T == {Cp("x"), <<>>}
Attr == <<Cp("p"), Cp("u"), Cp("a"), Cp("v")>>
Values == [kind |-> {"sd", "ed", "se", "ee", "cm", "cr", "ci", "cw", "pi"}, ver |-> {100, 110}, p |-> T, u |-> T,
           l |-> {Cp("a"), Cp("b")}, data |-> T, has |-> {0, 1}, lens |-> {<<>>, <<1>>}, attrs |-> {<<>>, <<Attr>>},
           want |-> {<<0, 1, 1, 0, 1, 1>>, <<0, 1, 1, 3, 1, 4>>}]

Init == /\ r \in [kind : Values.kind, ver : Values.ver, p : Values.p, u : Values.u, l : Values.l, data : Values.data,
                  has : Values.has, lens : Values.lens, attrs : Values.attrs, want : Values.want]
        /\ changed = [f |-> "", r |-> r]
Change == /\ changed.f = ""
          /\ \E f \in DOMAIN Values : \E v \in Values[f] :
                v # r[f] /\ changed' = [f |-> f, r |-> [r EXCEPT ![f] = v]]
          /\ UNCHANGED r
Spec == Init /\ [][Change]_vars

\* The event as it should be
Parts(q) ==
    CASE Kind(q) = "sd" -> [v |-> q.ver]
      [] Kind(q) = "ed" -> [none |-> 0]
      [] Kind(q) = "se" -> [n |-> FullName(q), at |-> q.attrs]
      [] Kind(q) = "ee" -> [n |-> FullName(q)]
      [] Kind(q) = "ct" -> [ct |-> Content(q), d |-> q.data]
      [] Kind(q) = "cm" -> [d |-> q.data, ln |-> q.lens]
      [] Kind(q) = "pi" -> IF q.has = 1 THEN [pn |-> q.l, d |-> q.data] ELSE [pn |-> q.l]
Ideal(q) ==
    [f \in DOMAIN Parts(q) \cup {"k", "sp", "ty", "isd", "ied", "asd", "act", "aee", "ase"} |->
        CASE f = "k" -> Kind(q) [] f = "ty" -> Kind(q) [] f = "sp" -> q.want
          [] f = "isd" -> (IF Kind(q) = "sd" THEN 1 ELSE 0) [] f = "ied" -> (IF Kind(q) = "ed" THEN 1 ELSE 0)
          [] f = "asd" -> If(Kind(q) = "sd", <<q.ver>>) [] f = "aee" -> If(Kind(q) = "ee", <<FullName(q)>>)
          [] f = "act" -> (IF Kind(q) = "ct" THEN <<Content(q), q.data>> ELSE <<>>)
          [] f = "ase" -> (IF Kind(q) = "se" THEN <<FullName(q), q.attrs>> ELSE <<>>)
          [] OTHER -> Parts(q)[f]]

Relevant(q, f) ==
    CASE f \in {"kind", "want"} -> TRUE
      [] f = "ver" -> Kind(q) = "sd"
      [] f \in {"p", "u"} -> Kind(q) \in {"se", "ee"}
      [] f = "l" -> Kind(q) \in {"se", "ee", "pi"}
      [] f = "attrs" -> Kind(q) = "se"
      [] f = "lens" -> Kind(q) = "cm"
      [] f = "has" -> Kind(q) = "pi"
      [] f = "data" -> Kind(q) \in {"ct", "cm"} \/ (Kind(q) = "pi" /\ q.has = 1)

Possible == Made(r, Ideal(r)) /\ Told(r, Ideal(r))
Sensitive == changed.f # "" => (Relevant(r, changed.f) <=> ~(Made(changed.r, Ideal(r)) /\ Told(changed.r, Ideal(r))))
=============================================================================
