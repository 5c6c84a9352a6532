-------------------------------- MODULE Xml ---------------------------------
(***************************************************************************)
(* Events as XML events.                                                   *)
(*                                                                         *)
(* An event is a record as in Parser: k, and v, n, at, ct, d, pn.  An XML  *)
(* name is [p, u, l]: prefix and namespace are sequences of at most one    *)
(* text.  The namespace of an XML name may be left out, as it follows from *)
(* the declarations, which are attributes.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Opt(t) == IF t = <<>> THEN <<>> ELSE <<t>>

NameAgrees(n, x) ==
    /\ x.l = n[3]
    /\ x.p = Opt(n[1])
    /\ x.u \in {<<>>, Opt(n[2])}

AttrAgrees(a, x) == NameAgrees(a, x.n) /\ x.v = a[4]

AttrsAgree(at, xs) ==
    /\ Len(at) = Len(xs)
    /\ \A i \in 1..Len(at) : AttrAgrees(at[i], xs[i])

\* XML has two versions; other numbers are not judged
VersionAgrees(v, x) ==
    /\ v = 100 => x = "1.0"
    /\ v = 110 => x = "1.1"

\* Raw content may be a CDATA section, whitespace may be marked as such
ContentKinds(ct) ==
    {"ct"} \cup (IF ct = "raw" THEN {"cd"} ELSE {}) \cup (IF ct = "ws" THEN {"ws"} ELSE {})

Optional(e) == IF "d" \in DOMAIN e THEN <<e.d>> ELSE <<>>

\* What a writer is given for event e
ForWriter(e, x) ==
    CASE e.k = "sd" -> x.k = "sd" /\ VersionAgrees(e.v, x.v)
      [] e.k = "ed" -> x.k = "none"
      [] e.k = "se" -> x.k = "se" /\ NameAgrees(e.n, x.n) /\ AttrsAgree(e.at, x.at)
      [] e.k = "ee" -> x.k = "ee" /\ (x.n = <<>> \/ NameAgrees(e.n, x.n[1]))
      [] e.k = "ct" -> x.k \in ContentKinds(e.ct) /\ x.d = e.d
      [] e.k = "cm" -> x.k = "cm" /\ x.d = e.d
      [] e.k = "pi" -> x.k = "pi" /\ x.pn = e.pn /\ x.d = Optional(e)

\* What a reader gives for event e
FromReader(e, x) ==
    CASE e.k = "sd" -> x.k = "sd" /\ VersionAgrees(e.v, x.v)
      [] e.k = "ed" -> x.k = "ed"
      [] e.k = "se" -> x.k = "se" /\ NameAgrees(e.n, x.n) /\ AttrsAgree(e.at, x.at)
      [] e.k = "ee" -> x.k = "ee" /\ NameAgrees(e.n, x.n)
      [] e.k = "ct" -> x.k \in ContentKinds(e.ct) /\ x.d = e.d
      [] e.k = "cm" -> x.k = "cm" /\ x.d = e.d
      [] e.k = "pi" -> x.k = "pi" /\ x.pn = e.pn /\ x.d = Optional(e)
=============================================================================
