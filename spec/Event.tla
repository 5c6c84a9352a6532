------------------------------- MODULE Event --------------------------------
(***************************************************************************)
(* Events made by the constructors, and what their accessors say.          *)
(*                                                                         *)
(* A request r to make an event has: kind ("sd", "ed", "se", "ee", "cm",   *)
(* "pi", and "cr", "ci", "cw" for content), ver, p, u, l (a name), data,   *)
(* has (data is present), lens (line lengths of a comment), attrs, want     *)
(* (the span).                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Kind(r) == IF r.kind \in {"cr", "ci", "cw"} THEN "ct" ELSE r.kind
Content(r) == CASE r.kind = "cr" -> "raw" [] r.kind = "ci" -> "int" [] r.kind = "cw" -> "ws"
FullName(r) == <<r.p, r.u, r.l>>

\* The parts of the event are those it was made of
Made(r, e) ==
    /\ e.k = Kind(r)
    /\ e.sp = r.want
    /\ CASE Kind(r) = "sd" -> e.v = r.ver
         [] Kind(r) = "se" -> e.n = FullName(r) /\ e.at = r.attrs
         [] Kind(r) = "ee" -> e.n = FullName(r)
         [] Kind(r) = "ct" -> e.ct = Content(r) /\ e.d = r.data
         [] Kind(r) = "cm" -> e.d = r.data /\ e.ln = r.lens
         [] Kind(r) = "pi" -> e.pn = r.l /\ (IF r.has = 1 THEN "d" \in DOMAIN e /\ e.d = r.data ELSE "d" \notin DOMAIN e)
         [] OTHER -> TRUE

If(c, x) == IF c THEN x ELSE <<>>

\* The accessors agree with the kind and the parts
Told(r, e) ==
    LET k == Kind(r) IN
    /\ e.ty = k
    /\ (e.isd = 1) = (k = "sd")
    /\ (e.ied = 1) = (k = "ed")
    /\ e.asd = If(k = "sd", <<r.ver>>)
    /\ Len(e.act) = (IF k = "ct" THEN 2 ELSE 0)
    /\ k = "ct" => e.act[1] = Content(r) /\ e.act[2] = r.data
    /\ e.aee = If(k = "ee", <<FullName(r)>>)
    /\ Len(e.ase) = (IF k = "se" THEN 2 ELSE 0)
    /\ k = "se" => e.ase[1] = FullName(r) /\ e.ase[2] = r.attrs
=============================================================================
