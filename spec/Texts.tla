------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* Texts are sequences of code points.  Cp gives the text of an ASCII      *)
(* string literal, so that specifications stay readable.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Printable ==
    " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf(c) ==
    IF c = "\n" THEN 10
    ELSE IF c = "\r" THEN 13
    ELSE IF c = "\t" THEN 9
    ELSE 31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c

Cp(str) == [i \in 1..Len(str) |-> CodeOf(SubSeq(str, i, i))]
=============================================================================
