----------------------------- MODULE MC_Tokens ------------------------------
(***************************************************************************)
(* The tokens of every text of up to MAXLEN characters of an alphabet,     *)
(* compared with a grammar of the constructs that says what they look like *)
(* and not how they are found.                                             *)
(***************************************************************************)
EXTENDS Tokens

CONSTANTS ALPHA, MAXLEN

Alphabet ==
    CASE ALPHA = "tags" -> {35, 97, 58, 123, 125, 32}
      [] ALPHA = "attributes" -> {97, 58, 61, 39, 34, 32, 45}
      [] ALPHA = "mixed" -> {35, 97, 114, 39, 59, 61, 10, 233}

VARIABLES txt, at, done
vars == <<txt, at, done>>

Init ==
    /\ txt \in UNION { [1..n -> Alphabet] : n \in 0..MAXLEN }
    /\ at = 0 /\ done = <<>>

\* Not part of Init so that the texts are looked at in parallel
Begin == at = 0 /\ at' = 1 /\ UNCHANGED <<txt, done>>

\* done: the tokens so far, as the texts they cover
Lex == /\ at \in 1..Len(txt)
       /\ \E e \in Ends(txt, at) : at' = e /\ done' = Append(done, Text(txt, at, e))
       /\ UNCHANGED txt
Spec == Init /\ [][Begin \/ Lex]_vars

-----------------------------------------------------------------------------
(* The grammar *)

IsName(s) == s # <<>> /\ IsNameStart(s[1]) /\ \A i \in 1..Len(s) : IsNameChar(s[i])

\* s is written as prefix p and name n
Written(s, p, n) ==
    /\ IsName(n)
    /\ IF p = <<>> THEN s = n ELSE IsName(p) /\ s = p \o <<COLON>> \o n

Hashes(n) == [i \in 1..n |-> HASH]

\* Some text h hashes deep
IsTag(s, end, p, n, d) ==
    /\ d > 0
    /\ Len(s) >= d + Len(end)
    /\ SubSeq(s, 1, d) = Hashes(d)
    /\ SubSeq(s, Len(s) - Len(end) + 1, Len(s)) = end
    /\ Written(SubSeq(s, d + 1, Len(s) - Len(end)), p, n)

IsValue(s, v) ==
    \/ \E q \in {SQUOTE, DQUOTE} :
          s = <<q>> \o v \o <<q>> /\ \A i \in 1..Len(v) : v[i] # q /\ v[i] # LF
    \/ s = v /\ v # <<>> /\ ~IsQuote(v[1]) /\ \A i \in 1..Len(v) : ~IsWhitespace(v[i])

IsAttribute(s, p, n, v) ==
    \E i \in 1..Len(s) :
        /\ s[i] = EQUALS
        /\ Written(SubSeq(s, 1, i - 1), p, n)
        /\ IsValue(SubSeq(s, i + 1, Len(s)), v)

IsString(s, raw, d) ==
    \E h \in 0..Len(s), q \in {SQUOTE, DQUOTE} :
        LET end == <<q>> \o Hashes(h) IN
        /\ s = (IF raw THEN <<LETTER_R>> ELSE <<>>) \o Hashes(h) \o <<q>> \o d \o end
        /\ h = 0 => \A i \in 1..Len(d) : d[i] # LF
        \* it is not ended before
        /\ \A i \in 1..Len(d) : SubSeq(d \o end, i, i + h) # end

\* s is a construct that has the parts of token t
Is(s, t) ==
    CASE t.k = "ws" -> \A i \in 1..Len(s) : IsWhitespace(s[i])
      [] t.k = "cm" -> s[1] = SEMI
      [] t.k = "ct" -> IsString(s, t.raw, t.d)
      [] t.k = "op" -> IsTag(s, IF t.box THEN <<LBRACE>> ELSE <<>>, t.p, t.n, t.dp)
      [] t.k = "cl" -> IsTag(s, <<RBRACE>>, t.p, t.n, t.dp)
      [] t.k = "at" -> IsAttribute(s, t.p, t.n, t.v)

Lexed == IF at \notin 1..Len(txt) THEN [k |-> "end"] ELSE LexAt(txt, at)

\* A token is what the grammar says, and no error is given where the grammar
\* has a construct that is separated from what follows
Sound == Lexed.k \notin {"end", "er"} => Is(Text(txt, at, Lexed.e), Lexed)

Separated(e) == e > Len(txt) \/ IsWhitespace(txt[e])
\* The parts a name may be made of
Names(s) == LET c == { i \in 1..Len(s) : s[i] = COLON } IN
            {<<<<>>, s>>} \cup { <<SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s))>> : i \in c }
SomeName(s) == \E x \in Names(s) : Written(s, x[1], x[2])
LooksLikeTag(s) == \E d \in 1..Len(s), end \in {<<>>, <<LBRACE>>, <<RBRACE>>} :
                      Len(s) >= d + Len(end) /\ \E x \in Names(SubSeq(s, d + 1, Len(s) - Len(end))) :
                          IsTag(s, end, x[1], x[2], d)
LooksLikeAttribute(s) == \E i \in 1..Len(s) :
    /\ s[i] = EQUALS /\ SomeName(SubSeq(s, 1, i - 1))
    /\ \E a \in (i + 1)..(i + 2), b \in (Len(s) - 1)..Len(s) : IsValue(SubSeq(s, i + 1, Len(s)), SubSeq(s, a, b))
LooksLikeString(s) == \E r \in BOOLEAN, a, b \in 1..(Len(s) + 1) : IsString(s, r, SubSeq(s, a, b - 1))

Complete ==
    Lexed.k = "er" =>
        \A e \in (at + 1)..End(txt) :
            LET s == Text(txt, at, e) IN
            /\ ~LooksLikeString(s)
            /\ Separated(e) => ~LooksLikeTag(s) /\ ~LooksLikeAttribute(s)

\* The tokens make up the text
Tiles == FoldLeft(LAMBDA a, t : a \o t, <<>>, done) = SubSeq(txt, 1, at - 1)
NotEmpty == \A i \in 1..Len(done) : done[i] # <<>>
\* A token depends only on the text from its start on
Local == at \in 1..Len(txt) =>
            LET rest == SubSeq(txt, at, Len(txt))
                t == LexAt(rest, 1)
            IN t = [LexAt(txt, at) EXCEPT !.s = @ - at + 1, !.e = @ - at + 1]
=============================================================================
