------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Escaping and quoting of values (package astutil).                        *)
(*                                                                         *)
(* The state machine writes a value character by character.  Each state is  *)
(* a value; the invariants are the properties of the operators below, and   *)
(* each state is printed with what the real functions must return for it.   *)
(***************************************************************************)
EXTENDS LSParse, TLC, Json

CONSTANTS MaxLen, Alphabet, Pick(_), Emit

VARIABLE x

Letter(c) == CASE c = NL -> 110 [] c = CR -> 114 [] c = TAB -> 116 [] OTHER -> c
Special   == {DQ, SQ, BSL, NL, CR, TAB}

RECURSIVE Escape(_), Unescape(_)
Escape(s) == IF s = <<>> THEN <<>>
             ELSE (IF s[1] \in Special THEN <<BSL, Letter(s[1])>> ELSE <<s[1]>>) \o Escape(Tail(s))

Meant(c) == CASE c = 110 -> NL [] c = 114 -> CR [] c = 116 -> TAB [] OTHER -> c
Unescape(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = BSL /\ Len(s) > 1
       THEN (IF s[2] \in {DQ, SQ, BSL, 110, 114, 116} THEN <<Meant(s[2])>> ELSE <<BSL, s[2]>>)
            \o Unescape(SubSeq(s, 3, Len(s)))
       ELSE <<s[1]>> \o Unescape(Tail(s))

\* The text is exactly one token of the kind, with the content v.
IsToken(text, v, kind) ==
  LET r == IF kind = "bare" THEN Bareword(text, 1) ELSE StringValue(text, 1)
  IN r.st = "ok" /\ r.i = Len(text) + 1 /\ r.v.t = kind /\ r.v.x = v

Wrap(v, kind) == CASE kind = "dq" -> <<DQ>> \o v \o <<DQ>>
                   [] kind = "sq" -> <<SQ>> \o v \o <<SQ>>
                   [] kind = "bare" -> v
Kinds == {"dq", "sq", "bare"}

\* Quote: the wrapped value, or an error.
QuoteOk(v, kind) == IsToken(Wrap(v, kind), v, kind)

\* QuoteWithEscape: bare quotes get a backslash; characters that are not
\* allowed in a bareword become underscores.
RECURSIVE EscQ(_, _, _)
EscQ(s, i, q) == IF i > Len(s) THEN <<>>
                 ELSE (IF s[i] = q /\ (i = 1 \/ s[i - 1] # BSL) THEN <<BSL, q>> ELSE <<s[i]>>) \o EscQ(s, i + 1, q)
Bare(s) == [i \in 1..Len(s) |-> IF s[i] \in BareRest /\ ~(i = 1 /\ s[i] \in Digits) THEN s[i] ELSE USC]
QuoteEsc(v, kind) == CASE kind = "dq" -> Wrap(EscQ(v, 1, DQ), kind)
                       [] kind = "sq" -> Wrap(EscQ(v, 1, SQ), kind)
                       [] kind = "bare" -> Bare(v)
\* Values no token of the kind can hold, however it is escaped.
Representable(v, kind) == IF kind = "bare" THEN Len(v) > 1 ELSE v = <<>> \/ v[Len(v)] # BSL

AlphabetQuick == {DQ, SQ, BSL, NL, CR, 110, 116, 97, 48, 233}
AlphabetAll   == {DQ, SQ, BSL, NL, CR, TAB, 110, 114, 116, 97, 90, 95, 48, 57, SP, HASH, SLASH, 0, 233, 65533, 119070, 8232}
PickAll(S) == S
PickOne(S) == {RandomElement(S)}

Init == x = <<>>
Next == /\ Len(x) < MaxLen
        /\ \E c \in Pick(Alphabet) : x' = Append(x, c)
Spec == Init /\ [][Next]_x

Inverse   == Unescape(Escape(x)) = x
NoBare    == LET e == Escape(x) IN \A i \in 1..Len(e) :
               /\ e[i] \notin {NL, CR, TAB}
               /\ e[i] \in {DQ, SQ} => i > 1 /\ e[i - 1] = BSL
EscapedIsToken == \A k \in {"dq", "sq"} : QuoteOk(Escape(x), k) \/ (x # <<>> /\ x[Len(x)] = BSL)
QuoteEscOk == \A k \in Kinds : Representable(x, k) =>
                LET t == QuoteEsc(x, k)
                    v == CASE k = "bare" -> t [] OTHER -> SubSeq(t, 2, Len(t) - 1)
                IN IsToken(t, v, k)
\* nothing is escaped that need not be
QuoteAgree == \A k \in Kinds : QuoteOk(x, k) => QuoteEsc(x, k) = Wrap(x, k)

Printed == Emit => PrintT(<<"STR", ToJson([x |-> x, e |-> Escape(x), u |-> Unescape(x),
   q  |-> [k \in Kinds |-> QuoteOk(x, k)],
   w  |-> [k \in Kinds |-> Wrap(x, k)],
   qe |-> [k \in Kinds |-> QuoteEsc(x, k)],
   r  |-> [k \in Kinds |-> Representable(x, k)]])>>)
=============================================================================
