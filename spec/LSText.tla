------------------------------- MODULE LSText -------------------------------
(***************************************************************************)
(* Text as TLA+ values.  A text is a sequence of integers: Unicode code    *)
(* points, or  BadByte + b  for a byte b that is not valid UTF-8.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BadByte == 2000000          \* code of the invalid byte 0
IsBad(c) == c >= BadByte

\* Byte width of a code point in UTF-8.
Width(c) == IF c >= BadByte THEN 1
            ELSE IF c < 128 THEN 1
            ELSE IF c < 2048 THEN 2
            ELSE IF c < 65536 THEN 3 ELSE 4

TAB == 9    NL == 10    CR == 13    SP == 32
BANG == 33  DQ == 34    HASH == 35  SQ == 39
LPAR == 40  RPAR == 41  COMMA == 44 DASH == 45  DOT == 46  SLASH == 47
LT == 60    EQ == 61    GT == 62
LBRK == 91  BSL == 92   RBRK == 93  USC == 95
LBRC == 123 RBRC == 125 TILDE == 126

WS        == {TAB, NL, CR, SP}
Digits    == 48..57
Letters   == (65..90) \cup (97..122)
NameChars == Letters \cup Digits \cup {USC, DASH}
BareStart == Letters \cup {USC}
BareRest  == Letters \cup Digits \cup {USC}

KInput  == <<105,110,112,117,116>>
KFilter == <<102,105,108,116,101,114>>
KOutput == <<111,117,116,112,117,116>>
KIf     == <<105,102>>
KElse   == <<101,108,115,101>>
KIn     == <<105,110>>
KNotSp  == <<110,111,116,32>>
KNot    == <<110,111,116>>
KAnd    == <<97,110,100>>
KOr     == <<111,114>>
KXor    == <<120,111,114>>
KNand   == <<110,97,110,100>>
KArrow  == <<EQ,GT>>
KEqEq   == <<EQ,EQ>>
KNeq    == <<BANG,EQ>>
KLe     == <<LT,EQ>>
KGe     == <<GT,EQ>>
KLt     == <<LT>>
KGt     == <<GT>>
KMatch  == <<EQ,TILDE>>
KNMatch == <<BANG,TILDE>>

\* Literal L occurs in s at index i.
At(s, i, L) == /\ i + Len(L) - 1 <= Len(s)
               /\ \A k \in 1..Len(L) : s[i + k - 1] = L[k]

Has(s, i, c) == i <= Len(s) /\ s[i] = c

\* First index >= i whose character is not in C (Len(s)+1 if there is none).
SpanEnd(s, i, C) ==
  IF i > Len(s) THEN i ELSE IF s[i] \notin C THEN i ELSE
  CHOOSE k \in (i + 1)..(Len(s) + 1) :
    /\ IF k > Len(s) THEN TRUE ELSE s[k] \notin C
    /\ \A j \in i..(k - 1) : s[j] \in C

\* First index >= i whose character is in C (Len(s)+1 if there is none).
FindIn(s, i, C) ==
  IF i > Len(s) THEN i ELSE IF s[i] \in C THEN i ELSE
  CHOOSE k \in (i + 1)..(Len(s) + 1) :
    /\ IF k > Len(s) THEN TRUE ELSE s[k] \in C
    /\ \A j \in i..(k - 1) : s[j] \notin C

\* Drop the blanks (U+0020 only) around a text.
TrimL(x) == SubSeq(x, SpanEnd(x, 1, {SP}), Len(x))
TrimR(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] # SP THEN x ELSE
            SubSeq(x, 1, CHOOSE k \in 0..Len(x) : /\ \A j \in (k + 1)..Len(x) : x[j] = SP
                                                  /\ IF k = 0 THEN TRUE ELSE x[k] # SP)
Trim(x) == TrimR(TrimL(x))

Count(s, i, j, c) == Cardinality({k \in i..j : s[k] = c})
=============================================================================
