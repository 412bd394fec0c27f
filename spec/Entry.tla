-------------------------------- MODULE Entry --------------------------------
(***************************************************************************)
(* The ways into the parser: bytes (Parse), a reader (ParseReader), a file   *)
(* (ParseFile) of several kinds.                                             *)
(*                                                                         *)
(* A reader delivers a text in pieces of any number of bytes, also of none,  *)
(* and ends, possibly together with the last piece, or fails.  It may end    *)
(* early, after any character: then the text is what it delivered.           *)
(* A text may be longer than written here: its pad, a blank in front of      *)
(* closing brackets, stands for as many blanks as "long" says, which gives   *)
(* the same tree (PadLemma).                                                 *)
(***************************************************************************)
EXTENDS LSParse, TLC, Json

CONSTANTS Texts, Ways, Names, Longs, Flags, Sizes, MaxReads, Choose(_), Emit

a == 97  b == 98
P(x, y) == [pre |-> x, post |-> y]
\* pre and post of the texts; the pad stands between them
Samples == <<
  P(<<>>, <<>>),
  P(KInput \o <<LBRC, a, LBRC, b, EQ, GT, 49, SP>>, <<RBRC, RBRC>>),
  P(KInput \o <<LBRC, a, LBRC, b, EQ, GT, DQ, 233, 19990, 119070, NL, DQ>>, <<RBRC, SP, RBRC, NL>>),
  P(KInput \o <<LBRC, a, LBRC, b, EQ, GT, LBRK, 49, COMMA, SQ, 120, SQ>>, <<RBRK, RBRC, RBRC>>),
  P(KInput \o <<LBRC, a, LBRC, RBRC>>, <<RBRC, RBRC>>),
  P(KInput \o <<LBRC, a, LBRC, b, EQ, GT, LBRK, 49>>, <<RBRC, RBRC>>),
  P(KInput \o <<LBRC, 233, RBRC>>, <<>>),
  P(<<HASH, 233, 119070, CR, NL>> \o KFilter \o <<LBRC, 105, 102, LBRK, a, RBRK, LBRC, a, LBRC, RBRC>>, <<RBRC, RBRC>>),
  P(KOutput \o <<LBRC, a, LBRC, b, EQ, GT, DQ, BadByte + 200, DQ>>, <<RBRC, RBRC>>),
  P(KOutput \o <<LBRC, RBRC>>, <<BadByte + 240>>),
  P(<<65279>> \o KOutput \o <<LBRC>>, <<RBRC>>),
  P(<<HASH, SP, 0, 120>>, <<NL>>)
>>
TextsAll == 1..Len(Samples)
WaysAll  == {"bytes", "reader", "file", "pipe", "missing", "directory"}
NamesAll == {"f", "", "a b.conf", "%d%s%%.conf", "x:1:2", "é𝄞", "sub/f", "./f", "sub/../f"}
PickAll(S) == S
PickOne(S) == {RandomElement(S)}

Blanks(k) == [i \in 1..k |-> SP]
Stretched(t, k) == Samples[t].pre \o Blanks(k) \o Samples[t].post
Whole(t) == Stretched(t, 1)

VARIABLES text, way, name, long,
          any, warn,      \* options: invalid bytes are admitted, warnings
          chars,          \* what was delivered: whole characters ...
          part,           \* ... and bytes of the next one
          reads, end
vars == <<text, way, name, long, any, warn, chars, part, reads, end>>

Init == /\ text \in Texts /\ way \in Ways /\ name \in Names /\ long \in Longs
        /\ any \in Flags /\ warn \in Flags
        /\ (IF way \in {"bytes", "reader"} THEN TRUE ELSE name # "")
        /\ chars = 0 /\ part = 0 /\ reads = <<>>
        /\ end = CASE way = "missing"   -> "error"
                   [] way = "directory" -> "error"
                   [] way \in {"bytes", "file"} -> "eof"
                   [] OTHER -> "open"

\* (characters, bytes of the next) after n more bytes; characters > Len if there are none
RECURSIVE Forward(_, _, _, _)
Forward(s, c, p, n) ==
  IF n = 0 THEN [c |-> c, p |-> p]
  ELSE IF c >= Len(s) THEN [c |-> c + 1, p |-> 0]
  ELSE LET rest == Width(s[c + 1]) - p
       IN IF n >= rest THEN Forward(s, c + 1, 0, n - rest) ELSE [c |-> c, p |-> p + n]

\* A piece of n bytes (-1: all the rest), and what comes with it.
Piece(n, e) ==
  LET s == Whole(text)
      f == IF n = -1 THEN [c |-> Len(s), p |-> 0] ELSE Forward(s, chars, part, n)
  IN /\ f.c <= Len(s)
     /\ (IF n # 0 \/ e # "open" \/ reads = <<>> THEN TRUE ELSE reads[Len(reads)].n # 0)
     /\ (IF e = "eof" THEN f.p = 0 ELSE TRUE)
     /\ chars' = f.c /\ part' = f.p /\ end' = e
     /\ reads' = Append(reads, [n |-> n, e |-> e])

Next == /\ end = "open" /\ way \in {"reader", "pipe"}
        /\ \E n \in Choose(Sizes \cup {0, -1}) : \E e \in Choose({"open", "eof", "error"}) :
             /\ (IF Len(reads) = MaxReads - 1 THEN e # "open" ELSE TRUE)
             /\ (IF way = "pipe" THEN e # "error" ELSE TRUE)
             /\ Piece(n, e)
        /\ UNCHANGED <<text, way, name, long, any, warn>>

Spec == Init /\ [][Next]_vars

Delivered == IF way \in {"bytes", "file"} THEN Whole(text) ELSE SubSeq(Whole(text), 1, chars)
Result == IF end = "error" THEN [st |-> "error"]
          ELSE LET r == ParseBytes(Delivered, any)
               IN CASE r.st = "ok"  -> [st |-> "ok", v |-> r.v, w |-> IF warn THEN r.w ELSE <<>>]
                    [] r.st = "die" -> [st |-> "die", m |-> r.m]
                    [] r.st = "no"  -> [st |-> "no"]

-----------------------------------------------------------------------------
\* However the text is cut, what is parsed is the text.
Cut == end = "eof" /\ chars = Len(Whole(text)) => Delivered = Whole(text)

\* The number of blanks in the pad is of no importance.
Outcome(s) == LET r == ParseBytes(s, any) IN IF r.st = "ok" THEN <<r.st, r.v>> ELSE IF r.st = "die" THEN <<r.st, r.m>> ELSE <<r.st>>
PadLemma == reads = <<>> => \A k \in 2..6 : Outcome(Stretched(text, k)) = Outcome(Whole(text))

\* A file that cannot be read gives no configuration.
NoFile == way \in {"missing", "directory"} => Result.st = "error"

Doc == [text |-> Whole(text), pad |-> Len(Samples[text].pre) + 1, way |-> way, name |-> name, long |-> long, any |-> any, warn |-> warn,
        given |-> Delivered, all |-> Delivered = Whole(text), reads |-> reads, r |-> Result]
Printed == Emit /\ end # "open" => PrintT(<<"ENTRY", ToJson(Doc)>>)
=============================================================================
