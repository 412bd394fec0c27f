-------------------------------- MODULE Pump --------------------------------
(***************************************************************************)
(* Families of texts  start . pump^k . finish  for the question how a parse  *)
(* ends and what it costs as the text grows.  The machine writes a family   *)
(* piece by piece; for small k the reader says whether the text is accepted. *)
(***************************************************************************)
EXTENDS LSParse, TLC, Json

CONSTANTS MaxPump,       \* pieces that are repeated
          Pick(_), Emit

VARIABLES phase, start, pump, finish

PickAll(S) == S
PickOne(S) == {RandomElement(S)}

KFil == KFilter \o <<LBRC>>
Starts == { <<>>, KFil, KFil \o <<97,LBRC>>, KFil \o <<97,LBRC,98>> \o KArrow, KFil \o <<97,LBRC,98>> \o KArrow \o <<LBRK>>,
            KFil \o <<97,LBRC,98>> \o KArrow \o <<LBRC>>, KFil \o KIf \o <<SP>>, KFil \o KIf \o <<SP,LBRK,97,RBRK,SP>> \o KIn \o <<SP,LBRK>>,
            KFil \o KIf \o <<LBRK,97,RBRK,LBRC>>, KFil \o <<97,LBRC,98>> \o KArrow \o <<DQ>> }
Pieces == { <<SP>>, <<NL>>, <<HASH,99,NL>>, <<HASH>>, <<97>>, <<97>> \o KArrow, <<97>> \o KArrow \o <<49,SP>>,
            <<DQ>>, <<DQ,120,DQ>>, <<SQ>>, <<SQ,120,SQ>>, <<SLASH>>, <<SLASH,120,SLASH>>, <<LBRK>>, <<RBRK>>,
            <<LBRK,97,RBRK>>, <<LBRC>>, <<RBRC>>, <<LPAR>>, <<RPAR>>, <<BANG>>, <<BANG,LPAR>>, <<COMMA>>, <<49>>, <<DASH>>, <<DOT>>,
            KArrow, KEqEq, KIn, KNotSp \o KIn, <<SP>> \o KAnd \o <<SP>>, KIf, KIf \o <<LBRK,97,RBRK,LBRC>>, KElse,
            KElse \o <<SP>> \o KIf \o <<LBRK,97,RBRK,LBRC>>, <<RBRC>> \o KElse \o <<LBRC>>, <<97,LBRC>>, <<97,LBRC,RBRC>>,
            KInput \o <<LBRC>>, KFil \o <<RBRC>>, <<BSL>>, <<LBRK,49,COMMA>>, <<LBRC,97,97>> \o KArrow, <<97>> \o KArrow \o <<97,LBRC>>,
            <<BadByte + 255>>, <<0>>, <<LBRK,97,RBRK,SP>> \o KIn \o <<LBRK>>, <<LPAR,LBRK,97,RBRK,RPAR>> \o KOr, <<233>>,
            <<LBRK,97,RBRK>> \o KMatch, <<45,49,DOT>> }
Finishes == { <<>>, <<RBRC>>, <<49>>, <<RBRC,RBRC>> }

RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN <<>> ELSE x \o Times(x, k - 1)
Family(k) == start \o Times(pump, k) \o finish

Init == phase = 0 /\ start = <<>> /\ pump = <<>> /\ finish = <<>>
Next == \/ /\ phase = 0 /\ phase' = 1
           /\ \E x \in Pick(Starts) : start' = x
           /\ UNCHANGED <<pump, finish>>
        \/ /\ phase \in 1..MaxPump /\ phase' = phase + 1
           /\ \E x \in Pick(Pieces) : pump' = pump \o x
           /\ UNCHANGED <<start, finish>>
        \/ /\ phase \in 2..(MaxPump + 1) /\ phase' = 99
           /\ \E x \in Pick(Finishes) : finish' = x
           /\ UNCHANGED <<start, pump>>
Spec == Init /\ [][Next]_<<phase, start, pump, finish>>

\* Each text has exactly one of the two outcomes: the reader is a total function.
Outcome(s) == IF Parse(s).st = "ok" THEN "value" ELSE "error"
Total == phase = 99 => \A k \in 0..2 : Parse(Family(k)).st \in {"ok", "no", "die"}

Printed == (phase = 99 /\ Emit) =>
  PrintT(<<"PUMP", ToJson([start |-> start, pump |-> pump, finish |-> finish, want |-> [k \in 1..3 |-> Outcome(Family(k - 1))]])>>)
=============================================================================
