----------------------------- MODULE LSOptions -----------------------------
(***************************************************************************)
(* What the options of a parse do to its result.                            *)
(*                                                                         *)
(* A list of options, the last one of a kind counts:                        *)
(*   "ignore" / "keep"      IgnoreComments(true / false)                    *)
(*   "warn" / "nowarn"      ExceptionalCommentsWarning(true / false)        *)
(*   "utf8" / "noutf8"      AllowInvalidUTF8(true / false)                  *)
(*   "low" / "max"          MaxExpressions: one too few / just enough       *)
(*   "norecover"/"recover"  Recover(false / true)                           *)
(*   "memo"/"nomemo", "stats", "debug"   change no result                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pairs == [ignore |-> {"ignore", "keep"}, warn |-> {"warn", "nowarn"}, utf8 |-> {"utf8", "noutf8"},
          low |-> {"low", "max"}, norecover |-> {"norecover", "recover"}, memo |-> {"memo", "nomemo"}]

RECURSIVE LastOf(_, _)
LastOf(o, S) == IF o = <<>> THEN "" ELSE IF o[Len(o)] \in S THEN o[Len(o)] ELSE LastOf(SubSeq(o, 1, Len(o) - 1), S)

Effect(o) == [f \in DOMAIN Pairs |-> LastOf(o, Pairs[f]) = f]
=============================================================================
