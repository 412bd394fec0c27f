------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* Explains the texts of a file (IN) to another (OUT), and checks on each   *)
(* that the machine LSPeg and the reader LSParse agree.                     *)
(***************************************************************************)
EXTENDS LSPeg, LSParse, Json, TLC, IOUtils

Texts == JsonDeserialize(IOEnv.IN)

SameLanguage(e, r) == \/ e.st = r.st
                      \* a plugin in an array or hash: an error of an action, the machine goes on
                      \/ r.st = "die" /\ r.m \in {"plugin in array", "plugin in hash"}
Inside(s, e) == /\ e.fm # <<>> => (e.fs <= e.fe /\ e.fe \in 1..(Len(s) + 1))
                /\ e.xp \in 1..(Len(s) + 1)
                /\ e.i \in 1..(Len(s) + 1)
Prescribed(s) ==
  LET e == Explain(s)
      r == ParseBytes(s, TRUE)
      plug == r.st = "die" /\ r.m \in {"plugin in array", "plugin in hash"}
  IN [e |-> e, plug |-> plug, bad |-> HasBad(s), agree |-> SameLanguage(e, r) /\ Inside(s, e)]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Texts) |-> Prescribed(Texts[k])])
=============================================================================
