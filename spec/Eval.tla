-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluates the specification on texts recorded in a file (environment     *)
(* variable IN, one JSON array of texts) and writes what it prescribes for  *)
(* each of them to another (OUT, one JSON record per line).                 *)
(***************************************************************************)
EXTENDS LSParse, LSPrint, LSLimits, Json, TLC, IOUtils

Texts == JsonDeserialize(IOEnv.IN)

Prescribed(s) ==
  LET r == Parse(s)
  IN CASE r.st = "ok"  -> [st |-> "ok", v |-> r.v, w |-> r.w, fmt |-> Format(r.v),
                           x |-> Inexpressible(r.v)]
       [] r.st = "die" -> [st |-> "die", m |-> r.m]
       [] r.st = "no"  -> [st |-> "no"]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Texts) |-> Prescribed(Texts[k])])
=============================================================================
