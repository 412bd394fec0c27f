----------------------------- MODULE RoundTrip -----------------------------
(***************************************************************************)
(* Judges recorded pairs of a text s and the text f the real code printed   *)
(* for it: f must mean the same as s and hold the same comments.            *)
(***************************************************************************)
EXTENDS LSMeaning, Json, TLC, IOUtils

Pairs == JsonDeserialize(IOEnv.IN)

Judge(p) ==
  LET a == Parse(p[1])
      b == Parse(p[2])
  IN IF a.st # "ok" THEN [st |-> "rejected"]
     ELSE IF b.st # "ok" THEN [st |-> "invalid"]
     ELSE [st   |-> "ok",
           same |-> Meaning(a.v) = Meaning(b.v),
           cmt  |-> CommentsAt(a.v) = CommentsAt(b.v),
           na   |-> Numbers(a.v),
           nb   |-> Numbers(b.v)]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Pairs) |-> Judge(Pairs[k])])
=============================================================================
