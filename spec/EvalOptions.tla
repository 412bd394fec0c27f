----------------------------- MODULE EvalOptions -----------------------------
(***************************************************************************)
(* What the specification prescribes for texts, with and without the        *)
(* options that matter: comments ignored (vi), invalid bytes allowed (u).   *)
(***************************************************************************)
EXTENDS LSParse, LSPrint, LSLimits, Json, TLC, IOUtils

Texts == JsonDeserialize(IOEnv.IN)

RECURSIVE XValue(_), XPlugin(_)
XPlugin(p) == [p EXCEPT !.c = <<>>, !.fc = <<>>,
                        !.as = [k \in 1..Len(@) |-> [n |-> @[k].n, v |-> XValue(@[k].v), p |-> @[k].p, c |-> <<>>]]]
XValue(v) == CASE v.t = "array" -> [v EXCEPT !.fc = <<>>, !.vs = [k \in 1..Len(@) |-> [v |-> XValue(@[k].v), c |-> <<>>]]]
               [] v.t = "hash"  -> [v EXCEPT !.fc = <<>>, !.es = [k \in 1..Len(@) |-> [@[k] EXCEPT !.v = XValue(@), !.c = <<>>]]]
               [] v.t = "plugin" -> XPlugin(v)
               [] OTHER -> v
RECURSIVE XCond(_), XBody(_)
XExpr(e) == CASE e.k \in {"par", "npar"} -> [e EXCEPT !.cond = XCond(@)]
              [] e.k = "nsel" -> e
              [] e.k = "rv"   -> [e EXCEPT !.r = XValue(@)]
              [] OTHER        -> [e EXCEPT !.l = XValue(@), !.r = XValue(@)]
XCond(c) == [k \in 1..Len(c) |-> XExpr(c[k])]
XBlock(x) == [x EXCEPT !.b = XBody(@), !.c = <<>>, !.fc = <<>>]
XIf(x) == [XBlock(x) EXCEPT !.cond = XCond(@)]
XBop(x) == IF x.t = "plugin" THEN XPlugin(x)
           ELSE [x EXCEPT !.if = XIf(@), !.ei = [k \in 1..Len(@) |-> XIf(@[k])], !.el = XBlock(@)]
XBody(b) == [k \in 1..Len(b) |-> XBop(b[k])]
\* The configuration without any comment.
NoComments(c) == [input  |-> [k \in 1..Len(c.input)  |-> XBlock(c.input[k])],
                  filter |-> [k \in 1..Len(c.filter) |-> XBlock(c.filter[k])],
                  output |-> [k \in 1..Len(c.output) |-> XBlock(c.output[k])], fc |-> <<>>]

Outcome(r) ==
  CASE r.st = "ok"  -> [st |-> "ok", v |-> r.v, w |-> r.w, vi |-> NoComments(r.v), fmt |-> Format(r.v), fmti |-> Format(NoComments(r.v)), x |-> Inexpressible(r.v)]
    [] r.st = "die" -> [st |-> "die", m |-> r.m]
    [] r.st = "no"  -> [st |-> "no"]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Texts) |->
   [a |-> Outcome(Parse(Texts[k])), u |-> Outcome(ParseBytes(Texts[k], TRUE))]])
=============================================================================
