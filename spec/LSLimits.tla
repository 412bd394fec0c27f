------------------------------ MODULE LSLimits ------------------------------
(***************************************************************************)
(* Configurations no standardized text can express.                         *)
(*                                                                         *)
(* In a condition "[" starts a selector, if the text up to the next "]"     *)
(* holds no "[" and no ",", and an array otherwise.  An array of one hash,  *)
(* that is an array only because of a comma in a comment in an exceptional  *)
(* place, reads as a selector as soon as that comment is dropped.           *)
(***************************************************************************)
EXTENDS LSParse, LSPrint

RECURSIVE LCond(_), LBody(_)

ReadsAsSelector(v) == v.t = "array" /\ Selector(Text(PArray(v)), 1).st = "ok"

LExpr(e) ==
  CASE e.k \in {"par", "npar"} -> LCond(e.cond)
    [] e.k = "nsel" -> FALSE
    [] e.k = "rv"   -> ReadsAsSelector(e.r)
    [] OTHER        -> ReadsAsSelector(e.l) \/ ReadsAsSelector(e.r)
LCond(c) == \E k \in 1..Len(c) : LExpr(c[k])

LBop(x) == /\ x.t = "branch"
           /\ \/ LCond(x.if.cond)
              \/ LBody(x.if.b)
              \/ \E k \in 1..Len(x.ei) : LCond(x.ei[k].cond) \/ LBody(x.ei[k].b)
              \/ LBody(x.el.b)
LBody(b) == \E k \in 1..Len(b) : LBop(b[k])

Inexpressible(c) == \/ \E k \in 1..Len(c.input)  : LBody(c.input[k].b)
                    \/ \E k \in 1..Len(c.filter) : LBody(c.filter[k].b)
                    \/ \E k \in 1..Len(c.output) : LBody(c.output[k].b)
=============================================================================
