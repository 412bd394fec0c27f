----------------------------- MODULE LSMeaning -----------------------------
(***************************************************************************)
(* What a configuration means, apart from how it is laid out.               *)
(*                                                                         *)
(* View(c, ...) is the configuration without positions; the two switches    *)
(* keep or drop the comments (their text, not the blank lines around them)  *)
(* and the spelling of numbers.                                             *)
(***************************************************************************)
EXTENDS LSParse

Texts(cs, cm) == IF cm THEN [k \in 1..Len(cs) |-> cs[k].x] ELSE <<>>

RECURSIVE VValue(_, _, _), VPlugin(_, _, _)

VAttrs(as, cm, nm) == [k \in 1..Len(as) |->
   [n |-> as[k].n, v |-> VValue(as[k].v, cm, nm), c |-> Texts(as[k].c, cm)]]

VPlugin(p, cm, nm) ==
  [t |-> "plugin", n |-> p.n, as |-> VAttrs(p.as, cm, nm), c |-> Texts(p.c, cm), fc |-> Texts(p.fc, cm)]

VValue(v, cm, nm) ==
  CASE v.t \in {"bare", "dq", "sq", "regexp"} -> [t |-> v.t, x |-> v.x]
    [] v.t = "number" -> [t |-> "number", x |-> IF nm THEN v.x ELSE <<>>]
    [] v.t = "selector" -> [t |-> "selector", x |-> [k \in 1..Len(v.es) |-> v.es[k].x]]
    [] v.t = "array" -> [t |-> "array", fc |-> Texts(v.fc, cm),
                         vs |-> [k \in 1..Len(v.vs) |-> <<VValue(v.vs[k].v, cm, nm), Texts(v.vs[k].c, cm)>>]]
    [] v.t = "hash" -> [t |-> "hash", fc |-> Texts(v.fc, cm),
                        es |-> [k \in 1..Len(v.es) |-> <<VValue(v.es[k].k, cm, nm), VValue(v.es[k].v, cm, nm),
                                                         Texts(v.es[k].c, cm)>>]]
    [] v.t = "plugin" -> VPlugin(v, cm, nm)

RECURSIVE VCond(_, _, _)
VExpr(e, cm, nm) ==
  CASE e.k \in {"par", "npar"} -> <<e.op, e.k, VCond(e.cond, cm, nm)>>
    [] e.k = "nsel"            -> <<e.op, e.k, VValue(e.sel, cm, nm)>>
    [] e.k \in {"in", "notin"} -> <<e.op, e.k, VValue(e.l, cm, nm), VValue(e.r, cm, nm)>>
    [] e.k \in {"cmp", "re"}   -> <<e.op, e.k, VValue(e.l, cm, nm), e.o, VValue(e.r, cm, nm)>>
    [] e.k = "rv"              -> <<e.op, e.k, VValue(e.r, cm, nm)>>
VCond(c, cm, nm) == [k \in 1..Len(c) |-> VExpr(c[k], cm, nm)]

RECURSIVE VBody(_, _, _)
VBlock(x, cm, nm) == [b |-> VBody(x.b, cm, nm), c |-> Texts(x.c, cm), fc |-> Texts(x.fc, cm)]
VBop(x, cm, nm) ==
  IF x.t = "plugin" THEN VPlugin(x, cm, nm)
  ELSE [t    |-> "branch",
        if   |-> VBlock(x.if, cm, nm),
        cond |-> VCond(x.if.cond, cm, nm),
        ei   |-> [k \in 1..Len(x.ei) |-> <<VCond(x.ei[k].cond, cm, nm), VBlock(x.ei[k], cm, nm)>>],
        el   |-> VBlock(x.el, cm, nm)]      \* an empty else block means nothing
VBody(b, cm, nm) == [k \in 1..Len(b) |-> VBop(b[k], cm, nm)]

VSections(ss, cm, nm) == [k \in 1..Len(ss) |-> VBlock(ss[k], cm, nm)]

View(c, cm, nm) == [input  |-> VSections(c.input, cm, nm),
                    filter |-> VSections(c.filter, cm, nm),
                    output |-> VSections(c.output, cm, nm),
                    fc     |-> Texts(c.fc, cm)]

Meaning(c)    == View(c, FALSE, FALSE)     \* without comments, numbers apart
CommentsAt(c) == View(c, TRUE, FALSE)      \* with comments at their nodes

-----------------------------------------------------------------------------
(* The numbers of a configuration, in the order of the text of its view. *)

RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o CatAll(Tail(ss))

RECURSIVE NValue(_)
NPlugin(p) == CatAll([k \in 1..Len(p.as) |-> NValue(p.as[k].v)])
NValue(v) ==
  CASE v.t = "number" -> <<v.x>>
    [] v.t = "array"  -> CatAll([k \in 1..Len(v.vs) |-> NValue(v.vs[k].v)])
    [] v.t = "hash"   -> CatAll([k \in 1..Len(v.es) |-> NValue(v.es[k].k) \o NValue(v.es[k].v)])
    [] v.t = "plugin" -> NPlugin(v)
    [] OTHER -> <<>>
RECURSIVE NCond(_)
NExpr(e) ==
  CASE e.k \in {"par", "npar"} -> NCond(e.cond)
    [] e.k = "nsel" -> <<>>
    [] e.k = "rv"   -> NValue(e.r)
    [] OTHER        -> NValue(e.l) \o NValue(e.r)
NCond(c) == CatAll([k \in 1..Len(c) |-> NExpr(c[k])])
RECURSIVE NBody(_)
NBop(x) == IF x.t = "plugin" THEN NPlugin(x)
           ELSE NCond(x.if.cond) \o NBody(x.if.b)
                \o CatAll([k \in 1..Len(x.ei) |-> NCond(x.ei[k].cond) \o NBody(x.ei[k].b)])
                \o NBody(x.el.b)
NBody(b) == CatAll([k \in 1..Len(b) |-> NBop(b[k])])
Numbers(c) == CatAll([k \in 1..Len(c.input)  |-> NBody(c.input[k].b)])
           \o CatAll([k \in 1..Len(c.filter) |-> NBody(c.filter[k].b)])
           \o CatAll([k \in 1..Len(c.output) |-> NBody(c.output[k].b)])
=============================================================================
