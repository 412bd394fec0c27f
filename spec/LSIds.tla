-------------------------------- MODULE LSIds --------------------------------
(***************************************************************************)
(* The ids of the plugins of a configuration: what  mustache lint  has to   *)
(* report, and what  mustache lint --auto-fix-id  may change.               *)
(***************************************************************************)
EXTENDS LSMeaning

IdNames == { <<105,100>>, <<DQ,105,100,DQ>>, <<SQ,105,100,SQ>> }
IsId(a) == a.n \in IdNames

IdAttrs(p) == SelectSeq(p.as, IsId)

\* The id of a plugin: "none", "odd" (not a string) or "str" with its value.
IdOf(p) == LET as == IdAttrs(p)
           IN IF as = <<>> THEN [st |-> "none", x |-> <<>>]
              ELSE IF as[1].v.t \in {"bare", "dq", "sq"} THEN [st |-> "str", x |-> as[1].v.x]
              ELSE [st |-> "odd", x |-> <<>>]

\* The plugins of a configuration in the order of the tree: those of the input,
\* filter and output sections (plugins given as values, like codecs, do not count).
RECURSIVE BodyPlugins(_)
BopPlugins(x) == IF x.t = "plugin" THEN <<x>>
                 ELSE BodyPlugins(x.if.b) \o CatAll([k \in 1..Len(x.ei) |-> BodyPlugins(x.ei[k].b)])
                      \o BodyPlugins(x.el.b)
BodyPlugins(b) == CatAll([k \in 1..Len(b) |-> BopPlugins(b[k])])
Plugins(c) == CatAll([k \in 1..Len(c.input)  |-> BodyPlugins(c.input[k].b)])
           \o CatAll([k \in 1..Len(c.filter) |-> BodyPlugins(c.filter[k].b)])
           \o CatAll([k \in 1..Len(c.output) |-> BodyPlugins(c.output[k].b)])

Where(ps) == [k \in 1..Len(ps) |-> [p |-> ps[k].p, n |-> ps[k].n]]

NoId(ps) == SelectSeq(ps, LAMBDA p : IdOf(p).st # "str")
\* Without an id at all: these are fixed, a plugin with an odd id is not.
Lacks(ps) == SelectSeq(ps, LAMBDA p : IdOf(p).st = "none")
Odd(ps)   == SelectSeq(ps, LAMBDA p : IdOf(p).st = "odd")

Repeats(ps) ==
  LET ids == [k \in 1..Len(ps) |-> IdOf(ps[k])]
      Is(k) == ids[k].st = "str" /\ \E m \in 1..(k - 1) : ids[m] = ids[k]
      ks == {k \in 1..Len(ps) : Is(k)}
      RECURSIVE From(_)
      From(k) == IF k > Len(ps) THEN <<>> ELSE (IF k \in ks THEN <<ps[k]>> ELSE <<>>) \o From(k + 1)
  IN From(1)

-----------------------------------------------------------------------------
(* The same configuration but for its ids. *)

Bare(p) == [p EXCEPT !.as = SelectSeq(@, LAMBDA a : ~IsId(a))]
RECURSIVE DBody(_)
DBlock(x) == [x EXCEPT !.b = DBody(@)]
DBop(x) == IF x.t = "plugin" THEN Bare(x)
           ELSE [x EXCEPT !.if = DBlock(@), !.ei = [k \in 1..Len(@) |-> DBlock(@[k])], !.el = DBlock(@)]
DBody(b) == [k \in 1..Len(b) |-> DBop(b[k])]
DSections(ss) == [k \in 1..Len(ss) |-> DBlock(ss[k])]
WithoutIds(c) == [c EXCEPT !.input = DSections(@), !.filter = DSections(@), !.output = DSections(@)]

IdView(p) == LET as == IdAttrs(p) IN [k \in 1..Len(as) |-> VValue(as[k].v, TRUE, TRUE)]

\* d is c with an id for each plugin that had none.
Fixed(c, d) ==
  LET ps == Plugins(c)
      qs == Plugins(d)
  IN /\ CommentsAt(WithoutIds(c)) = CommentsAt(WithoutIds(d))
     /\ Len(ps) = Len(qs)
     /\ \A k \in 1..Len(ps) :
          IF IdOf(ps[k]).st # "none" THEN IdView(ps[k]) = IdView(qs[k])
          ELSE /\ Len(IdAttrs(qs[k])) = 1
               /\ IdOf(qs[k]).st = "str"
               /\ \A m \in 1..Len(qs) : m # k => IdOf(qs[m]) # IdOf(qs[k])
=============================================================================
