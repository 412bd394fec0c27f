------------------------------- MODULE LSPeg -------------------------------
(***************************************************************************)
(* The parser as a machine: logstash_config.peg as data and an interpreter  *)
(* of parsing expressions, with what the machine remembers about failures:  *)
(*                                                                         *)
(*   cur   the construct read last (the text of the last action that ran,   *)
(*         also on a path that was given up later)                          *)
(*   far   the farthest failure: the expectations that were disappointed    *)
(*         when the construct read last ended farthest, each once, in order *)
(*   exp   the greatest index at which a terminal was looked for in vain,   *)
(*         and these terminals                                              *)
(*                                                                         *)
(* The language is that of LSParse (checked in Reports.tla); LSParse says    *)
(* what a text means, LSPeg how its rejection is explained.                 *)
(***************************************************************************)
EXTENDS LSText

Lit(l, w)   == [k |-> "lit", l |-> l, w |-> w]
Cls(c, w)   == [k |-> "cls", c |-> c, w |-> w]
NCls(c, w)  == [k |-> "ncls", c |-> c, w |-> w]
AnyChar     == [k |-> "any"]
S(xs)       == [k |-> "seq", xs |-> xs]
A(xs)       == [k |-> "alt", xs |-> xs]
Star(x)     == [k |-> "star", x |-> x]
Plus(x)     == [k |-> "plus", x |-> x]
Opt(x)      == [k |-> "opt", x |-> x]
Not(x)      == [k |-> "not", x |-> x]
Act(x)      == [k |-> "act", x |-> x]
Push(m)     == [k |-> "push", m |-> m]
Fatal(m)    == [k |-> "fatal", m |-> m]
Reset       == [k |-> "reset"]
Ref(r)      == [k |-> "ref", r |-> r]

-----------------------------------------------------------------------------
(* The grammar. *)

MClose  == "expect closing curly bracket"
GEOF    == Not(AnyChar)
GWhite  == Act(Plus(Cls(WS, "[ \\t\\r\\n]")))
GComm   == Act(Plus(S(<<Opt(GWhite), Lit(<<HASH>>, "\"#\""), Star(NCls({CR, NL}, "[^\\r\\n]")),
                        Opt(Lit(<<CR>>, "\"\\r\"")), A(<<Lit(<<NL>>, "\"\\n\""), GEOF>>)>>)))
GGap    == Star(A(<<GComm, GWhite>>))
GGapW   == Act(GGap)
GClose  == A(<<Lit(<<RBRC>>, "\"}\""), Fatal(MClose)>>)
GOpen   == Lit(<<LBRC>>, "\"{\"")
GArrow  == Lit(KArrow, "\"=>\"")

GQuoted(q, w, we, m) == Act(S(<<Lit(<<q>>, w), Star(A(<<Lit(<<BSL, q>>, we), S(<<Not(Lit(<<q>>, w)), AnyChar>>)>>)),
                               A(<<Lit(<<q>>, w), Fatal(m)>>)>>))
GString == Act(A(<<Act(GQuoted(DQ, "\"\\\"\"", "\"\\\\\\\"\"", "expect closing double quotes (\")")),
                   Act(GQuoted(SQ, "\"'\"", "\"\\\\'\"", "expect closing single quote (')"))>>))
GRegexp == GQuoted(SLASH, "\"/\"", "\"\\\\/\"", "expect closing slash (/) for regexp")
GNumber == Act(S(<<Opt(Lit(<<DASH>>, "\"-\"")), Plus(Cls(Digits, "[0-9]")),
                   Opt(S(<<Lit(<<DOT>>, "\".\""), Star(Cls(Digits, "[0-9]"))>>))>>))
GBare   == Act(S(<<Cls(BareStart, "[_A-Za-z]"), Plus(Cls(BareRest, "[_A-Za-z0-9]"))>>))
GName   == A(<<Act(Plus(Cls(NameChars, "[_-A-Za-z0-9]"))), Act(GString)>>)

GInit   == Act(S(<<Reset, A(<<Act(S(<<Ref("config"), GEOF>>)), Act(S(<<GGap, GEOF>>))>>)>>))
GConfig == Act(S(<<GGap, Ref("section"), Star(Act(S(<<GGap, Ref("section")>>))), GGap, GEOF>>))
GType   == A(<<Act(Lit(KInput, "\"input\"")), Act(Lit(KFilter, "\"filter\"")), Act(Lit(KOutput, "\"output\"")),
               Push("expect plugin type (input, filter, output)")>>)
GSection == Act(S(<<GType, GGapW, GOpen, Star(Act(Ref("bop"))), GGap, A(<<Lit(<<RBRC>>, "\"}\""), Push(MClose)>>)>>))
GBop    == A(<<Ref("branch"), Ref("plugin")>>)
GPlugin == Act(S(<<GGap, GName, GGapW, GOpen,
                   Opt(Act(S(<<GGap, Ref("attribute"), Star(Act(S(<<GWhite, GGap, Ref("attribute")>>)))>>))),
                   GGap, GClose>>))
GAttr   == Act(S(<<GName, GGapW, GArrow, GGapW, Ref("value")>>))
GValue  == A(<<Ref("plugin"), GBare, GString, GNumber, Ref("array"), Ref("hash"), Push("invalid value")>>)
GArray  == Act(S(<<Lit(<<LBRK>>, "\"[\""),
                   Opt(Act(S(<<GGap, Ref("value"), Star(Act(S(<<GGapW, Lit(<<COMMA>>, "\",\""), GGap, Ref("value")>>)))>>))),
                   GGap, A(<<Lit(<<RBRK>>, "\"]\""), Fatal("expect closing square bracket")>>)>>))
GHash   == Act(S(<<GOpen, Opt(Act(S(<<Ref("entry"), Star(Act(S(<<GWhite, Ref("entry")>>)))>>))), GGap, GClose>>))
GEntry  == Act(S(<<GGap, A(<<GNumber, GBare, GString>>), GGapW, GArrow, GGapW, Ref("value")>>))

GBody   == Star(Act(S(<<GGap, Ref("bop")>>)))
GKIf    == Lit(KIf, "\"if\"")
GKElse  == Lit(KElse, "\"else\"")
GBranch == Act(S(<<GGap, Ref("if"), Star(Act(S(<<GGap, Ref("elseif")>>))), Opt(Act(S(<<GGap, Ref("else")>>)))>>))
GIf     == Act(S(<<GKIf, GGapW, Ref("condition"), GGapW, GOpen, GBody, GGap, GClose>>))
GElseIf == Act(S(<<GKElse, GGapW, GKIf, GGapW, Ref("condition"), GGapW, GOpen, GBody, GGap, GClose>>))
GElse   == Act(S(<<GKElse, GGapW, GOpen, GBody, GGap, GClose>>))

GBoolOp == Act(A(<<Lit(KAnd, "\"and\""), Lit(KOr, "\"or\""), Lit(KXor, "\"xor\""), Lit(KNand, "\"nand\""),
                   Push("expect boolean operator (and, or, xor, nand)")>>))
GCond   == Act(S(<<Ref("expression"), Star(Act(S(<<GGapW, GBoolOp, GGapW, Ref("expression")>>)))>>))
GPar    == Lit(<<LPAR>>, "\"(\"")
GRPar   == Lit(<<RPAR>>, "\")\"")
GNeg    == A(<<Act(S(<<Lit(<<BANG>>, "\"!\""), GGapW, GPar, GGapW, Ref("condition"), GGapW,
                      A(<<GRPar, Fatal("expect closing parenthesis")>>)>>)),
               Act(S(<<Lit(<<BANG>>, "\"!\""), GGapW, Ref("selector")>>))>>)
GIn     == Act(S(<<Ref("rvalue"), GGapW, A(<<Lit(KIn, "\"in\""), Push("expect in operator (in)")>>), GGapW, Ref("rvalue")>>))
GNotIn  == Act(S(<<Ref("rvalue"), GGapW,
                   A(<<S(<<Lit(KNotSp, "\"not \""), GGapW, Lit(KIn, "\"in\"")>>), Push("expect not in operator (not in)")>>),
                   GGapW, Ref("rvalue")>>))
GCmp    == Act(S(<<Ref("rvalue"), GGapW,
                   Act(A(<<Lit(KEqEq, "\"==\""), Lit(KNeq, "\"!=\""), Lit(KLe, "\"<=\""), Lit(KGe, "\">=\""),
                           Cls({LT, GT}, "[<>]"), Push("expect compare operator (==, !=, <=, >=, <, >)")>>)),
                   GGapW, Ref("rvalue")>>))
GRe     == Act(S(<<Ref("rvalue"), GGapW,
                   Act(A(<<Lit(KMatch, "\"=~\""), Lit(KNMatch, "\"!~\""), Push("expect regexp comparison operator (=~, !~)")>>)),
                   GGapW, A(<<GString, GRegexp>>)>>))
GExpr   == A(<<Act(S(<<GPar, GGapW, Ref("condition"), GGapW, GRPar>>)), GNeg, GIn, GNotIn, GCmp, GRe, Act(Ref("rvalue"))>>)
GSel    == Act(Plus(Act(S(<<Lit(<<LBRK>>, "\"[\""), Plus(NCls({LBRK, RBRK, COMMA}, "[^][,]")),
                            A(<<Lit(<<RBRK>>, "\"]\""), Push("expect closing square bracket")>>)>>))))
GRval   == A(<<GString, GNumber, Ref("selector"), Ref("array"), GRegexp, Push("invalid value for expression")>>)

Rule(r) == CASE r = "config" -> GConfig [] r = "section" -> GSection [] r = "bop" -> GBop [] r = "plugin" -> GPlugin
             [] r = "attribute" -> GAttr [] r = "value" -> GValue [] r = "array" -> GArray [] r = "hash" -> GHash
             [] r = "entry" -> GEntry [] r = "branch" -> GBranch [] r = "if" -> GIf [] r = "elseif" -> GElseIf
             [] r = "else" -> GElse [] r = "condition" -> GCond [] r = "expression" -> GExpr
             [] r = "selector" -> GSel [] r = "rvalue" -> GRval

-----------------------------------------------------------------------------
(* The machine.  m: i index, ok result of the last step, cs..ce-1 the construct *)
(* read last (cs = 0: nothing yet), fs, fe, fm the farthest failure, xp, xs the *)
(* greatest index of a vain terminal, inv: inside a negation.                 *)

Start == [i |-> 1, ok |-> "ok", cs |-> 0, ce |-> 1, fs |-> 0, fe |-> 0, fm |-> <<>>, xp |-> 1, xs |-> {}, inv |-> FALSE]

\* The terminal w at p was met (hit) or missed.
Tried(m, hit, p, w) ==
  IF hit # m.inv \/ p < m.xp THEN m
  ELSE LET t == IF m.inv THEN "!" \o w ELSE w
       IN IF p > m.xp THEN [m EXCEPT !.xp = p, !.xs = {t}] ELSE [m EXCEPT !.xs = @ \cup {t}]

Hit(m, w, j)  == [Tried(m, TRUE, m.i, w) EXCEPT !.i = j, !.ok = "ok"]
Miss(m, w)    == [Tried(m, FALSE, m.i, w) EXCEPT !.ok = "no"]

Disappoint(m, msg) ==
  LET n == [m EXCEPT !.ok = "no"]
  IN CASE m.fm = <<>> \/ m.ce > m.fe -> [n EXCEPT !.fs = m.cs, !.fe = m.ce, !.fm = <<msg>>]
       [] m.fm # <<>> /\ m.ce = m.fe /\ (\A k \in 1..Len(m.fm) : m.fm[k] # msg) -> [n EXCEPT !.fm = Append(@, msg)]
       [] OTHER -> n

RECURSIVE Ev(_, _, _), EvSeq(_, _, _, _), EvAlt(_, _, _, _), EvStar(_, _, _)

EvSeq(xs, k, s, m) ==
  IF k > Len(xs) THEN m
  ELSE LET r == Ev(xs[k], s, m) IN IF r.ok = "ok" THEN EvSeq(xs, k + 1, s, r) ELSE r

EvAlt(xs, k, s, m) ==
  IF k > Len(xs) THEN [m EXCEPT !.ok = "no"]
  ELSE LET r == Ev(xs[k], s, m) IN IF r.ok = "no" THEN EvAlt(xs, k + 1, s, [r EXCEPT !.i = m.i]) ELSE r

EvStar(x, s, m) ==
  IF x.k \in {"cls", "ncls"} /\ ~m.inv
  THEN LET e == IF x.k = "cls" THEN SpanEnd(s, m.i, x.c) ELSE FindIn(s, m.i, x.c)
       IN [Tried(m, FALSE, e, x.w) EXCEPT !.i = e, !.ok = "ok"]
  ELSE LET r == Ev(x, s, m)
       IN CASE r.ok = "ok" -> EvStar(x, s, r)
            [] r.ok = "no" -> [r EXCEPT !.i = m.i, !.ok = "ok"]
            [] OTHER -> r

Ev(x, s, m) ==
  CASE x.k = "lit"  -> IF At(s, m.i, x.l) THEN Hit(m, x.w, m.i + Len(x.l)) ELSE Miss(m, x.w)
    [] x.k = "cls"  -> IF m.i <= Len(s) /\ s[m.i] \in x.c THEN Hit(m, x.w, m.i + 1) ELSE Miss(m, x.w)
    [] x.k = "ncls" -> IF m.i <= Len(s) /\ s[m.i] \notin x.c THEN Hit(m, x.w, m.i + 1) ELSE Miss(m, x.w)
    [] x.k = "any"  -> IF m.i <= Len(s) THEN Hit(m, ".", m.i + 1) ELSE Miss(m, ".")
    [] x.k = "act"  -> LET r == Ev(x.x, s, m) IN IF r.ok = "ok" THEN [r EXCEPT !.cs = m.i, !.ce = r.i] ELSE r
    [] x.k = "seq"  -> LET r == EvSeq(x.xs, 1, s, m) IN IF r.ok = "no" THEN [r EXCEPT !.i = m.i] ELSE r
    [] x.k = "alt"  -> EvAlt(x.xs, 1, s, m)
    [] x.k = "star" -> EvStar(x.x, s, m)
    [] x.k = "plus" -> LET r == Ev(x.x, s, m) IN IF r.ok = "ok" THEN EvStar(x.x, s, r) ELSE r
    [] x.k = "opt"  -> LET r == Ev(x.x, s, m) IN IF r.ok = "no" THEN [r EXCEPT !.i = m.i, !.ok = "ok"] ELSE r
    [] x.k = "not"  -> LET r == Ev(x.x, s, [m EXCEPT !.inv = ~@])
                       IN IF r.ok = "die" THEN r
                          ELSE [r EXCEPT !.inv = m.inv, !.i = m.i, !.ok = IF r.ok = "ok" THEN "no" ELSE "ok"]
    [] x.k = "ref"  -> Ev(Rule(x.r), s, m)
    [] x.k = "push" -> Disappoint(m, x.m)
    [] x.k = "fatal" -> [m EXCEPT !.fs = m.cs, !.fe = m.ce, !.fm = <<x.m>>, !.ok = "die"]
    [] x.k = "reset" -> [m EXCEPT !.fm = <<>>, !.ok = "ok"]

\* What the machine ends with.
Explain(s) == LET r == Ev(GInit, s, Start)
              IN [st |-> r.ok, i |-> r.i, fs |-> r.fs, fe |-> r.fe, fm |-> r.fm, xp |-> r.xp, xs |-> r.xs]
=============================================================================
