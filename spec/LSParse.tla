------------------------------ MODULE LSParse ------------------------------
(***************************************************************************)
(* The Logstash configuration language as breml/logstash-config is meant   *)
(* to read it: grammar.treetop (the upstream grammar) with the documented   *)
(* deviations (a comment may end at the end of the file, a file may hold    *)
(* no section at all, method calls are not supported, plugins are not       *)
(* array elements nor hash values), with ordered choice, and with the       *)
(* points at which the parser gives up at once ("die").                     *)
(*                                                                         *)
(* Every operator takes the text s and an index i, and returns              *)
(*   [st |-> "ok",  i |-> next index, v |-> value, w |-> warnings]          *)
(*   [st |-> "no"]                  no match here, try the next choice      *)
(*   [st |-> "die", m |-> message]  no way this text can be accepted        *)
(* w are the exceptional comment places met on the way: for each, the index *)
(* of the gap that holds it.                                                *)
(***************************************************************************)
EXTENDS LSText

Ok(i, v, w) == [st |-> "ok", i |-> i, v |-> v, w |-> w]
No          == [st |-> "no"]
Die(m)      == [st |-> "die", m |-> m]

MCurly == "expect closing curly bracket"
MBrack == "expect closing square bracket"
MParen == "expect closing parenthesis"
MDq    == "expect closing double quotes"
MSq    == "expect closing single quote"
MSlash == "expect closing slash"

-----------------------------------------------------------------------------
(* Gaps: white space and comments. *)

\* One comment at i (s[i] = "#"): index after it, or 0 if it is malformed.
CommentEnd(s, i) ==
  LET e  == FindIn(s, i + 1, {CR, NL})
      e2 == IF Has(s, e, CR) THEN e + 1 ELSE e
  IN IF e2 > Len(s) THEN e2 ELSE IF s[e2] = NL THEN e2 + 1 ELSE 0

CommentText(s, i) == Trim(SubSeq(s, i + 1, FindIn(s, i + 1, {CR, NL}) - 1))

RECURSIVE GapFrom(_, _, _)
GapFrom(s, i, cs) ==
  LET j == SpanEnd(s, i, WS)
      e == IF Has(s, j, HASH) THEN CommentEnd(s, j) ELSE 0
  IN IF e = 0
     THEN [e |-> j, cs |-> cs, tail |-> j > i]
     ELSE GapFrom(s, e, Append(cs, [x |-> CommentText(s, j),
                                    b |-> cs # <<>> /\ Count(s, i, j - 1, NL) > 0,
                                    a |-> FALSE]))

\* The longest run of white space and comments at i:
\*   e: index after it, cs: its comments, tail: white space after the last one.
Gap(s, i) == GapFrom(s, i, <<>>)

\* Warnings of a gap in which comments are exceptional (and lost).
GW(i, g) == IF g.cs = <<>> THEN <<>> ELSE <<i>>

\* The comments of a gap as a comment block.
Block(g, before, after) ==
  [k \in 1..Len(g.cs) |->
     [g.cs[k] EXCEPT !.b = IF k = 1 THEN before ELSE @,
                     !.a = k = Len(g.cs) /\ after /\ g.tail]]
Plain(g) == Block(g, FALSE, FALSE)

-----------------------------------------------------------------------------
(* Terminals. *)

RECURSIVE QuoteEnd(_, _, _)
\* Index of the closing quote q of a text starting at i, 0 if there is none.
QuoteEnd(s, i, q) ==
  LET k == FindIn(s, i, {q})
  IN IF k > Len(s) THEN 0
     ELSE IF k > i /\ s[k - 1] = BSL THEN QuoteEnd(s, k + 1, q) ELSE k

Quoted(s, i, q, kind, msg) ==
  LET e == QuoteEnd(s, i + 1, q)
  IN IF e = 0 THEN Die(msg)
     ELSE Ok(e + 1, [t |-> kind, x |-> SubSeq(s, i + 1, e - 1), p |-> i], <<>>)

StringValue(s, i) ==
  IF Has(s, i, DQ) THEN Quoted(s, i, DQ, "dq", MDq)
  ELSE IF Has(s, i, SQ) THEN Quoted(s, i, SQ, "sq", MSq)
  ELSE No

Regexp(s, i) == IF Has(s, i, SLASH) THEN Quoted(s, i, SLASH, "regexp", MSlash) ELSE No

Bareword(s, i) ==
  IF i <= Len(s) /\ s[i] \in BareStart
  THEN LET e == SpanEnd(s, i + 1, BareRest)
       IN IF e > i + 1 THEN Ok(e, [t |-> "bare", x |-> SubSeq(s, i, e - 1), p |-> i], <<>>)
          ELSE No
  ELSE No

Name(s, i) ==
  LET e == SpanEnd(s, i, NameChars)
  IN IF e > i THEN Ok(e, [t |-> "bare", x |-> SubSeq(s, i, e - 1), p |-> i], <<>>)
     ELSE StringValue(s, i)

Number(s, i) ==
  LET j == IF Has(s, i, DASH) THEN i + 1 ELSE i
      e == SpanEnd(s, j, Digits)
      f == IF Has(s, e, DOT) THEN SpanEnd(s, e + 1, Digits) ELSE e
  IN IF e = j THEN No
     ELSE Ok(f, [t |-> "number", x |-> SubSeq(s, i, f - 1), p |-> i], <<>>)

SelectorElement(s, i) ==
  IF ~Has(s, i, LBRK) THEN No
  ELSE LET e == FindIn(s, i + 1, {LBRK, RBRK, COMMA})
       IN IF e > i + 1 /\ Has(s, e, RBRK)
          THEN Ok(e + 1, [x |-> SubSeq(s, i + 1, e - 1), p |-> i], <<>>)
          ELSE No

RECURSIVE SelectorFrom(_, _, _, _)
SelectorFrom(s, i0, i, es) ==
  LET r == SelectorElement(s, i)
  IN IF r.st = "ok" THEN SelectorFrom(s, i0, r.i, Append(es, r.v))
     ELSE IF es = <<>> THEN No
     ELSE Ok(i, [t |-> "selector", es |-> es, p |-> i0], <<>>)
Selector(s, i) == SelectorFrom(s, i, i, <<>>)

\* The text with which a name is written (a quoted name keeps its quotes).
NameText(v) == CASE v.t = "bare" -> v.x
                 [] v.t = "dq"   -> <<DQ>> \o v.x \o <<DQ>>
                 [] v.t = "sq"   -> <<SQ>> \o v.x \o <<SQ>>

-----------------------------------------------------------------------------
(* Values and plugins. *)

RECURSIVE Value(_, _), Plugin(_, _), AttrsFrom(_, _, _, _), ArrayRest(_, _, _, _),
          HashRest(_, _, _, _)

Attribute(s, i) ==
  LET n == Name(s, i)
  IN IF n.st # "ok" THEN n ELSE
     LET g1 == Gap(s, n.i)
     IN IF ~At(s, g1.e, KArrow) THEN No ELSE
        LET g2 == Gap(s, g1.e + 2)
            v  == Value(s, g2.e)
        IN IF v.st # "ok" THEN v
           ELSE Ok(v.i, [n |-> NameText(n.v), v |-> v.v, p |-> i],
                   GW(n.i, g1) \o GW(g1.e + 2, g2) \o v.w)

\* Attributes after the first one: each needs white space before it.
AttrsFrom(s, i, as, w) ==
  IF ~(i <= Len(s) /\ s[i] \in WS) THEN Ok(i, as, w)
  ELSE LET g == Gap(s, i)
           \* the first white space of the gap is not part of the comment block
           a == Attribute(s, g.e)
       IN CASE a.st = "die" -> a
            [] a.st = "no"  -> Ok(i, as, w)
            [] OTHER -> AttrsFrom(s, a.i, Append(as, [n |-> a.v.n, v |-> a.v.v, p |-> a.v.p,
                                                      c |-> Block(g, TRUE, FALSE)]), w \o a.w)

\* A plugin, without the comments before it.
Plugin(s, i) ==
  LET n == Name(s, i)
  IN IF n.st # "ok" THEN n ELSE
     LET g1 == Gap(s, n.i)
     IN IF ~Has(s, g1.e, LBRC) THEN No ELSE
        LET g2 == Gap(s, g1.e + 1)
            a  == Attribute(s, g2.e)
            as == CASE a.st = "die" -> a
                    [] a.st = "no"  -> Ok(g1.e + 1, <<>>, <<>>)
                    [] OTHER -> AttrsFrom(s, a.i, <<[n |-> a.v.n, v |-> a.v.v, p |-> a.v.p,
                                                     c |-> Plain(g2)]>>, a.w)
        IN IF as.st # "ok" THEN as ELSE
           LET f == Gap(s, as.i)
           IN IF ~Has(s, f.e, RBRC) THEN Die(MCurly)
              ELSE Ok(f.e + 1, [t |-> "plugin", n |-> NameText(n.v), p |-> i, c |-> <<>>,
                                as |-> as.v, fc |-> Plain(f)],
                      GW(n.i, g1) \o as.w)

\* Array elements after the first one.
ArrayRest(s, i, vs, w) ==
  LET g1 == Gap(s, i)
  IN IF ~Has(s, g1.e, COMMA) THEN Ok(i, vs, w) ELSE
     LET g2 == Gap(s, g1.e + 1)
         v  == Value(s, g2.e)
     IN CASE v.st = "die" -> v
          [] v.st = "no"  -> Ok(i, vs, w)
          [] v.st = "ok" /\ v.v.t = "plugin" -> Die("plugin in array")
          [] OTHER -> ArrayRest(s, v.i, Append(vs, [v |-> v.v, c |-> Block(g2, TRUE, FALSE)]),
                                w \o GW(i, g1) \o v.w)

Array(s, i) ==
  IF ~Has(s, i, LBRK) THEN No ELSE
  LET g  == Gap(s, i + 1)
      v  == Value(s, g.e)
      vs == CASE v.st = "die" -> v
              [] v.st = "no"  -> Ok(i + 1, <<>>, <<>>)
              [] v.st = "ok" /\ v.v.t = "plugin" -> Die("plugin in array")
              [] OTHER -> ArrayRest(s, v.i, <<[v |-> v.v, c |-> Plain(g)]>>, v.w)
  IN IF vs.st # "ok" THEN vs ELSE
     LET f == Gap(s, vs.i)
     IN IF ~Has(s, f.e, RBRK) THEN Die(MBrack)
        ELSE Ok(f.e + 1, [t |-> "array", vs |-> vs.v, fc |-> Plain(f), p |-> i], vs.w)

HashKey(s, i) ==
  LET n == Number(s, i)
      b == Bareword(s, i)
  IN IF n.st = "ok" THEN n ELSE IF b.st = "ok" THEN b ELSE StringValue(s, i)

HashEntry(s, i, before) ==
  LET g == Gap(s, i)
      k == HashKey(s, g.e)
  IN IF k.st # "ok" THEN k ELSE
     LET g1 == Gap(s, k.i)
     IN IF ~At(s, g1.e, KArrow) THEN No ELSE
        LET g2 == Gap(s, g1.e + 2)
            v  == Value(s, g2.e)
        IN IF v.st # "ok" THEN v
           ELSE IF v.v.t = "plugin" THEN Die("plugin in hash")
           ELSE Ok(v.i, [k |-> k.v, v |-> v.v, p |-> g.e, c |-> Block(g, before, FALSE)],
                   GW(k.i, g1) \o GW(g1.e + 2, g2) \o v.w)

HashRest(s, i, es, w) ==
  IF ~(i <= Len(s) /\ s[i] \in WS) THEN Ok(i, es, w) ELSE
  LET e == HashEntry(s, i, TRUE)
  IN CASE e.st = "die" -> e
       [] e.st = "no"  -> Ok(i, es, w)
       [] OTHER -> HashRest(s, e.i, Append(es, e.v), w \o e.w)

Hash(s, i) ==
  IF ~Has(s, i, LBRC) THEN No ELSE
  LET e  == HashEntry(s, i + 1, FALSE)
      es == CASE e.st = "die" -> e
              [] e.st = "no"  -> Ok(i + 1, <<>>, <<>>)
              [] OTHER -> HashRest(s, e.i, <<e.v>>, e.w)
  IN IF es.st # "ok" THEN es ELSE
     LET f == Gap(s, es.i)
     IN IF ~Has(s, f.e, RBRC) THEN Die(MCurly)
        ELSE Ok(f.e + 1, [t |-> "hash", es |-> es.v, fc |-> Plain(f), p |-> i], es.w)

Value(s, i) ==
  IF i > Len(s) THEN No ELSE
  LET c == s[i] IN
  IF c = LBRK THEN Array(s, i)
  ELSE IF c = LBRC THEN Hash(s, i)
  ELSE LET p == Plugin(s, i)
       IN IF p.st # "no" THEN p ELSE
          LET b == Bareword(s, i)
          IN IF b.st # "no" THEN b ELSE
             LET q == StringValue(s, i)
             IN IF q.st # "no" THEN q ELSE Number(s, i)

-----------------------------------------------------------------------------
(* Conditions. *)

RECURSIVE Condition(_, _), Expression(_, _), CondRest(_, _, _, _)

Rvalue(s, i) ==
  IF i > Len(s) THEN No ELSE
  LET c == s[i] IN
  IF c = DQ \/ c = SQ THEN StringValue(s, i)
  ELSE IF c = LBRK
       THEN LET x == Selector(s, i) IN IF x.st = "ok" THEN x ELSE Array(s, i)
  ELSE IF c = SLASH THEN Regexp(s, i)
  ELSE Number(s, i)

BoolOp(s, i) ==
  CASE At(s, i, KAnd)  -> Ok(i + 3, "and", <<>>)
    [] At(s, i, KOr)   -> Ok(i + 2, "or", <<>>)
    [] At(s, i, KXor)  -> Ok(i + 3, "xor", <<>>)
    [] At(s, i, KNand) -> Ok(i + 4, "nand", <<>>)
    [] OTHER -> No

CmpOp(s, i) ==
  CASE At(s, i, KEqEq) -> Ok(i + 2, "==", <<>>)
    [] At(s, i, KNeq)  -> Ok(i + 2, "!=", <<>>)
    [] At(s, i, KLe)   -> Ok(i + 2, "<=", <<>>)
    [] At(s, i, KGe)   -> Ok(i + 2, ">=", <<>>)
    [] At(s, i, KLt)   -> Ok(i + 1, "<", <<>>)
    [] At(s, i, KGt)   -> Ok(i + 1, ">", <<>>)
    [] OTHER -> No

ReOp(s, i) ==
  CASE At(s, i, KMatch)  -> Ok(i + 2, "=~", <<>>)
    [] At(s, i, KNMatch) -> Ok(i + 2, "!~", <<>>)
    [] OTHER -> No

E0 == [op |-> "", opp |-> 0]

\* What follows the left operand at l (a result of Rvalue): "in", "not in", a
\* comparison, a regular expression match, or nothing; tried in this order.
Tail4(s, i, l) ==
  LET g  == Gap(s, l.i)
      gw == GW(l.i, g)
      In == IF ~At(s, g.e, KIn) THEN No ELSE
            LET g2 == Gap(s, g.e + 2)
                r  == Rvalue(s, g2.e)
            IN IF r.st # "ok" THEN r
               ELSE Ok(r.i, [k |-> "in", op |-> "", opp |-> 0, p |-> i, l |-> l.v, r |-> r.v],
                       l.w \o gw \o GW(g.e + 2, g2) \o r.w)
      NotIn == IF ~At(s, g.e, KNotSp) THEN No ELSE
            LET g1 == Gap(s, g.e + 4)
            IN IF ~At(s, g1.e, KIn) THEN No ELSE
               LET g2 == Gap(s, g1.e + 2)
                   r  == Rvalue(s, g2.e)
               IN IF r.st # "ok" THEN r
                  ELSE Ok(r.i, [k |-> "notin", op |-> "", opp |-> 0, p |-> i, l |-> l.v, r |-> r.v],
                          l.w \o gw \o GW(g.e + 4, g1) \o GW(g1.e + 2, g2) \o r.w)
      Cmp == LET o == CmpOp(s, g.e)
             IN IF o.st # "ok" THEN No ELSE
                LET g2 == Gap(s, o.i)
                    r  == Rvalue(s, g2.e)
                IN IF r.st # "ok" THEN r
                   ELSE Ok(r.i, [k |-> "cmp", op |-> "", opp |-> 0, p |-> i, l |-> l.v, r |-> r.v,
                                 o |-> o.v, op2 |-> g.e],
                           l.w \o gw \o GW(o.i, g2) \o r.w)
      Re == LET o == ReOp(s, g.e)
             IN IF o.st # "ok" THEN No ELSE
                LET g2 == Gap(s, o.i)
                    q  == StringValue(s, g2.e)
                    r  == IF q.st = "no" THEN Regexp(s, g2.e) ELSE q
                IN IF r.st # "ok" THEN r
                   ELSE Ok(r.i, [k |-> "re", op |-> "", opp |-> 0, p |-> i, l |-> l.v, r |-> r.v,
                                 o |-> o.v, op2 |-> g.e],
                           l.w \o gw \o GW(o.i, g2) \o r.w)
  IN IF In.st # "no" THEN In
     ELSE IF NotIn.st # "no" THEN NotIn
     ELSE IF Cmp.st # "no" THEN Cmp
     ELSE IF Re.st # "no" THEN Re
     ELSE Ok(l.i, [k |-> "rv", op |-> "", opp |-> 0, p |-> i, r |-> l.v], l.w)

Paren(s, i) ==     \* s[i] = "("
  LET g1 == Gap(s, i + 1)
      c  == Condition(s, g1.e)
  IN IF c.st # "ok" THEN c ELSE
     LET g2 == Gap(s, c.i)
     IN IF ~Has(s, g2.e, RPAR) THEN No
        ELSE Ok(g2.e + 1, [k |-> "par", op |-> "", opp |-> 0, p |-> i, cond |-> c.v],
                GW(i + 1, g1) \o c.w \o GW(c.i, g2))

Negative(s, i) ==  \* s[i] = "!"
  LET g == Gap(s, i + 1)
  IN IF Has(s, g.e, LPAR)
     THEN LET g1 == Gap(s, g.e + 1)
              c  == Condition(s, g1.e)
          IN IF c.st # "ok" THEN c ELSE
             LET g2 == Gap(s, c.i)
             IN IF ~Has(s, g2.e, RPAR) THEN Die(MParen)
                ELSE Ok(g2.e + 1, [k |-> "npar", op |-> "", opp |-> 0, p |-> i, cond |-> c.v],
                        GW(i + 1, g) \o GW(g.e + 1, g1) \o c.w \o GW(c.i, g2))
     ELSE LET x == Selector(s, g.e)
          IN IF x.st # "ok" THEN x
             ELSE Ok(x.i, [k |-> "nsel", op |-> "", opp |-> 0, p |-> i, sel |-> x.v], GW(i + 1, g))

Expression(s, i) ==
  IF Has(s, i, LPAR) THEN Paren(s, i)
  ELSE IF Has(s, i, BANG) THEN Negative(s, i)
  ELSE LET l == Rvalue(s, i) IN IF l.st # "ok" THEN l ELSE Tail4(s, i, l)

CondRest(s, i, es, w) ==
  LET g == Gap(s, i)
      o == BoolOp(s, g.e)
  IN IF o.st # "ok" THEN Ok(i, es, w) ELSE
     LET g2 == Gap(s, o.i)
         e  == Expression(s, g2.e)
     IN CASE e.st = "die" -> e
          [] e.st = "no"  -> Ok(i, es, w)
          [] OTHER -> CondRest(s, e.i, Append(es, [e.v EXCEPT !.op = o.v, !.opp = g.e]),
                               w \o GW(i, g) \o GW(o.i, g2) \o e.w)

Condition(s, i) ==
  LET e == Expression(s, i) IN IF e.st # "ok" THEN e ELSE CondRest(s, e.i, <<e.v>>, e.w)

-----------------------------------------------------------------------------
(* Branches and sections. *)

RECURSIVE Body(_, _, _, _), Branch(_, _), ElseIfs(_, _, _, _)

WithComment(v, c) == IF v.t = "plugin" THEN [v EXCEPT !.c = c]
                     ELSE [v EXCEPT !.if.c = c]

BranchOrPlugin(s, i) ==
  LET b == Branch(s, i) IN IF b.st # "no" THEN b ELSE Plugin(s, i)

\* branches and plugins, each with the comments before it; the gap before the
\* closing bracket is left
Body(s, i, bs, w) ==
  LET g == Gap(s, i)
      b == BranchOrPlugin(s, g.e)
  IN CASE b.st = "die" -> b
       [] b.st = "no"  -> Ok(i, bs, w)
       [] OTHER -> Body(s, b.i, Append(bs, WithComment(b.v, Plain(g))), w \o b.w)

\* "{" branches and plugins "}"; i is the index of "{"
Braced(s, i) ==
  LET b == Body(s, i + 1, <<>>, <<>>)
  IN IF b.st # "ok" THEN b ELSE
     LET f == Gap(s, b.i)
     IN IF ~Has(s, f.e, RBRC) THEN Die(MCurly)
        ELSE Ok(f.e + 1, [b |-> b.v, fc |-> Plain(f)], b.w)

\* gap condition gap "{" ... "}"; i is the index after "if", p0 the position
Cond(s, i, p0) ==
  LET g1 == Gap(s, i)
      c  == Condition(s, g1.e)
  IN IF c.st # "ok" THEN c ELSE
     LET g2 == Gap(s, c.i)
     IN IF ~Has(s, g2.e, LBRC) THEN No ELSE
        LET b == Braced(s, g2.e)
        IN IF b.st # "ok" THEN b
           ELSE Ok(b.i, [cond |-> c.v, b |-> b.v.b, fc |-> b.v.fc, c |-> <<>>, p |-> p0],
                   GW(i, g1) \o c.w \o GW(c.i, g2) \o b.w)

ElseIfs(s, i, es, w) ==
  LET g == Gap(s, i)
  IN IF ~At(s, g.e, KElse) THEN Ok(i, es, w) ELSE
     LET g1 == Gap(s, g.e + 4)
     IN IF ~At(s, g1.e, KIf) THEN Ok(i, es, w) ELSE
        LET c == Cond(s, g1.e + 2, g.e)
        IN CASE c.st = "die" -> c
             [] c.st = "no"  -> Ok(i, es, w)
             [] OTHER -> ElseIfs(s, c.i, Append(es, [c.v EXCEPT !.c = Plain(g)]),
                                 w \o GW(g.e + 4, g1) \o c.w)

NoElse == [b |-> <<>>, fc |-> <<>>, c |-> <<>>, p |-> 0]

Else(s, i) ==
  LET g == Gap(s, i)
  IN IF ~At(s, g.e, KElse) THEN Ok(i, NoElse, <<>>) ELSE
     LET g1 == Gap(s, g.e + 4)
     IN IF ~Has(s, g1.e, LBRC) THEN Ok(i, NoElse, <<>>) ELSE
        LET b == Braced(s, g1.e)
        IN IF b.st # "ok" THEN b
           ELSE Ok(b.i, [b |-> b.v.b, fc |-> b.v.fc, c |-> Plain(g), p |-> g.e],
                   GW(g.e + 4, g1) \o b.w)

Branch(s, i) ==
  IF ~At(s, i, KIf) THEN No ELSE
  LET f == Cond(s, i + 2, i)
  IN IF f.st # "ok" THEN f ELSE
     LET es == ElseIfs(s, f.i, <<>>, <<>>)
     IN IF es.st # "ok" THEN es ELSE
        LET e == Else(s, es.i)
        IN IF e.st # "ok" THEN e
           ELSE Ok(e.i, [t |-> "branch", if |-> f.v, ei |-> es.v, el |-> e.v],
                   f.w \o es.w \o e.w)

SectionType(s, i) ==
  CASE At(s, i, KInput)  -> Ok(i + 5, "input", <<>>)
    [] At(s, i, KFilter) -> Ok(i + 6, "filter", <<>>)
    [] At(s, i, KOutput) -> Ok(i + 6, "output", <<>>)
    [] OTHER -> No

\* A section is the one bracketed construct whose missing "}" is not fatal: the
\* parser backs up, and the text is rejected in the end.
Section(s, i) ==
  LET k == SectionType(s, i)
  IN IF k.st # "ok" THEN No ELSE
     LET g1 == Gap(s, k.i)
     IN IF ~Has(s, g1.e, LBRC) THEN No ELSE
        LET b == Body(s, g1.e + 1, <<>>, <<>>)
        IN IF b.st # "ok" THEN b ELSE
           LET f == Gap(s, b.i)
           IN IF ~Has(s, f.e, RBRC) THEN No
              ELSE Ok(f.e + 1, [pt |-> k.v, b |-> b.v, fc |-> Plain(f), c |-> <<>>, p |-> i],
                      GW(k.i, g1) \o b.w)

RECURSIVE Sections(_, _, _, _)
Sections(s, i, ss, w) ==
  LET g == Gap(s, i)
      x == Section(s, g.e)
  IN CASE x.st = "die" -> x
       [] x.st = "no"  -> Ok(i, ss, w)
       [] OTHER -> Sections(s, x.i, Append(ss, [x.v EXCEPT !.c = Block(g, FALSE, TRUE)]), w \o x.w)

-----------------------------------------------------------------------------
(* The whole text. *)

HasBad(s) == \E k \in 1..Len(s) : IsBad(s[k])

OfType(ss, t) == SelectSeq(ss, LAMBDA x : x.pt = t)

\* [st |-> "ok", v |-> configuration, w |-> warnings], "no" or "die".
ParseBytes(s, any) ==
  LET x == Sections(s, 1, <<>>, <<>>)
  IN IF x.st = "die" THEN x ELSE
     LET f == Gap(s, x.i)
     IN IF f.e <= Len(s) \/ (HasBad(s) /\ ~any) THEN No
        ELSE IF x.v = <<>>
        THEN Ok(f.e, [input |-> <<>>, filter |-> <<>>, output |-> <<>>, fc |-> <<>>], <<>>)
        ELSE Ok(f.e, [input  |-> OfType(x.v, "input"),
                      filter |-> OfType(x.v, "filter"),
                      output |-> OfType(x.v, "output"),
                      fc     |-> Block(f, TRUE, FALSE)], x.w)

Parse(s) == ParseBytes(s, FALSE)
=============================================================================
