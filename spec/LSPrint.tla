------------------------------ MODULE LSPrint ------------------------------
(***************************************************************************)
(* The standardized layout: what  mustache format  writes for a             *)
(* configuration (a value of the shape LSParse!Parse returns).              *)
(*                                                                         *)
(* A document is a sequence of lines.  A line may hold line breaks of its   *)
(* own (inside a quoted string, a regular expression or a selector), which  *)
(* indentation never touches.  A number is written as  NumOpen lexeme       *)
(* NumClose: the layout leaves open how the number is spelled.              *)
(***************************************************************************)
EXTENDS LSText, SequencesExt

NumOpen  == -1
NumClose == -2

Line(x) == << x >>
Blank   == << <<>> >>

\* Document A directly followed, on its last line, by document B.
Cat(A, B) == IF A = <<>> THEN B ELSE IF B = <<>> THEN A ELSE
             SubSeq(A, 1, Len(A) - 1) \o << A[Len(A)] \o B[1] >> \o SubSeq(B, 2, Len(B))

Indent(D) == [k \in 1..Len(D) |-> IF D[k] = <<>> THEN <<>> ELSE <<SP, SP>> \o D[k]]

Flat(Ds) == FlattenSeq(Ds)

\* Documents separated by blank lines.
Spaced(Ds) == Flat([k \in 1..Len(Ds) |-> IF k = 1 THEN Ds[1] ELSE Blank \o Ds[k]])

Join2(A, B) == IF A = <<>> THEN B ELSE IF B = <<>> THEN A ELSE A \o Blank \o B

Comments(cs) == Flat([k \in 1..Len(cs) |->
                  (IF cs[k].b THEN Blank ELSE <<>>)
                  \o Line(<<HASH, SP>> \o cs[k].x)
                  \o (IF cs[k].a THEN Blank ELSE <<>>)])

\* Blank lines at the end of a block are left out.
RECURSIVE NoTail(_)
NoTail(D) == IF D # <<>> /\ D[Len(D)] = <<>> THEN NoTail(SubSeq(D, 1, Len(D) - 1)) ELSE D

\* open + indented body + close, on one line if there is no body.
Enclose(open, body, close) ==
  IF body = <<>> THEN Line(open \o close)
  ELSE Line(open) \o Indent(NoTail(body)) \o Line(close)

RECURSIVE PValue(_), PPlugin(_)

PItem(v) == Comments(v.c) \o PValue(v.v)

PArray(v) ==
  LET n == Len(v.vs)
      items == Flat([k \in 1..n |-> IF k < n THEN Cat(PItem(v.vs[k]), Line(<<COMMA>>))
                                    ELSE PItem(v.vs[k])])
  IN Enclose(<<LBRK>>, Join2(items, Comments(v.fc)), <<RBRK>>)

PEntry(e) == Comments(e.c) \o Cat(Cat(PValue(e.k), Line(<<SP>> \o KArrow \o <<SP>>)), PValue(e.v))

PHash(v) == Enclose(<<LBRC>>,
                    Join2(Flat([k \in 1..Len(v.es) |-> PEntry(v.es[k])]), Comments(v.fc)),
                    <<RBRC>>)

PSelector(v) == Flat([k \in 1..Len(v.es) |-> <<LBRK>> \o v.es[k].x \o <<RBRK>>])

PValue(v) ==
  CASE v.t = "bare"     -> Line(v.x)
    [] v.t = "dq"       -> Line(<<DQ>> \o v.x \o <<DQ>>)
    [] v.t = "sq"       -> Line(<<SQ>> \o v.x \o <<SQ>>)
    [] v.t = "regexp"   -> Line(<<SLASH>> \o v.x \o <<SLASH>>)
    [] v.t = "number"   -> Line(<<NumOpen>> \o v.x \o <<NumClose>>)
    [] v.t = "selector" -> Line(PSelector(v))
    [] v.t = "array"    -> PArray(v)
    [] v.t = "hash"     -> PHash(v)
    [] v.t = "plugin"   -> PPlugin(v)

PAttr(a) == Comments(a.c) \o Cat(Line(a.n \o <<SP>> \o KArrow \o <<SP>>), PValue(a.v))

PPlugin(p) ==
  Comments(p.c) \o
  Enclose(p.n \o <<SP, LBRC>>,
          Join2(Flat([k \in 1..Len(p.as) |-> PAttr(p.as[k])]), Comments(p.fc)),
          <<RBRC>>)

OpText(o) == CASE o = "and" -> KAnd [] o = "or" -> KOr [] o = "xor" -> KXor [] o = "nand" -> KNand
               [] o = "==" -> KEqEq [] o = "!=" -> KNeq [] o = "<=" -> KLe [] o = ">=" -> KGe
               [] o = "<" -> KLt [] o = ">" -> KGt [] o = "=~" -> KMatch [] o = "!~" -> KNMatch
               [] o = "in" -> KIn [] o = "notin" -> KNotSp \o KIn

RECURSIVE PCond(_), PExprs(_)

Infix(l, o, r) == Cat(Cat(PValue(l), Line(<<SP>> \o OpText(o) \o <<SP>>)), PValue(r))

PExpr(e) ==
  LET body ==
    CASE e.k = "par"   -> Cat(Cat(Line(<<LPAR>>), PCond(e.cond)), Line(<<RPAR>>))
      [] e.k = "npar"  -> Cat(Cat(Line(<<BANG, LPAR>>), PCond(e.cond)), Line(<<RPAR>>))
      [] e.k = "nsel"  -> Cat(Line(<<BANG>>), PValue(e.sel))
      [] e.k = "in"    -> Infix(e.l, "in", e.r)
      [] e.k = "notin" -> Infix(e.l, "notin", e.r)
      [] e.k = "cmp"   -> Infix(e.l, e.o, e.r)
      [] e.k = "re"    -> Infix(e.l, e.o, e.r)
      [] e.k = "rv"    -> PValue(e.r)
  IN IF e.op = "" THEN body ELSE Cat(Line(<<SP>> \o OpText(e.op) \o <<SP>>), body)

PExprs(es) == IF es = <<>> THEN <<>> ELSE Cat(PExpr(es[1]), PExprs(Tail(es)))
PCond(c) == PExprs(c)

RECURSIVE PBop(_), PBody(_)

PBody(b) == Spaced([k \in 1..Len(b) |-> PBop(b[k])])

\* Blocks of a branch always take at least two lines.
PBlock(head, x) ==
  Cat(head, Line(<<SP, LBRC>>)) \o Indent(NoTail(Join2(PBody(x.b), Comments(x.fc)))) \o Line(<<RBRC>>)

HasElse(e) == e.b # <<>> \/ e.fc # <<>> \/ e.c # <<>>

\* Document A, then an else-part B: on the closing line of A, or, if the part
\* has comments, below them.
Chain(A, c, B) == IF c = <<>> THEN Cat(Cat(A, Line(<<SP>>)), B) ELSE A \o Comments(c) \o B

RECURSIVE PElseIfs(_, _)
PElseIfs(A, es) ==
  IF es = <<>> THEN A
  ELSE PElseIfs(Chain(A, es[1].c,
                      PBlock(Cat(Line(KElse \o <<SP>> \o KIf \o <<SP>>), PCond(es[1].cond)), es[1])),
                Tail(es))

PBranch(x) ==
  LET A == Comments(x.if.c) \o PBlock(Cat(Line(KIf \o <<SP>>), PCond(x.if.cond)), x.if)
      B == PElseIfs(A, x.ei)
  IN IF HasElse(x.el) THEN Chain(B, x.el.c, PBlock(Line(KElse), x.el)) ELSE B

PBop(x) == IF x.t = "plugin" THEN PPlugin(x) ELSE PBranch(x)

PSection(x) ==
  Comments(x.c) \o
  Enclose((CASE x.pt = "input" -> KInput [] x.pt = "filter" -> KFilter [] x.pt = "output" -> KOutput)
            \o <<SP, LBRC>>,
          Join2(PBody(x.b), Comments(x.fc)), <<RBRC>>)

PSections(ss) == Spaced([k \in 1..Len(ss) |-> PSection(ss[k])])

PConfig(c) == PSections(c.input) \o PSections(c.filter) \o PSections(c.output) \o Comments(c.fc)

\* The document as text: each line ends with a line break.
Text(D) == Flat([k \in 1..Len(D) |-> Append(D[k], NL)])

Format(c) == Text(PConfig(c))
=============================================================================
