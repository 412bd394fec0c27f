------------------------------- MODULE LSGen -------------------------------
(***************************************************************************)
(* A writer of Logstash configurations: a state machine that writes a text  *)
(* token by token, with a gap before each token, and builds on the way the  *)
(* configuration, the comment blocks and the warnings that belong to what   *)
(* it has written.  It is the generating counterpart of the reader LSParse; *)
(* the invariants say that the reader gets back exactly what was written,   *)
(* and that the layout LSPrint prescribes keeps the meaning.                *)
(*                                                                         *)
(* Each complete behaviour is printed and replayed on the real code.        *)
(***************************************************************************)
EXTENDS LSMeaning, LSPrint, LSLimits, TLC, Json

CONSTANTS MaxOpen,       \* constructs in a document
          MaxFancy,      \* gaps other than the plain one in a document
          FancyGaps,     \* these gaps
          PlainGaps,     \* gaps that may stand anywhere
          Names,         \* names of plugins and attributes
          Scalars,       \* values
          Keys,          \* hash keys
          Rvalues,       \* scalar operands of conditions
          Selectors,
          MaxDepth,      \* nesting
          MaxSections,
          MinOpen,       \* constructs a document has at least
          Pick(_),       \* the choices to follow: all (PickAll) or a random one (PickOne)
          Types,         \* types of sections
          CmpOps, BoolOps,
          Skip,          \* steps left out
          Emit           \* print complete documents

VARIABLES text,          \* what has been written
          stack,         \* constructs that are open, innermost last
          want,          \* what comes next
          warn,          \* indices of the exceptional gaps that hold comments
          open, fancy,   \* constructs and fancy gaps used
          conf           \* the configuration, when done

vars == <<text, stack, want, warn, open, fancy, conf>>

PickAll(S) == S
PickOne(S) == {RandomElement(S)}

-----------------------------------------------------------------------------
(* Gaps: x the text, cs the comments, tail: white space after the last one. *)

NoGap   == [x |-> <<>>, cs |-> <<>>, tail |-> FALSE]
Blank1  == [x |-> <<SP>>, cs |-> <<>>, tail |-> TRUE]
NewLine == [x |-> <<NL>>, cs |-> <<>>, tail |-> TRUE]
CrLf    == [x |-> <<CR, NL, TAB>>, cs |-> <<>>, tail |-> TRUE]
Cmt(t)  == [x |-> t, b |-> FALSE, a |-> FALSE]
CmtB(t) == [x |-> t, b |-> TRUE, a |-> FALSE]
Tight   == [x |-> <<HASH, 99, NL>>, cs |-> <<Cmt(<<99>>)>>, tail |-> FALSE]
Loose   == [x |-> <<SP, HASH, SP, 100, SP, NL, SP>>, cs |-> <<Cmt(<<100>>)>>, tail |-> TRUE]
Two     == [x |-> <<NL, HASH, 101, NL, NL, TAB, HASH, HASH, CR, NL>>,
            cs |-> <<Cmt(<<101>>), CmtB(<<HASH>>)>>, tail |-> FALSE]
Three   == [x |-> <<SP, HASH, DQ, NL, HASH, NL, SP, NL, HASH, LBRC, COMMA, NL, NL>>,
            cs |-> <<Cmt(<<DQ>>), Cmt(<<>>), CmtB(<<LBRC, COMMA>>)>>, tail |-> TRUE]
Wide    == [x |-> <<NL, NL, TAB, SP, NL>>, cs |-> <<>>, tail |-> TRUE]

\* The last comment of a text may lack its line end.
AtEnd   == [x |-> <<NL, NL, HASH, SP, 122>>, cs |-> <<Cmt(<<122>>)>>, tail |-> FALSE]

TypesAll == {"input", "filter", "output"}
CmpAll   == {"==", "!=", "<=", ">=", "<", ">", "=~", "!~"}
BoolAll  == {"and", "or", "xor", "nand"}

GapsSmall == {Tight, Two}
GapsSections == {NoGap, Tight, Loose, Two, Wide}
GapsLarge == {NoGap, NewLine, CrLf, Tight, Loose, Two, Three, Wide}
GapPlain  == {Blank1}

Spaces(g) == g.x # <<>> /\ g.x[1] \in WS

-----------------------------------------------------------------------------
(* Literals: [t, x] without positions. *)

W(t, x) == [t |-> t, x |-> x]
NamesSmall == {W("bare", <<97>>)}
NamesLarge == {W("bare", <<97>>), W("bare", <<105,102>>), W("bare", <<45,95,57>>), W("dq", <<98,SP,LBRC>>),
               W("sq", <<DQ,HASH>>), W("bare", KIf \o <<102,121>>), W("bare", KInput)}
ScalarsSmall == {W("number", <<49>>), W("dq", <<NL>>)}
ScalarsOne == {W("number", <<49>>)}
ScalarsLarge == {W("number", <<49>>), W("number", <<DASH,48,48,DOT,53>>), W("number", <<50,DOT>>),
                 W("bare", <<97,98>>), W("bare", KIn), W("dq", <<>>), W("dq", <<HASH,SQ,NL,SP,RBRC>>),
                 W("dq", <<BSL,DQ,SLASH>>), W("sq", <<NL,NL,DQ>>), W("sq", <<BSL,SQ>>), W("sq", <<233,19990>>),
                 W("dq", <<EQ,GT,CR,NL,TAB>>)}
KeysSmall == {W("dq", <<107>>)}
KeysLarge == {W("dq", <<107>>), W("sq", <<HASH,SP>>), W("number", <<55>>), W("bare", <<95,90>>), W("dq", <<NL>>)}
RvaluesSmall == {W("dq", <<114>>)}
RvaluesLarge == {W("dq", <<114>>), W("sq", <<SLASH,NL>>), W("number", <<DASH,51>>), W("regexp", <<120,BSL,SLASH,LBRK,DQ>>),
                 W("regexp", <<NL,SP,SQ>>), W("number", <<49>>)}
SelectorsSmall == {<< <<97>> >>}
SelectorsLarge == {<< <<97>> >>, << <<97>>, <<98,SP,DQ>> >>, << <<HASH>>, <<SQ>>, <<SLASH>> >>, << <<NL,SP,SQ,LBRC>> >>}

Spelled(v) == CASE v.t \in {"bare", "number"} -> v.x
                [] v.t = "dq" -> <<DQ>> \o v.x \o <<DQ>>
                [] v.t = "sq" -> <<SQ>> \o v.x \o <<SQ>>
                [] v.t = "regexp" -> <<SLASH>> \o v.x \o <<SLASH>>

RECURSIVE SpelledSel(_)
SpelledSel(es) == IF es = <<>> THEN <<>> ELSE <<LBRK>> \o es[1] \o <<RBRK>> \o SpelledSel(Tail(es))

RECURSIVE SelElems(_, _)
SelElems(es, p) == IF es = <<>> THEN <<>>
                   ELSE <<[x |-> es[1], p |-> p]>> \o SelElems(Tail(es), p + Len(es[1]) + 2)

-----------------------------------------------------------------------------
(* Steps.  Each writes a gap and a token. *)

Top      == stack[Len(stack)]
Below    == stack[Len(stack) - 1]
PopN(k)  == SubSeq(stack, 1, Len(stack) - k)
Pop      == PopN(1)
Here(g)  == Len(text) + Len(g.x) + 1      \* index of the token after gap g
Warned(g) == IF g.cs = <<>> THEN warn ELSE Append(warn, Len(text) + 1)

Gaps == IF fancy < MaxFancy THEN PlainGaps \cup FancyGaps ELSE PlainGaps
Fancy(g) == fancy' = IF g \in PlainGaps THEN fancy ELSE fancy + 1

Write(g, tok) == text' = text \o g.x \o tok
Kept  == UNCHANGED warn                   \* the comments of the gap are kept
Lost(g) == warn' = Warned(g)              \* ... are lost, with a warning
Room  == open < MaxOpen
Opens == Room /\ open' = open + 1
NoOpen == UNCHANGED open

\* where a finished value goes
Expr(e, r) == [k \in (DOMAIN e \ {"f", "lp"}) |-> e[k]] @@ [r |-> r]
Deliver(st, v) ==
  LET t == st[Len(st)]
      d == Len(st)
  IN CASE t.f = "attr"  -> [SubSeq(st, 1, d - 1) EXCEPT ![d - 1].as =
                              Append(@, [n |-> t.n, v |-> v, p |-> t.p, c |-> t.c])]
       [] t.f = "entry" -> [SubSeq(st, 1, d - 1) EXCEPT ![d - 1].es =
                              Append(@, [k |-> t.k, v |-> v, p |-> t.p, c |-> t.c])]
       [] t.f = "array" -> [st EXCEPT ![d].vs = Append(@, [v |-> v, c |-> t.pc])]
       [] t.f = "left"  -> [st EXCEPT ![d] = [f |-> "expr", op |-> t.op, opp |-> t.opp, p |-> t.p, l |-> v]]
       [] t.f = "expr"  -> [SubSeq(st, 1, d - 1) EXCEPT ![d - 1].es = Append(@, Expr(t, v))]
After(t) == CASE t.f = "attr" -> "attrN" [] t.f = "entry" -> "entN" [] t.f = "array" -> "comma"
              [] t.f = "left" -> "tail" [] t.f = "expr" -> "afterexpr"

InCondArray == \E k \in 2..Len(stack) : stack[k].f = "array" /\ stack[k - 1].f \in {"left", "expr"}

\* --- sections
SectionStart ==
  /\ want = "section" /\ Opens /\ Len(Top.ss) < MaxSections
  /\ \E g \in Pick(Gaps), pt \in Pick(Types) :
       LET tok == CASE pt = "input" -> KInput [] pt = "filter" -> KFilter [] pt = "output" -> KOutput
       IN /\ Write(g, tok) /\ Fancy(g) /\ Kept
          /\ stack' = Append(stack, [f |-> "section", pt |-> pt, p |-> Here(g), c |-> Block(g, FALSE, TRUE), b |-> <<>>])
  /\ want' = "secbrace" /\ UNCHANGED conf

SectionBrace ==
  /\ want = "secbrace" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, <<LBRC>>) /\ Fancy(g) /\ Lost(g)
  /\ want' = "bop" /\ UNCHANGED <<stack, conf>>

SectionEnd ==
  /\ want = "bop" /\ Top.f = "section" /\ NoOpen
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, <<RBRC>>) /\ Fancy(g) /\ Kept
       /\ stack' = [Pop EXCEPT ![Len(stack) - 1].ss =
            Append(@, [pt |-> Top.pt, b |-> Top.b, fc |-> Plain(g), c |-> Top.c, p |-> Top.p])]
  /\ want' = "section" /\ UNCHANGED conf

Finish ==
  /\ want = "section" /\ NoOpen /\ open >= MinOpen
  /\ \E g \in Pick(Gaps \cup (IF fancy < MaxFancy THEN {AtEnd} ELSE {})) :
       /\ Write(g, <<>>) /\ Fancy(g) /\ Kept
       /\ conf' = [input  |-> OfType(Top.ss, "input"),
                   filter |-> OfType(Top.ss, "filter"),
                   output |-> OfType(Top.ss, "output"),
                   fc     |-> IF Top.ss = <<>> THEN <<>> ELSE Block(g, TRUE, FALSE)]
  /\ want' = "done" /\ UNCHANGED stack

\* --- plugins
PluginName ==
  /\ "plugin" \notin Skip /\ want = "bop" /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps), n \in Pick(Names) :
       /\ Write(g, Spelled(n)) /\ Fancy(g) /\ Kept
       /\ stack' = Append(stack, [f |-> "plugin", codec |-> FALSE, n |-> NameText(n), p |-> Here(g),
                                  c |-> Plain(g), as |-> <<>>])
  /\ want' = "pbrace" /\ UNCHANGED conf

PluginBrace ==
  /\ want = "pbrace" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, <<LBRC>>) /\ Fancy(g) /\ Lost(g)
  /\ want' = "attr1" /\ UNCHANGED <<stack, conf>>

AttrName ==
  /\ "attr" \notin Skip /\ want \in {"attr1", "attrN"} /\ Opens
  /\ \E g \in Pick(Gaps), n \in Pick(Names) :
       /\ want = "attrN" => Spaces(g)
       /\ Write(g, Spelled(n)) /\ Fancy(g) /\ Kept
       /\ stack' = Append(stack, [f |-> "attr", n |-> NameText(n), p |-> Here(g), c |-> Block(g, want = "attrN", FALSE)])
  /\ want' = "arrow" /\ UNCHANGED conf

Arrow ==
  /\ want = "arrow" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, KArrow) /\ Fancy(g) /\ Lost(g)
  /\ want' = "value" /\ UNCHANGED <<stack, conf>>

PluginEnd ==
  /\ want \in {"attr1", "attrN"} /\ NoOpen
  /\ \E g \in Pick(Gaps) :
       LET v == [t |-> "plugin", n |-> Top.n, p |-> Top.p, c |-> Top.c, as |-> Top.as, fc |-> Plain(g)]
       IN /\ Write(g, <<RBRC>>) /\ Fancy(g) /\ Kept
          /\ IF Top.codec
             THEN stack' = Deliver(Pop, v) /\ want' = After(Below)
             ELSE stack' = [Pop EXCEPT ![Len(stack) - 1].b = Append(@, v)] /\ want' = "bop"
  /\ UNCHANGED conf

\* --- values
\* the comments of the gap before a value: kept in arrays, lost otherwise
ValueGap(g) == IF Top.f = "array" THEN Kept ELSE Lost(g)
Marked(g) == IF Top.f = "array" THEN [stack EXCEPT ![Len(stack)].pc = Block(g, want = "elemN", FALSE)] ELSE stack
TakesValue == want \in {"value", "elem1", "elemN"}

Scalar ==
  /\ "scalar" \notin Skip /\ TakesValue /\ NoOpen
  /\ \E g \in Pick(Gaps), v \in Pick(Scalars) :
       /\ Write(g, Spelled(v)) /\ Fancy(g) /\ ValueGap(g)
       /\ stack' = Deliver(Marked(g), [t |-> v.t, x |-> v.x, p |-> Here(g)])
  /\ want' = After(Top) /\ UNCHANGED conf

ArrayStart ==
  /\ "array" \notin Skip /\ TakesValue /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, <<LBRK>>) /\ Fancy(g) /\ ValueGap(g)
       /\ stack' = Append(Marked(g), [f |-> "array", p |-> Here(g), vs |-> <<>>, pc |-> <<>>])
  /\ want' = "elem1" /\ UNCHANGED conf

Comma ==
  /\ want = "comma" /\ Opens
  /\ \E g \in Pick(Gaps) : Write(g, <<COMMA>>) /\ Fancy(g) /\ Lost(g)
  /\ want' = "elemN" /\ UNCHANGED <<stack, conf>>

\* "[" up to the next bracket or comma is a selector in a condition
CondArray == Below.f \in {"left", "expr"}
ArrayEnd ==
  /\ want \in {"elem1", "comma"} /\ Top.f = "array" /\ NoOpen
  /\ \E g \in Pick(Gaps) :
       LET v == [t |-> "array", vs |-> Top.vs, fc |-> Plain(g), p |-> Top.p]
       IN /\ CondArray => Len(Top.vs) > 1 \/ (want = "elem1" /\ g = NoGap)
          /\ Write(g, <<RBRK>>) /\ Fancy(g) /\ Kept
          /\ stack' = Deliver(Pop, v)
          /\ want' = After(Below)
  /\ UNCHANGED conf

HashStart ==
  /\ "hash" \notin Skip /\ TakesValue /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, <<LBRC>>) /\ Fancy(g) /\ ValueGap(g)
       /\ stack' = Append(Marked(g), [f |-> "hash", p |-> Here(g), es |-> <<>>])
  /\ want' = "ent1" /\ UNCHANGED conf

Key ==
  /\ want \in {"ent1", "entN"} /\ Opens
  /\ \E g \in Pick(Gaps), k \in Pick(Keys) :
       /\ want = "entN" => Spaces(g)
       /\ Write(g, Spelled(k)) /\ Fancy(g) /\ Kept
       /\ stack' = Append(stack, [f |-> "entry", k |-> [t |-> k.t, x |-> k.x, p |-> Here(g)], p |-> Here(g),
                                  c |-> Block(g, want = "entN", FALSE)])
  /\ want' = "arrow" /\ UNCHANGED conf

HashEnd ==
  /\ want \in {"ent1", "entN"} /\ NoOpen
  /\ \E g \in Pick(Gaps) :
       LET v == [t |-> "hash", es |-> Top.es, fc |-> Plain(g), p |-> Top.p]
       IN /\ Write(g, <<RBRC>>) /\ Fancy(g) /\ Kept
          /\ stack' = Deliver(Pop, v)
          /\ want' = After(Below)
  /\ UNCHANGED conf

Codec ==
  /\ "codec" \notin Skip /\ want = "value" /\ Top.f = "attr" /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps), n \in Pick(Names) :
       /\ Write(g, Spelled(n)) /\ Fancy(g) /\ Lost(g)
       /\ stack' = Append(stack, [f |-> "plugin", codec |-> TRUE, n |-> NameText(n), p |-> Here(g), c |-> <<>>, as |-> <<>>])
  /\ want' = "pbrace" /\ UNCHANGED conf

\* --- branches
CondFrame(kind, p) == [f |-> "cond", kind |-> kind, p |-> p, es |-> <<>>, op |-> "", opp |-> 0]

If ==
  /\ "if" \notin Skip /\ want = "bop" /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, KIf) /\ Fancy(g) /\ Kept
       /\ stack' = stack \o <<[f |-> "branch", if |-> <<>>, ei |-> <<>>, el |-> NoElse],
                              [f |-> "block", part |-> "if", p |-> Here(g), c |-> Plain(g), cond |-> <<>>, b |-> <<>>],
                              CondFrame("top", 0)>>
  /\ want' = "operand" /\ UNCHANGED conf

ElseWord ==
  /\ "else" \notin Skip /\ want = "afterblock" /\ Opens
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, KElse) /\ Fancy(g) /\ Kept
       /\ stack' = Append(stack, [f |-> "block", part |-> "?", p |-> Here(g), c |-> Plain(g), cond |-> <<>>, b |-> <<>>])
  /\ want' = "elsenext" /\ UNCHANGED conf

ElseIf ==
  /\ want = "elsenext" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, KIf) /\ Fancy(g) /\ Lost(g)
  /\ stack' = Append([stack EXCEPT ![Len(stack)].part = "ei"], CondFrame("top", 0))
  /\ want' = "operand" /\ UNCHANGED conf

ElseBrace ==
  /\ want = "elsenext" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, <<LBRC>>) /\ Fancy(g) /\ Lost(g)
  /\ stack' = [stack EXCEPT ![Len(stack)].part = "el"]
  /\ want' = "bop" /\ UNCHANGED conf

BlockEnd ==
  /\ want = "bop" /\ Top.f = "block" /\ NoOpen
  /\ \E g \in Pick(Gaps) :
       LET d == Len(stack) - 1
           e == [b |-> Top.b, fc |-> Plain(g), c |-> Top.c, p |-> Top.p]
       IN /\ Write(g, <<RBRC>>) /\ Fancy(g) /\ Kept
          /\ CASE Top.part = "if" -> /\ stack' = [Pop EXCEPT ![d].if = e @@ [cond |-> Top.cond]]
                                     /\ want' = "afterblock"
               [] Top.part = "ei" -> /\ stack' = [Pop EXCEPT ![d].ei = Append(@, e @@ [cond |-> Top.cond])]
                                     /\ want' = "afterblock"
               [] Top.part = "el" -> /\ stack' = [Pop EXCEPT ![d].el = e]
                                     /\ want' = "branchend"
  /\ UNCHANGED conf

BranchEnd ==
  /\ want \in {"afterblock", "branchend"}
  /\ stack' = [Pop EXCEPT ![Len(stack) - 1].b =
                 Append(@, [t |-> "branch", if |-> Top.if, ei |-> Top.ei, el |-> Top.el])]
  /\ want' = "bop"
  /\ UNCHANGED <<text, warn, open, fancy, conf>>

\* --- conditions
\* the frame of the next expression at index p
Left(p) == [f |-> "left", op |-> Top.op, opp |-> Top.opp, p |-> p]

Operand(g, v) ==     \* v: left or right operand, complete
  IF want = "operand" THEN /\ stack' = Deliver(Append(stack, Left(Here(g))), v) /\ want' = "tail"
  ELSE /\ stack' = Deliver(stack, v) /\ want' = "afterexpr"

RightOf(kinds) == want = "right" => (Top.k # "re" \/ kinds \subseteq {"dq", "sq", "regexp"})

Rvalue1 ==
  /\ "rvalue" \notin Skip /\ want \in {"operand", "right"} /\ NoOpen
  /\ \E g \in Pick(Gaps), v \in Pick(Rvalues) :
       /\ RightOf({v.t})
       /\ Write(g, Spelled(v)) /\ Fancy(g) /\ Lost(g)
       /\ Operand(g, [t |-> v.t, x |-> v.x, p |-> Here(g)])
  /\ UNCHANGED conf

SelectorValue ==
  /\ "selector" \notin Skip /\ want \in {"operand", "right"} /\ RightOf({"selector"}) /\ NoOpen
  /\ \E g \in Pick(Gaps), es \in Pick(Selectors) :
       /\ Write(g, SpelledSel(es)) /\ Fancy(g) /\ Lost(g)
       /\ Operand(g, [t |-> "selector", es |-> SelElems(es, Here(g)), p |-> Here(g)])
  /\ UNCHANGED conf

ArrayOperand ==
  /\ "condarray" \notin Skip /\ want \in {"operand", "right"} /\ RightOf({"array"}) /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, <<LBRK>>) /\ Fancy(g) /\ Lost(g)
       /\ stack' = (IF want = "operand" THEN Append(stack, Left(Here(g))) ELSE stack)
                   \o <<[f |-> "array", p |-> Here(g), vs |-> <<>>, pc |-> <<>>]>>
  /\ want' = "elem1" /\ UNCHANGED conf

ParOpen ==
  /\ "par" \notin Skip /\ want = "operand" /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, <<LPAR>>) /\ Fancy(g) /\ Lost(g)
       /\ stack' = Append(stack, CondFrame("par", Here(g)))
  /\ want' = "operand" /\ UNCHANGED conf

Bang ==
  /\ "bang" \notin Skip /\ want = "operand" /\ Opens /\ Len(stack) < MaxDepth
  /\ \E g \in Pick(Gaps) :
       /\ Write(g, <<BANG>>) /\ Fancy(g) /\ Lost(g)
       /\ stack' = Append(stack, [f |-> "bang", p |-> Here(g)])
  /\ want' = "neg" /\ UNCHANGED conf

NegPar ==
  /\ want = "neg" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, <<LPAR>>) /\ Fancy(g) /\ Lost(g)
  /\ stack' = [stack EXCEPT ![Len(stack)] = CondFrame("npar", Top.p)]
  /\ want' = "operand" /\ UNCHANGED conf

AddExpr(st, e) == [st EXCEPT ![Len(st)].es = Append(@, e @@ [op |-> st[Len(st)].op, opp |-> st[Len(st)].opp])]

NegSel ==
  /\ want = "neg" /\ NoOpen
  /\ \E g \in Pick(Gaps), es \in Pick(Selectors) :
       /\ Write(g, SpelledSel(es)) /\ Fancy(g) /\ Lost(g)
       /\ stack' = AddExpr(Pop, [k |-> "nsel", p |-> Top.p,
                                 sel |-> [t |-> "selector", es |-> SelElems(es, Here(g)), p |-> Here(g)]])
  /\ want' = "afterexpr" /\ UNCHANGED conf

ParClose ==
  /\ want = "afterexpr" /\ Top.kind \in {"par", "npar"} /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, <<RPAR>>) /\ Fancy(g) /\ Lost(g)
  /\ stack' = AddExpr(Pop, [k |-> Top.kind, p |-> Top.p, cond |-> Top.es])
  /\ want' = "afterexpr" /\ UNCHANGED conf

\* nothing follows the left operand
Alone ==
  /\ want = "tail"
  /\ stack' = [Pop EXCEPT ![Len(stack) - 1].es = Append(@, [k |-> "rv", op |-> Top.op, opp |-> Top.opp, p |-> Top.p, r |-> Top.l])]
  /\ want' = "afterexpr"
  /\ UNCHANGED <<text, warn, open, fancy, conf>>

Compare ==
  /\ "cmp" \notin Skip /\ want = "tail" /\ NoOpen
  /\ \E g \in Pick(Gaps), o \in Pick(CmpOps) :
       /\ Write(g, OpText(o)) /\ Fancy(g) /\ Lost(g)
       /\ stack' = [stack EXCEPT ![Len(stack)] = @ @@ [k |-> IF o \in {"=~", "!~"} THEN "re" ELSE "cmp", o |-> o, op2 |-> Here(g)]]
  /\ want' = "right" /\ UNCHANGED conf

InWord ==
  /\ "in" \notin Skip /\ want \in {"tail", "notin"} /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, KIn) /\ Fancy(g) /\ Lost(g)
  /\ stack' = IF want = "tail" THEN [stack EXCEPT ![Len(stack)] = @ @@ [k |-> "in"]] ELSE stack
  /\ want' = "right" /\ UNCHANGED conf

NotWord ==
  /\ "not" \notin Skip /\ want = "tail" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, KNotSp) /\ Fancy(g) /\ Lost(g)
  /\ stack' = [stack EXCEPT ![Len(stack)] = @ @@ [k |-> "notin"]]
  /\ want' = "notin" /\ UNCHANGED conf

BoolWord ==
  /\ "bool" \notin Skip /\ want = "afterexpr" /\ Opens
  /\ \E g \in Pick(Gaps), o \in Pick(BoolOps) :
       /\ Write(g, OpText(o)) /\ Fancy(g) /\ Lost(g)
       /\ stack' = [stack EXCEPT ![Len(stack)].op = o, ![Len(stack)].opp = Here(g)]
  /\ want' = "operand" /\ UNCHANGED conf

CondBrace ==
  /\ want = "afterexpr" /\ Top.kind = "top" /\ NoOpen
  /\ \E g \in Pick(Gaps) : Write(g, <<LBRC>>) /\ Fancy(g) /\ Lost(g)
  /\ stack' = [Pop EXCEPT ![Len(stack) - 1].cond = Top.es]
  /\ want' = "bop" /\ UNCHANGED conf

Init == /\ text = <<>> /\ stack = <<[f |-> "config", ss |-> <<>>]>> /\ want = "section"
        /\ warn = <<>> /\ open = 0 /\ fancy = 0 /\ conf = <<>>

Next == \/ SectionStart \/ SectionBrace \/ SectionEnd \/ Finish
        \/ PluginName \/ PluginBrace \/ AttrName \/ Arrow \/ PluginEnd
        \/ Scalar \/ ArrayStart \/ Comma \/ ArrayEnd \/ HashStart \/ Key \/ HashEnd \/ Codec
        \/ If \/ ElseWord \/ ElseIf \/ ElseBrace \/ BlockEnd \/ BranchEnd
        \/ Rvalue1 \/ SelectorValue \/ ArrayOperand \/ ParOpen \/ Bang \/ NegPar \/ NegSel \/ ParClose
        \/ Alone \/ Compare \/ InWord \/ NotWord \/ BoolWord \/ CondBrace

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants of complete documents. *)

Done == want = "done"

\* The reader gets back exactly what was written: acceptance, tree, positions,
\* comments and warnings (C01, C02, C03, C07, C08).
ReadBack == Done => LET r == Parse(text)
                    IN /\ r.st = "ok"
                       /\ r.v = conf
                       /\ r.w = warn

\* Numbers are spelled as they were written.
Spell(t) == SelectSeq(t, LAMBDA c : c >= 0)
Laid     == Spell(Format(conf))

\* The standardized layout means the same, keeps the comments at their nodes,
\* and is a fixed point (C05, C06, C07).
LayoutKeeps == Done /\ ~Inexpressible(conf) =>
   LET r == Parse(Laid)
   IN /\ r.st = "ok"
      /\ Meaning(r.v) = Meaning(conf)
      /\ CommentsAt(r.v) = CommentsAt(conf)
      /\ Numbers(r.v) = Numbers(conf)
      /\ r.w = <<>>
      /\ Spell(Format(r.v)) = Laid

\* Every incomplete document is no configuration yet, or one with less in it:
\* whatever can still be written, the reader never dies on the written prefix
\* for another reason than a missing closer (C04).
PrefixDies == want # "done" =>
   LET r == Parse(text) IN r.st = "die" => r.m \in {MCurly, MBrack, MParen, MDq, MSq, MSlash}

\* Printed as a trace: the text, the configuration and the warnings.
Printed == (Done /\ Emit) => PrintT(<<"DOC", ToJson([s |-> text, v |-> conf, w |-> warn, fmt |-> Format(conf), x |-> Inexpressible(conf), st |-> "ok"])>>)
=============================================================================
