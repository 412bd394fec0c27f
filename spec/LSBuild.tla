------------------------------ MODULE LSBuild ------------------------------
(***************************************************************************)
(* Configurations built by hand: a stack machine whose steps are the calls  *)
(* of the constructors of package ast.  A step pops its arguments from the  *)
(* stack and pushes the new node.  An argument that is absent (nil) is       *)
(* skipped.  The text a node must print is the standardized text of the     *)
(* configuration it describes (LSPrint); reading that text must give the    *)
(* same configuration again (the invariants below, and the real code).      *)
(***************************************************************************)
EXTENDS LSMeaning, LSPrint, TLC, Json

CONSTANTS MaxSteps, MaxStack, MaxArgs,
          Literals,      \* strings and numbers: [t, x]
          Operands,      \* selectors and regular expressions: [t, es] or [t, x]
          Keys, AttrNames, PluginNames,
          CommentTexts, Spacing,    \* texts of comments, sets of [b, a]
          MaxComments, MaxNils,
          BoolOps, CmpOps, Types,
          Calls,         \* constructors that are called
          Ready,         \* nodes that lie ready
          Pick(_), Each, Emit

VARIABLES st, steps, cmts, nils

CallsAll == {"literal", "operand", "absent", "array", "hash", "plugin", "codec", "expression", "condition", "block",
             "else", "branch", "section", "config", "comment", "ready"}

vars == <<st, steps, cmts, nils>>

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

-----------------------------------------------------------------------------
(* Literals. *)

L(t, x) == [t |-> t, x |-> x]
LiteralsSmall == {L("dq", <<NL>>), L("number", <<49>>)}
LiteralsOne == {L("sq", <<NL,DQ>>)}
LiteralsLarge == {L("dq", <<>>), L("dq", <<97>>), L("dq", <<97,NL,SP,SP,98,NL>>), L("dq", <<HASH,SQ,SLASH,LBRK,RBRC,SP>>),
   L("dq", <<BSL,DQ>>), L("dq", <<NL,HASH,SP,99,NL,NL>>), L("dq", <<EQ,GT,SP,LBRK,NL>>), L("dq", <<BSL,BSL,BSL,DQ,NL>>),
   L("sq", <<>>), L("sq", <<DQ,NL,DQ>>), L("sq", <<BSL,SQ,COMMA>>), L("sq", <<233,TAB,128512>>), L("sq", <<LBRK,NL,RBRK>>),
   L("sq", <<SP>>), L("sq", <<SLASH,NL,NL>>),
   L("bare", <<97,98>>), L("bare", <<USC,49>>), L("bare", KIf \o <<102>>), L("bare", <<116,114,117,101>>),
   L("number", <<48>>), L("number", <<DASH,49>>), L("number", <<49,DOT,53>>), L("number", <<48,DOT,48,48,48,48,49>>),
   L("number", <<49,48,48,48,48,48,48,48>>), L("number", <<49,50,51,52,53,54,55,56,57,48,49,50>>),
   L("number", <<DASH,48,DOT,49,50,53>>), L("number", <<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,51>>),
   L("number", <<49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>),
   L("number", <<48,DOT,48,48,48,48,48,48,48,48,48,48,48,49>>)}

Sel(es) == [t |-> "selector", es |-> es]
OperandsSmall == {Sel(<< <<97>> >>), L("regexp", <<NL>>)}
OperandsLarge == {Sel(<< <<97>> >>), Sel(<< <<97>>, <<98,SP,DQ>> >>), Sel(<< <<NL,SP,SQ>> >>), Sel(<< <<HASH>>, <<SLASH>>, <<48>> >>),
   L("regexp", <<94,97>>), L("regexp", <<BSL,SLASH,DQ,NL>>), L("regexp", <<SQ,LBRK,HASH>>), L("regexp", <<>>)}

KeysSmall == {L("bare", <<107,107>>)}
KeysLarge == {L("bare", <<107,107>>), L("dq", <<DQ + 1>>), L("sq", <<NL,DQ>>), L("number", <<55>>), L("dq", <<BSL,DQ,HASH>>)}
NamesSmall == {<<97>>}
AttrNamesLarge == {<<97>>, <<105,100>>, <<DQ,98,SP,LBRC,DQ>>, <<SQ,DQ,HASH,SQ>>, <<49,DASH,USC>>, KIf}
PluginNamesLarge == {<<112>>, <<103,114,111,107>>, <<DQ,112,SP,DQ>>, <<48,DASH,120>>, KIf \o <<102>>, KElse \o <<119>>}

CommentsSmall == {<<99>>}
CommentsLarge == {<<99>>, <<>>, <<HASH,DQ,SP,LBRC>>, <<SQ,SLASH,LBRK,SP,EQ,GT>>, <<233,COMMA>>}
SpacingNone == {[b |-> FALSE, a |-> FALSE]}
SpacingAll  == [b : BOOLEAN, a : BOOLEAN]
BoolOpsAll == {"and", "or", "xor", "nand"}
CmpOpsAll  == {"==", "!=", "<=", ">=", "<", ">"}
TypesAll == {"input", "filter", "output"}
TypeOne  == {"filter"}
BoolOne  == {"and"}
CmpOne   == {"<="}

-----------------------------------------------------------------------------
(* Nodes. *)

N1 == <<97>>
Expr(k, r) == [t |-> "expr", op |-> "", k |-> k, r |-> r]
Plug(as) == [t |-> "plugin", n |-> N1, as |-> as, c |-> <<>>, fc |-> <<>>]
CondOf(es) == [t |-> "cond", es |-> es]
IfOf(c, b) == [t |-> "if", cond |-> c, b |-> b, c |-> <<>>, fc |-> <<>>]
C0 == CondOf(<<Expr("rv", Sel(<<N1>>))>>)
BranchOf(i, ei, el) == [t |-> "branch", if |-> i, ei |-> ei, el |-> el]
SectionOf(b) == [t |-> "section", pt |-> "filter", b |-> b, c |-> <<>>, fc |-> <<>>]
Of(ss, pt) == SelectSeq(ss, LAMBDA s : s.pt = pt)
ConfigOf(s) == [t |-> "config", input |-> Of(<<s>>, "input"), filter |-> Of(<<s>>, "filter"),
                output |-> Of(<<s>>, "output"), fc |-> <<>>]

ReadyNone == {}
ReadyBlocks == {Plug(<<>>), C0}
\* a plugin and a condition with everything that is delicate to lay out
Delicate == Plug(<<[t |-> "sq", x |-> <<NL,SP,SP,DQ>>, n |-> N1, c |-> <<[x |-> N1, b |-> TRUE, a |-> TRUE]>>]>>)
ReadyDelicate == {Delicate, C0, CondOf(<<Expr("rv", L("regexp", <<NL,DQ,NL>>))>>),
                  CondOf(<<Expr("rv", [t |-> "array", n |-> N1, vs |-> <<>>, c |-> <<>>, fc |-> <<>>])>>)}

Nil == [t |-> "nil"]
Scalar  == {"dq", "sq", "bare", "number"}
IsNil(x) == x.t = "nil"
IsAttr(x) == x.t \in Scalar \cup {"array", "hash", "pa"}
IsElem(x) == x.t \in Scalar \cup {"array", "hash"}
IsBop(x)  == x.t \in {"plugin", "branch"}

Real(xs) == SelectSeq(xs, LAMBDA x : ~IsNil(x))     \* without absent elements

\* The configuration a node describes, in the shape of LSPrint.
RECURSIVE SV(_), SPlugin(_)
SPlugin(p) == [t |-> "plugin", n |-> p.n, c |-> p.c, fc |-> p.fc,
               as |-> LET as == Real(p.as) IN [k \in 1..Len(as) |-> [n |-> as[k].n, v |-> SV(as[k]), c |-> as[k].c]]]
SV(v) ==
  CASE v.t \in Scalar \cup {"regexp"} -> [t |-> v.t, x |-> v.x]
    [] v.t = "selector" -> [t |-> "selector", es |-> [k \in 1..Len(v.es) |-> [x |-> v.es[k]]]]
    [] v.t = "array" -> [t |-> "array", fc |-> v.fc,
                         vs |-> LET vs == Real(v.vs) IN [k \in 1..Len(vs) |-> [v |-> SV(vs[k]), c |-> vs[k].c]]]
    [] v.t = "hash" -> [t |-> "hash", fc |-> v.fc,
                        es |-> [k \in 1..Len(v.es) |-> [k |-> SV(v.es[k].k), v |-> SV(v.es[k].v), c |-> v.es[k].c]]]
    [] v.t = "pa" -> SPlugin(v.v)

RECURSIVE SCond(_)
SExpr(e) ==
  CASE e.k \in {"par", "npar"} -> [op |-> e.op, k |-> e.k, cond |-> SCond(e.cond.es)]
    [] e.k = "nsel" -> [op |-> e.op, k |-> e.k, sel |-> SV(e.r)]
    [] e.k = "rv"   -> [op |-> e.op, k |-> e.k, r |-> SV(e.r)]
    [] e.k \in {"in", "notin"} -> [op |-> e.op, k |-> e.k, l |-> SV(e.l), r |-> SV(e.r)]
    [] OTHER -> [op |-> e.op, k |-> e.k, l |-> SV(e.l), r |-> SV(e.r), o |-> e.o]
SCond(es) == LET xs == Real(es) IN [k \in 1..Len(xs) |-> SExpr(xs[k])]

RECURSIVE SBop(_), SBody(_)
SBody(b) == LET xs == Real(b) IN [k \in 1..Len(xs) |-> SBop(xs[k])]
SBlock(x) == [b |-> SBody(x.b), c |-> x.c, fc |-> x.fc]
SIf(x) == [b |-> SBody(x.b), c |-> x.c, fc |-> x.fc, cond |-> SCond(x.cond.es)]
SBop(x) == IF x.t = "plugin" THEN SPlugin(x)
           ELSE [t |-> "branch", if |-> SIf(x.if), ei |-> [k \in 1..Len(x.ei) |-> SIf(x.ei[k])], el |-> SBlock(x.el)]
SSections(ss) == [k \in 1..Len(ss) |-> [pt |-> ss[k].pt, b |-> SBody(ss[k].b), c |-> ss[k].c, fc |-> ss[k].fc]]
SConfig(c) == [input |-> SSections(c.input), filter |-> SSections(c.filter), output |-> SSections(c.output), fc |-> c.fc]

-----------------------------------------------------------------------------
(* Constructor calls. *)

Top == st[Len(st)]
Args(n) == SubSeq(st, Len(st) - n + 1, Len(st))
Push(n, x) == st' = Append(SubSeq(st, 1, Len(st) - n), x)
Step(c) == c \in Calls /\ steps < MaxSteps /\ steps' = steps + 1
Plainly == UNCHANGED <<cmts, nils>>
\* the numbers n of arguments on top of the stack that satisfy P
Counts(P(_)) == {n \in 0..(IF Len(st) < MaxArgs THEN Len(st) ELSE MaxArgs) :
                   \A k \in (Len(st) - n + 1)..Len(st) : P(st[k]) \/ IsNil(st[k])}
Opening(n) == n > 0 \/ Len(st) < MaxStack        \* a call without arguments makes the stack grow

NewLiteral == /\ Step("literal") /\ Plainly /\ Len(st) < MaxStack
              /\ \E l \in Pick(Literals), n \in Pick(AttrNames) :
                   Push(0, [t |-> l.t, x |-> l.x, n |-> n, c |-> <<>>])
NewOperand == /\ Step("operand") /\ Plainly /\ Len(st) < MaxStack
              /\ \E o \in Pick(Operands) : Push(0, o)
TakeReady == /\ Step("ready") /\ Plainly /\ Len(st) < MaxStack
             /\ \E x \in Pick(Ready) : Push(0, x)
Absent == /\ Step("absent") /\ nils < MaxNils /\ nils' = nils + 1 /\ UNCHANGED cmts /\ Len(st) < MaxStack
          /\ Push(0, Nil)

NewArray == /\ Step("array") /\ Plainly
            /\ \E n \in Pick(Counts(IsElem)), m \in Pick(AttrNames) :
                 Opening(n) /\ Push(n, [t |-> "array", n |-> m, vs |-> Args(n), c |-> <<>>, fc |-> <<>>])
NewEntry == /\ Step("hash") /\ Plainly /\ Len(st) > 0 /\ IsElem(Top) /\ Top.c = <<>>
            /\ \E k \in Pick(Keys) : Push(1, [t |-> "entry", k |-> k, v |-> Top, c |-> <<>>])
IsEntry(x) == x.t = "entry"
NoNil(n) == \A k \in (Len(st) - n + 1)..Len(st) : ~IsNil(st[k])
NewHash == /\ Step("hash") /\ Plainly
           /\ \E n \in Pick(Counts(IsEntry)), m \in Pick(AttrNames) :
                Opening(n) /\ NoNil(n)
                /\ Push(n, [t |-> "hash", n |-> m, es |-> Args(n), c |-> <<>>, fc |-> <<>>])
NewPlugin == /\ Step("plugin") /\ Plainly
             /\ \E n \in Pick(Counts(IsAttr)), m \in Pick(PluginNames) :
                  Opening(n) /\ Push(n, [t |-> "plugin", n |-> m, as |-> Args(n), c |-> <<>>, fc |-> <<>>])
NewPluginAttribute ==
  /\ Step("codec") /\ Plainly /\ Len(st) > 0 /\ Top.t = "plugin" /\ Top.c = <<>>
  /\ \E m \in Pick(AttrNames) : Push(1, [t |-> "pa", n |-> m, v |-> Top, c |-> <<>>])

\* An array with one element reads as a selector in a condition (LSLimits).
IsRvalue(x) == \/ x.t \in {"dq", "sq", "number"} /\ x.c = <<>>
               \/ x.t \in {"regexp", "selector"}
               \/ x.t = "array" /\ x.c = <<>> /\ Selector(Text(PValue(SV(x))), 1).st # "ok"
IsPattern(x) == x.t \in {"dq", "sq", "regexp"} /\ (x.t # "regexp" => x.c = <<>>)
Two(P(_), Q(_)) == Len(st) > 1 /\ P(st[Len(st) - 1]) /\ Q(Top)
L0 == st[Len(st) - 1]
NewExpression ==
  /\ Step("expression") /\ Plainly /\ Len(st) > 0
  /\ \/ IsRvalue(Top) /\ Push(1, Expr("rv", Top))
     \/ Top.t = "selector" /\ Push(1, Expr("nsel", Top))
     \/ Two(IsRvalue, IsRvalue) /\ \E k \in Pick({"in", "notin"}) : Push(2, Expr(k, Top) @@ [l |-> L0])
     \/ Two(IsRvalue, IsRvalue) /\ \E o \in Pick(CmpOps) : Push(2, Expr("cmp", Top) @@ [l |-> L0, o |-> o])
     \/ Two(IsRvalue, IsPattern) /\ \E o \in Pick({"=~", "!~"}) : Push(2, Expr("re", Top) @@ [l |-> L0, o |-> o])
     \/ Top.t = "cond" /\ \E k \in Pick({"par", "npar"}) :
          Push(1, [t |-> "expr", op |-> "", k |-> k, cond |-> Top])

IsExpr(x) == x.t = "expr"
\* operators for all expressions but the first
RECURSIVE Operated(_, _, _)
Operated(es, first, op) ==
  IF es = <<>> THEN <<>>
  ELSE IF IsNil(es[1]) THEN <<Nil>> \o Operated(Tail(es), first, op)
  ELSE <<IF first THEN es[1] ELSE [es[1] EXCEPT !.op = op]>> \o Operated(Tail(es), FALSE, op)
NewCondition == /\ Step("condition") /\ Plainly
                /\ \E n \in Pick(Counts(IsExpr)), op \in Pick(BoolOps) :
                     /\ Real(Args(n)) # <<>>
                     /\ Push(n, [t |-> "cond", es |-> Operated(Args(n), TRUE, op)])

\* blocks: a condition, then the nodes of the block
Blocks == {n \in Counts(IsBop) : Len(st) > n /\ st[Len(st) - n].t = "cond"}
Follows(n) == Len(st) > n /\ st[Len(st) - n].t \in {"if", "elif"}
NewBlock == /\ Step("block") /\ Plainly
            /\ \E n \in Pick(Blocks), k \in Pick({"if", "elif"}) :
                 (k = "elif" => Follows(n + 1)) /\ Push(n + 1, [t |-> k, cond |-> st[Len(st) - n], b |-> Args(n), c |-> <<>>, fc |-> <<>>])
NoElse0 == [t |-> "else", b |-> <<>>, c |-> <<>>, fc |-> <<>>]
\* an else block of nothing but absent nodes is left out: it may or may not be printed
NewElse == /\ Step("else") /\ Plainly
           /\ \E n \in Pick(Counts(IsBop)) :
                Opening(n) /\ Follows(n) /\ (n > 0 => Real(Args(n)) # <<>>)
                /\ Push(n, [t |-> "else", b |-> Args(n), c |-> <<>>, fc |-> <<>>])
\* a branch: if, else-ifs and perhaps an else
Heads == {m \in 0..MaxArgs :
           \E e \in {0, 1} : /\ Len(st) > m + e /\ st[Len(st) - m - e].t = "if"
                             /\ (e = 1 => Top.t = "else")
                             /\ \A k \in (Len(st) - m - e + 1)..(Len(st) - e) : st[k].t = "elif"}
NewBranch == /\ Step("branch") /\ Plainly /\ Len(st) > 0
             /\ \E m \in Pick(Heads) :
                  LET e == IF Top.t = "else" THEN 1 ELSE 0
                      a == Args(m + e + 1)
                  IN Push(m + e + 1, [t |-> "branch", if |-> a[1], ei |-> SubSeq(a, 2, m + 1),
                                      el |-> IF e = 1 THEN Top ELSE NoElse0])
NewSection == /\ Step("section") /\ Plainly
              /\ \E n \in Pick(Counts(IsBop)), pt \in Pick(Types) :
                   Opening(n) /\ (Each => n > 0) /\ Push(n, [t |-> "section", pt |-> pt, b |-> Args(n), c |-> <<>>, fc |-> <<>>])
IsSection(x) == x.t = "section"
NewConfig == /\ Step("config") /\ Plainly
             /\ \E n \in Pick({n \in Counts(IsSection) : n = Len(st) /\ n > 0 /\ NoNil(n)}) :
                  LET a == Args(n)
                  IN Push(n, [t |-> "config", input |-> Of(a, "input"), filter |-> Of(a, "filter"),
                              output |-> Of(a, "output"), fc |-> <<>>])

\* comments: before a node, or at its end
Before == IsAttr(Top) \/ Top.t \in {"entry", "plugin", "if", "elif", "else", "section"}
AtEnd  == Top.t \in {"array", "hash", "plugin", "if", "elif", "else", "section", "config"}
AddComment ==
  /\ Step("comment") /\ Len(st) > 0 /\ cmts < MaxComments /\ cmts' = cmts + 1 /\ UNCHANGED nils
  /\ \E x \in Pick(CommentTexts), s \in Pick(Spacing) :
       LET c == [x |-> x, b |-> s.b, a |-> s.a]
       IN \/ Before /\ st' = [st EXCEPT ![Len(st)].c = Append(@, c)]
          \/ AtEnd  /\ st' = [st EXCEPT ![Len(st)].fc = Append(@, c)]

Init == st = <<>> /\ steps = 0 /\ cmts = 0 /\ nils = 0
Next == TakeReady \/ NewLiteral \/ NewOperand \/ Absent \/ NewArray \/ NewEntry \/ NewHash \/ NewPlugin \/ NewPluginAttribute
        \/ NewExpression \/ NewCondition \/ NewBlock \/ NewElse \/ NewBranch \/ NewSection \/ NewConfig \/ AddComment
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A node in the smallest configuration that holds it. *)

RECURSIVE Wrap(_)
Wrap(x) ==
  CASE x.t = "config"  -> x
    [] x.t = "section" -> ConfigOf(x)
    [] IsBop(x)        -> Wrap(SectionOf(<<x>>))
    [] IsAttr(x)       -> Wrap(Plug(<<x>>))
    [] x.t = "entry"   -> Wrap([t |-> "hash", n |-> N1, es |-> <<x>>, c |-> <<>>, fc |-> <<>>])
    [] x.t \in {"selector", "regexp"} -> Wrap(Expr("rv", x))
    [] x.t = "expr"    -> Wrap(CondOf(<<x>>))
    [] x.t = "cond"    -> Wrap(BranchOf(IfOf(x, <<>>), <<>>, NoElse0))
    [] x.t = "if"      -> Wrap(BranchOf(x, <<>>, NoElse0))
    [] x.t = "elif"    -> Wrap(BranchOf(IfOf(C0, <<>>), <<x>>, NoElse0))
    [] x.t = "else"    -> Wrap(BranchOf(IfOf(C0, <<>>), <<>>, x))

\* What the node itself prints (<<>>: only asked for within its configuration).
Own(x) ==
  CASE IsAttr(x) -> Cat(Line(x.n \o <<SP>> \o KArrow \o <<SP>>), PValue(SV(x)))
    [] x.t \in {"selector", "regexp"} -> PValue(SV(x))
    [] x.t = "entry" -> PEntry([k |-> SV(x.k), v |-> SV(x.v), c |-> x.c])
    [] IsBop(x) -> PBop(SBop(x))
    [] x.t = "expr" -> PExpr(SExpr(x))
    [] x.t = "cond" -> PCond(SCond(x.es))
    [] OTHER -> <<>>

\* The nodes looked at: in an exhaustive search those that are alone (each node is, in some
\* behaviour), on a random path all but literals.
Complete == IF Each THEN st # <<>> /\ Top.t \notin Scalar \cup {"nil", "selector", "regexp"}
            ELSE Len(st) = 1 /\ ~IsNil(Top)

\* Reading the standardized text of what was built gives it again.
NoMark(x) == SelectSeq(x, LAMBDA c : c >= 0)
Same == Complete =>
  LET c == SConfig(Wrap(Top))
      r == Parse(NoMark(Format(c)))
  IN /\ r.st = "ok"
     /\ View(r.v, TRUE, TRUE) = View(c, TRUE, TRUE)
     \* ... and it is already laid out (blank lines around comments are standardized when read)
     /\ (View(c, FALSE, TRUE) = View(c, TRUE, TRUE) => NoMark(Format(r.v)) = NoMark(Format(c)))

Printed == (Complete /\ Emit) =>
  PrintT(<<"BUILD", ToJson([n |-> Top, own |-> Own(Top), w |-> Wrap(Top), conf |-> SConfig(Wrap(Top)), text |-> Format(SConfig(Wrap(Top)))])>>)
=============================================================================
