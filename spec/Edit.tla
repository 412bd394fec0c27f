-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* Editing a configuration that was read: a machine whose state is the      *)
(* configuration, and whose steps are what a program does with it: walks     *)
(* over the plugins of a section that delete, replace and insert plugins     *)
(* and change attributes, values and comments of plugins on the way, and     *)
(* changes of sections, branches and conditions.                            *)
(*                                                                         *)
(* The texts, and the pieces that are inserted (texts as well, read by the   *)
(* specification itself), are in the file named by the environment variable *)
(* IN: [texts, nodes, attrs, conds, values, keys, comments].                *)
(***************************************************************************)
EXTENDS LSMeaning, LSPrint, LSLimits, TLC, Json, IOUtils

CONSTANTS MaxEdits,          \* closed steps of a behaviour
          PerWalk,           \* edits in one walk
          Few,               \* TRUE: the first piece of each kind only
          Choose(_), Emit

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

Given == JsonDeserialize(IOEnv.IN)

KIn0  == KFilter \o <<LBRC>>
KPlug == KIn0 \o <<112, 112, LBRC>>                \* filter{pp{
KAa   == KPlug \o <<97, 97, 61, 62>>               \* filter{pp{aa=>
One(s) == Parse(s).v.filter[1].b[1]

Docs   == [k \in 1..Len(Given.texts)  |-> Parse(Given.texts[k])]
Nodes  == [k \in 1..Len(Given.nodes)  |-> One(KIn0 \o Given.nodes[k] \o <<RBRC>>)]
Attrs  == [k \in 1..Len(Given.attrs)  |-> One(KPlug \o Given.attrs[k] \o <<RBRC, RBRC>>).as[1]]
Conds  == [k \in 1..Len(Given.conds)  |-> One(KIn0 \o KIf \o <<SP>> \o Given.conds[k] \o <<LBRC, RBRC, RBRC>>).if.cond]
Values == [k \in 1..Len(Given.values) |-> One(KAa \o Given.values[k] \o <<RBRC, RBRC>>).as[1].v]
Keys   == [k \in 1..Len(Given.keys)   |->
             One(KAa \o <<LBRC>> \o Given.keys[k] \o <<61, 62, 49, RBRC, RBRC, RBRC>>).as[1].v.es[1].k]
Comment(k) == [x |-> Given.comments[k], b |-> FALSE, a |-> FALSE]

Good == {k \in 1..Len(Docs) : Docs[k].st = "ok" /\ (Docs[k].v.input \o Docs[k].v.filter \o Docs[k].v.output) # <<>>
                              /\ ~Inexpressible(Docs[k].v)}

-----------------------------------------------------------------------------
(* Places. *)

\* The lists of a branch: 0 the if block, then the else-if blocks, then else.
Part(x, j) == IF j = 0 THEN x.if.b ELSE IF j <= Len(x.ei) THEN x.ei[j].b ELSE x.el.b
WithPart(x, j, l) == IF j = 0 THEN [x EXCEPT !.if.b = l]
                     ELSE IF j <= Len(x.ei) THEN [x EXCEPT !.ei[j].b = l]
                     ELSE [x EXCEPT !.el.b = l]
\* The block itself (its comments).
Block1(x, j) == IF j = 0 THEN x.if ELSE IF j <= Len(x.ei) THEN x.ei[j] ELSE x.el

\* The paths of the plugins of a list in the order of a walk, and of its branches.
\* (Without functions of functions, which TLC evaluates again at each use.)
RECURSIVE Paths(_, _, _), PathsIn(_, _, _, _)
Below(i, j, ps) == [k \in 1..Len(ps) |-> <<i, j>> \o ps[k]]
Paths(l, i, kind) ==
  IF i > Len(l) THEN <<>>
  ELSE (IF l[i].t = kind THEN << <<i>> >> ELSE <<>>)
       \o (IF l[i].t = "branch" THEN PathsIn(l[i], i, 0, kind) ELSE <<>>)
       \o Paths(l, i + 1, kind)
PathsIn(x, i, j, kind) ==
  IF j > Len(x.ei) + 1 THEN <<>>
  ELSE Below(i, j, Paths(Part(x, j), 1, kind)) \o PathsIn(x, i, j + 1, kind)
PluginPaths(l) == Paths(l, 1, "plugin")
BranchPaths(l) == Paths(l, 1, "branch")

RECURSIVE At1(_, _)
At1(l, p) == IF Len(p) = 1 THEN l[p[1]] ELSE At1(Part(l[p[1]], p[2]), SubSeq(p, 3, Len(p)))

Without(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
NewBlock(b)   == [b |-> b, fc |-> <<>>, c |-> <<>>, p |-> 0]

\* A change of a condition c, a sequence of expressions joined by operators.
Joins == <<"and", "or", "xor", "nand">>
CondEdit(c, e) ==
  CASE e.op = "cond" -> Conds[e.a]
    [] e.op = "join" -> c \o [Conds[e.a] EXCEPT ![1].op = Joins[e.i]]
    [] e.op = "bool" -> [c EXCEPT ![e.i].op = Joins[e.a]]
    [] e.op = "cut"  -> SubSeq(c, 1, Len(c) - 1)
    [] e.op = "lead" -> [Tail(c) EXCEPT ![1].op = ""]

\* An edit e of the plugin or branch x.
NodeEdit(x, e) ==
  CASE e.op = "attr"     -> [x EXCEPT !.as = Append(@, Attrs[e.a])]
    [] e.op = "first"    -> [x EXCEPT !.as = <<Attrs[e.a]>> \o @]
    [] e.op = "setattr"  -> [x EXCEPT !.as[e.i] = Attrs[e.a]]
    [] e.op = "dropattr" -> [x EXCEPT !.as = Without(@, e.i)]
    [] e.op = "elem"     -> [x EXCEPT !.as[e.i].v.vs = Append(@, [v |-> Values[e.a], c |-> <<>>])]
    [] e.op = "unelem"   -> [x EXCEPT !.as[e.i].v.vs = Tail(@)]
    [] e.op = "entry"    -> [x EXCEPT !.as[e.i].v.es = Append(@, [k |-> Keys[e.j], v |-> Values[e.a], p |-> 0, c |-> <<>>])]
    [] e.op = "unentry"  -> [x EXCEPT !.as[e.i].v.es = Tail(@)]
    [] e.op = "note"     -> [x EXCEPT !.c = Append(@, Comment(e.a))]
    [] e.op = "foot"     -> [x EXCEPT !.fc = Append(@, Comment(e.a))]
    [] e.op \in {"cond", "join", "bool", "cut", "lead"} ->
         IF e.j = 0 THEN [x EXCEPT !.if.cond = CondEdit(@, e)] ELSE [x EXCEPT !.ei[e.j].cond = CondEdit(@, e)]
    [] e.op = "else"     -> [x EXCEPT !.el = NewBlock(<<Nodes[e.a]>>)]
    [] e.op = "noelse"   -> [x EXCEPT !.el = NoElse]
    [] e.op = "elseif"   -> [x EXCEPT !.ei = Append(@, [cond |-> Conds[e.j], b |-> <<Nodes[e.a]>>, fc |-> <<>>, c |-> <<>>, p |-> 0])]
    [] e.op = "noelseif" -> [x EXCEPT !.ei = Without(@, e.j)]
    [] e.op = "into"     -> WithPart(x, e.j, Append(Part(x, e.j), Nodes[e.a]))
    [] e.op = "bnote"    -> IF e.j = 0 THEN [x EXCEPT !.if.c = Append(@, Comment(e.a))]
                            ELSE IF e.j <= Len(x.ei) THEN [x EXCEPT !.ei[e.j].c = Append(@, Comment(e.a))]
                            ELSE [x EXCEPT !.el.c = Append(@, Comment(e.a))]
    [] e.op = "bfoot"    -> IF e.j = 0 THEN [x EXCEPT !.if.fc = Append(@, Comment(e.a))]
                            ELSE IF e.j <= Len(x.ei) THEN [x EXCEPT !.ei[e.j].fc = Append(@, Comment(e.a))]
                            ELSE [x EXCEPT !.el.fc = Append(@, Comment(e.a))]

ListEdit(l, i, e) ==
  CASE e.op = "del"    -> Without(l, i)
    [] e.op = "rep"    -> [l EXCEPT ![i] = Nodes[e.a]]
    [] e.op = "before" -> SubSeq(l, 1, i - 1) \o <<Nodes[e.a]>> \o SubSeq(l, i, Len(l))
    [] e.op = "after"  -> SubSeq(l, 1, i) \o <<Nodes[e.a]>> \o SubSeq(l, i + 1, Len(l))
    [] OTHER -> [l EXCEPT ![i] = NodeEdit(@, e)]

RECURSIVE Change(_, _, _)
Change(l, p, e) ==
  IF Len(p) = 1 THEN ListEdit(l, p[1], e)
  ELSE [l EXCEPT ![p[1]] = WithPart(@, p[2], Change(Part(@, p[2]), SubSeq(p, 3, Len(p)), e))]

\* The edits es of one walk, e.v is the number of the plugin in the walk.  They
\* are made from the last to the first, so that all the paths stay right.
RECURSIVE Walk(_, _, _)
Walk(l, ps, es) == IF es = <<>> THEN l
                   ELSE Walk(Change(l, ps[es[Len(es)].v], es[Len(es)]), ps, SubSeq(es, 1, Len(es) - 1))

-----------------------------------------------------------------------------
VARIABLES t,        \* the text
          conf,     \* the configuration
          log,      \* the steps so far
          walk      \* the open walk: [pt, k, es] or none (k = 0)

vars == <<t, conf, log, walk>>
Types == {"input", "filter", "output"}
Closed == [pt |-> "filter", k |-> 0, es |-> <<>>]

Upto(n) == IF Few THEN 1..(IF n > 1 THEN 1 ELSE n) ELSE 1..n
Ed(op) == [op |-> op, v |-> 0, a |-> 0, i |-> 0, j |-> 0]

\* The edits of a plugin x.
PluginEdits(x, op) ==
  LET Of(S) == {[Ed(op) EXCEPT !.a = a] : a \in S}
      ix(T) == {i \in 1..Len(x.as) : x.as[i].v.t = T}
  IN CASE op = "del" -> {Ed(op)}
       [] op \in {"rep", "before", "after"} -> Of(Upto(Len(Nodes)))
       [] op \in {"attr", "first"} -> Of(Upto(Len(Attrs)))
       [] op = "setattr"  -> {[Ed(op) EXCEPT !.a = a, !.i = i] : a \in Upto(Len(Attrs)), i \in 1..Len(x.as)}
       [] op = "dropattr" -> {[Ed(op) EXCEPT !.i = i] : i \in 1..Len(x.as)}
       [] op = "elem"     -> {[Ed(op) EXCEPT !.a = a, !.i = i] : a \in Upto(Len(Values)), i \in ix("array")}
       [] op = "unelem"   -> {[Ed(op) EXCEPT !.i = i] : i \in {i \in ix("array") : x.as[i].v.vs # <<>>}}
       [] op = "entry"    -> {[Ed(op) EXCEPT !.a = a, !.j = j, !.i = i] :
                                a \in Upto(Len(Values)), j \in Upto(Len(Keys)), i \in ix("hash")}
       [] op = "unentry"  -> {[Ed(op) EXCEPT !.i = i] : i \in {i \in ix("hash") : x.as[i].v.es # <<>>}}
       [] op \in {"note", "foot"} -> Of(Upto(Len(Given.comments)))
PluginOps == {"del", "rep", "before", "after", "attr", "first", "setattr", "dropattr", "elem", "unelem", "entry", "unentry", "note", "foot"}

\* The edits of a branch x.
BranchEdits(x, op) ==
  LET n == Len(x.ei)
      els == IF HasElse(x.el) THEN 1 ELSE 0
      On(J, A) == {[Ed(op) EXCEPT !.j = j, !.a = a] : j \in J, a \in A}
      long(j) == Len(IF j = 0 THEN x.if.cond ELSE x.ei[j].cond)
      Long    == {j \in 0..n : long(j) > 1}
  IN CASE op = "cond"     -> On(0..n, Upto(Len(Conds)))
       [] op = "join"     -> UNION {{[e EXCEPT !.i = i] : i \in Upto(4)} : e \in On(0..n, Upto(Len(Conds)))}
       [] op = "bool"     -> UNION {{[Ed(op) EXCEPT !.j = j, !.i = i, !.a = a] : i \in 2..long(j), a \in Upto(4)} : j \in Long}
       [] op \in {"cut", "lead"} -> On(Long, {0})
       [] op = "else"     -> On({0}, Upto(Len(Nodes)))
       [] op = "noelse"   -> On({0}, {0})
       [] op = "elseif"   -> On(Upto(Len(Conds)), Upto(Len(Nodes)))
       [] op = "noelseif" -> On(1..n, {0})
       [] op = "into"     -> On(0..(n + els), Upto(Len(Nodes)))
       [] op \in {"bnote", "bfoot"} -> On(0..(n + els), Upto(Len(Given.comments)))
BranchOps == {"cond", "join", "bool", "cut", "lead", "else", "noelse", "elseif", "noelseif", "into", "bnote", "bfoot"}

Step(s) == log' = Append(log, s)

Init == /\ t \in Good
        /\ conf = Docs[t].v
        /\ log = <<>> /\ walk = Closed

Open == /\ walk.k = 0 /\ Len(log) < MaxEdits
        /\ \E pt \in Choose({pt \in Types : \E k \in 1..Len(conf[pt]) : PluginPaths(conf[pt][k].b) # <<>>}) :
             \E k \in Choose({k \in 1..Len(conf[pt]) : PluginPaths(conf[pt][k].b) # <<>>}) :
               walk' = [pt |-> pt, k |-> k, es |-> <<>>]
        /\ UNCHANGED <<t, conf, log>>

Visit == /\ walk.k > 0 /\ Len(walk.es) < PerWalk
         /\ LET l  == conf[walk.pt][walk.k].b
                ps == PluginPaths(l)
                v0 == IF walk.es = <<>> THEN 0 ELSE walk.es[Len(walk.es)].v
            IN \E v \in Choose((v0 + 1)..Len(ps)) :
                 \E op \in Choose({op \in PluginOps : PluginEdits(At1(l, ps[v]), op) # {}}) :
                   \E e \in Choose(PluginEdits(At1(l, ps[v]), op)) :
                     walk' = [walk EXCEPT !.es = Append(@, [e EXCEPT !.v = v])]
         /\ UNCHANGED <<t, conf, log>>

Close == /\ walk.es # <<>>
         /\ conf' = [conf EXCEPT ![walk.pt][walk.k].b = Walk(@, PluginPaths(@), walk.es)]
         /\ Step([op |-> "walk", pt |-> walk.pt, k |-> walk.k, es |-> walk.es])
         /\ walk' = Closed
         /\ UNCHANGED t

Branches == /\ walk.k = 0 /\ Len(log) < MaxEdits
            /\ \E pt \in Choose({pt \in Types : \E k \in 1..Len(conf[pt]) : BranchPaths(conf[pt][k].b) # <<>>}) :
                 \E k \in Choose({k \in 1..Len(conf[pt]) : BranchPaths(conf[pt][k].b) # <<>>}) :
                   LET l  == conf[pt][k].b
                       ps == BranchPaths(l)
                   IN \E m \in Choose(1..Len(ps)) : \E op \in Choose({op \in BranchOps : BranchEdits(At1(l, ps[m]), op) # {}}) :
                        \E e \in Choose(BranchEdits(At1(l, ps[m]), op)) :
                          /\ conf' = [conf EXCEPT ![pt][k].b = Change(l, ps[m], e)]
                          /\ Step([op |-> "branch", pt |-> pt, k |-> k, path |-> ps[m], e |-> e])
            /\ UNCHANGED <<t, walk>>

Sections1 ==
  /\ walk.k = 0 /\ Len(log) < MaxEdits
  /\ \E pt \in Choose(Types) : \E op \in Choose({"add", "remove", "append", "snote", "sfoot"}) :
       IF op = "add"
       THEN \E a \in Choose(Upto(Len(Nodes))) :
              /\ conf' = [conf EXCEPT ![pt] = Append(@, [pt |-> pt, b |-> <<Nodes[a]>>, fc |-> <<>>, c |-> <<>>, p |-> 0])]
              /\ Step([op |-> op, pt |-> pt, k |-> 0, a |-> a])
       ELSE \E k \in Choose(1..Len(conf[pt])) :
              IF op = "remove"
              THEN /\ Len(conf.input) + Len(conf.filter) + Len(conf.output) > 1
                   /\ conf' = [conf EXCEPT ![pt] = Without(@, k)]
                   /\ Step([op |-> op, pt |-> pt, k |-> k, a |-> 0])
              ELSE IF op = "append"
              THEN \E a \in Choose(Upto(Len(Nodes))) :
                     /\ conf' = [conf EXCEPT ![pt][k].b = Append(@, Nodes[a])]
                     /\ Step([op |-> op, pt |-> pt, k |-> k, a |-> a])
              ELSE \E a \in Choose(Upto(Len(Given.comments))) :
                     /\ conf' = IF op = "snote" THEN [conf EXCEPT ![pt][k].c = Append(@, Comment(a))]
                                ELSE [conf EXCEPT ![pt][k].fc = Append(@, Comment(a))]
                     /\ Step([op |-> op, pt |-> pt, k |-> k, a |-> a])
  /\ UNCHANGED <<t, walk>>

Next == Open \/ Visit \/ Close \/ Branches \/ Sections1
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == Emit /\ walk.k = 0 /\ Len(log) = MaxEdits

\* An edited configuration is written as one that reads as itself.
Written == SelectSeq(Format(conf), LAMBDA c : c # NumOpen /\ c # NumClose)
Reread == Done => LET r == Parse(Written)
                  IN r.st = "ok" /\ CommentsAt(r.v) = CommentsAt(conf)

\* A step of a walk changes the number of the plugins as its edits say, and
\* nothing in other sections.
Size(l) == Len(PluginPaths(l))
Grow(e) == CASE e.op = "del" -> -1
             [] e.op = "rep" -> Size(<<Nodes[e.a]>>) - 1
             [] e.op \in {"before", "after"} -> Size(<<Nodes[e.a]>>)
             [] OTHER -> 0
Counted == [][walk.es # <<>> /\ walk'.k = 0 =>
                LET d == [m \in 1..Len(walk.es) |-> Grow(walk.es[m])]
                IN /\ Size(conf'[walk.pt][walk.k].b) = Size(conf[walk.pt][walk.k].b) + FoldLeft(LAMBDA x, y : x + y, 0, d)
                   /\ \A pt \in Types : \A k \in 1..Len(conf[pt]) :
                        pt # walk.pt \/ k # walk.k => conf'[pt][k] = conf[pt][k]]_vars

Printed == Done => PrintT(<<"EDIT", ToJson([text |-> Given.texts[t], log |-> log, fmt |-> Format(conf), conf |-> conf])>>)
=============================================================================
