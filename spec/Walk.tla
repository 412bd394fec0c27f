-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* The walk over the plugins of a tree with a cursor that edits it          *)
(* (astutil.ApplyPlugins).  First a tree is written, then the walk visits   *)
(* the plugins that were in the tree at its start, in the order of the      *)
(* document; at each visit any sequence of edits may happen.                *)
(*                                                                         *)
(* A tree is a sequence of items                                            *)
(*   [t |-> "p", id]           a plugin                                     *)
(*   [t |-> "n", id]           an absent (nil) plugin                       *)
(*   [t |-> "b", id, ls]       a branch: ls[1] the if block, ls[Len(ls)]    *)
(*                             the else block, else-if blocks between them  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems,      \* items of the tree at the start
          MaxDepth, MaxElse,
          MaxEdits,      \* edits of a walk
          Pick(_), Emit

VARIABLES phase,         \* "build", "walk", "done"
          stack,         \* build: the lists that are open: <<list>> or <<list, blocks, ...>>
          tree, init,    \* walk: the tree, and the tree at the start
          todo,          \* ids still to visit
          cur,           \* item of the current visit (id 0: none)
          gone,          \* the current item was deleted
          edits, next,   \* number of edits, next id
          log

vars == <<phase, stack, tree, init, todo, cur, gone, edits, next, log>>

PickAll(S) == S
PickOne(S) == {RandomElement(S)}

None == [t |-> "none", id |-> 0]
P(i) == [t |-> "p", id |-> i]
N(i) == [t |-> "n", id |-> i]
B(i, ls) == [t |-> "b", id |-> i, ls |-> ls]

-----------------------------------------------------------------------------
RECURSIVE Order(_), OrderAll(_)
\* Items that a walk visits, in the order of the document.
Order(list) == IF list = <<>> THEN <<>>
               ELSE (IF list[1].t = "b" THEN OrderAll(list[1].ls) ELSE <<list[1]>>) \o Order(Tail(list))
OrderAll(ls) == IF ls = <<>> THEN <<>> ELSE Order(ls[1]) \o OrderAll(Tail(ls))

RECURSIVE Subst(_, _, _), SubstAll(_, _, _)
\* The tree with the item id replaced by the items new.
Subst(list, id, new) ==
  IF list = <<>> THEN <<>>
  ELSE (IF list[1].id = id THEN new
        ELSE IF list[1].t = "b" THEN <<[list[1] EXCEPT !.ls = SubstAll(@, id, new)]>>
        ELSE <<list[1]>>) \o Subst(Tail(list), id, new)
SubstAll(ls, id, new) == [k \in 1..Len(ls) |-> Subst(ls[k], id, new)]

RECURSIVE ListOf(_, _)
\* The list that holds the item id, as a set of zero or one lists.
ListOf(list, id) ==
  IF \E k \in 1..Len(list) : list[k].id = id THEN {list}
  ELSE UNION { UNION { ListOf(list[k].ls[m], id) : m \in 1..Len(list[k].ls) }
               : k \in {n \in 1..Len(list) : list[n].t = "b"} }

Ids(list) == [k \in 1..Len(list) |-> list[k].id]
\* What the cursor must say: the list and the index (from 0) of the item.
Place(tr, id) == LET l == CHOOSE x \in ListOf(tr, id) : TRUE
                     k == CHOOSE n \in 1..Len(l) : l[n].id = id
                 IN [list |-> Ids(l), index |-> k - 1]

-----------------------------------------------------------------------------
(* Writing the tree. *)

TopF == stack[Len(stack)]
Frame(i) == [id |-> i, ls |-> <<>>, list |-> <<>>]
Add(st, item) == [st EXCEPT ![Len(st)].list = Append(@, item)]

AddPlugin == /\ phase = "build" /\ next <= MaxItems
             /\ \E item \in {P(next), N(next)} : stack' = Add(stack, item)
             /\ next' = next + 1
             /\ UNCHANGED <<phase, tree, init, todo, cur, gone, edits, log>>

OpenBranch == /\ phase = "build" /\ next <= MaxItems /\ Len(stack) < MaxDepth
              /\ stack' = Append(stack, Frame(next))
              /\ next' = next + 1
              /\ UNCHANGED <<phase, tree, init, todo, cur, gone, edits, log>>

NextBlock == /\ phase = "build" /\ Len(stack) > 1 /\ Len(TopF.ls) <= MaxElse
             /\ stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.ls = Append(@, TopF.list), !.list = <<>>]]
             /\ UNCHANGED <<phase, tree, init, todo, cur, gone, edits, next, log>>

CloseBranch == /\ phase = "build" /\ Len(stack) > 1 /\ Len(TopF.ls) > 0
               /\ stack' = Add(SubSeq(stack, 1, Len(stack) - 1), B(TopF.id, Append(TopF.ls, TopF.list)))
               /\ UNCHANGED <<phase, tree, init, todo, cur, gone, edits, next, log>>

Start == /\ phase = "build" /\ Len(stack) = 1
         /\ phase' = "walk"
         /\ tree' = stack[1].list /\ init' = tree'
         /\ todo' = Order(tree')
         /\ UNCHANGED <<stack, cur, gone, edits, next, log>>

-----------------------------------------------------------------------------
(* The walk. *)

Visit == /\ phase = "walk" /\ todo # <<>>
         /\ cur' = todo[1] /\ todo' = Tail(todo) /\ gone' = FALSE
         /\ log' = Append(log, [e |-> "visit", item |-> todo[1], new |-> None, at |-> Place(tree, todo[1].id)])
         /\ UNCHANGED <<phase, stack, tree, init, edits, next>>

Editing == phase = "walk" /\ cur.id # 0 /\ ~gone /\ edits < MaxEdits
Edited(kind, items, c, new) ==
  /\ tree' = Subst(tree, cur.id, items)
  /\ cur' = c
  /\ edits' = edits + 1
  /\ log' = Append(log, [e |-> kind, item |-> c, new |-> new,
                         at |-> IF c.id = 0 THEN [list |-> Ids(Subst(CHOOSE x \in ListOf(tree, cur.id) : TRUE, cur.id, <<>>)),
                                                  index |-> -1]
                                ELSE Place(tree', c.id)])
  /\ UNCHANGED <<phase, stack, init, todo>>

\* new items are plugins, or branches with a plugin in them
News == {P(next), B(next, <<<<P(next + 1)>>, <<>>>>)}

Delete == Editing /\ Edited("delete", <<>>, None, None) /\ gone' = TRUE /\ UNCHANGED next
Edit(new) ==
  /\ Editing /\ next' = next + 2 /\ UNCHANGED gone
  /\ \/ Edited("replace", <<new>>, new, new)
     \/ Edited("before", <<new, cur>>, cur, new)
     \/ Edited("after", <<cur, new>>, cur, new)

Stop == /\ phase = "walk" /\ todo = <<>>
        /\ phase' = "done"
        /\ UNCHANGED <<stack, tree, init, todo, cur, gone, edits, next, log>>

Init == /\ phase = "build" /\ stack = <<Frame(0)>> /\ tree = <<>> /\ init = <<>> /\ todo = <<>>
        /\ cur = None /\ gone = FALSE /\ edits = 0 /\ next = 1 /\ log = <<>>
Next == AddPlugin \/ OpenBranch \/ NextBlock \/ CloseBranch \/ Start \/ Visit \/ Delete \/ Stop
        \/ \E new \in Pick(News) : Edit(new)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Visited == SelectSeq(log, LAMBDA r : r.e = "visit")

\* Each plugin of the tree at the start is visited once, in order, nothing else.
Once == phase # "build" => [k \in 1..Len(Visited) |-> Visited[k].item] \o todo = Order(init)

\* What has not been visited yet is still in the tree, in this order.
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] = b[1] THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
Untouched == phase # "build" => IsSub(todo, Order(tree))

\* Without edits the tree is unchanged.
NoEdit == phase # "build" /\ edits = 0 => tree = init

\* No item is in the tree twice.
RECURSIVE Everything(_)
Flatten(ls) == LET F[k \in 0..Len(ls)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o ls[k] IN F[Len(ls)]
Everything(list) == IF list = <<>> THEN <<>>
                    ELSE <<list[1].id>> \o (IF list[1].t = "b" THEN Everything(Flatten(list[1].ls)) ELSE <<>>)
                         \o Everything(Tail(list))
Distinct == LET s == Everything(tree) IN Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)

Printed == (phase = "done" /\ Emit) => PrintT(<<"WALK", ToJson([init |-> init, log |-> log, final |-> tree])>>)
=============================================================================
