------------------------------- MODULE PluginId -------------------------------
(***************************************************************************)
(* The id of a plugin: a plugin is built attribute by attribute (some may be *)
(* absent); after each step Plugin.ID has one prescribed answer.             *)
(***************************************************************************)
EXTENDS LSIds, LSPrint, TLC, Json

CONSTANTS MaxAttrs, AttrNames, Values, Choose(_), Emit

PickAll(S) == S
PickOne(S) == {RandomElement(S)}

Id == <<105, 100>>
NamesAll == IdNames \cup { <<73, 100>>, <<73, 68>>, Id \o <<120>>, <<105>>, <<DQ, 105, 100, SP, DQ>>, <<DQ, SQ, 105, 100, SQ, DQ>>,
                           <<DQ, DQ>>, <<SQ, 73, 68, SQ>>, <<DQ, SP, 105, 100, DQ>>, Id \o <<USC>>, <<USC>> \o Id, <<95, 105, 100>>,
                           <<97, 100, 100, USC>> \o Id }
NamesFew == IdNames \cup { <<73, 100>>, Id \o <<120>> }

V(t, x) == [t |-> t, x |-> x]
Attr(n, v) == [n |-> n, v |-> v, c |-> <<>>]
ValuesFew == { V("dq", <<>>), V("bare", <<97, 98>>), V("number", <<49>>),
               [t |-> "plugin", n |-> <<112>>, c |-> <<>>, fc |-> <<>>, as |-> << Attr(Id, V("dq", <<99>>)) >>] }
ValuesAll == ValuesFew \cup { V("dq", <<97, SP, DQ + 1>>), V("sq", <<97, 98>>), V("sq", <<DQ>>), V("dq", <<BSL, DQ>>), V("dq", <<233, 128512>>),
               V("sq", <<SP>>), V("dq", <<NL, 97>>), V("dq", <<36, 123, 97, 125>>), V("dq", <<37, 115>>), V("number", <<DASH, 49, DOT, 53>>),
               [t |-> "array", fc |-> <<>>, vs |-> <<>>],
               [t |-> "array", fc |-> <<>>, vs |-> << [v |-> V("dq", <<97>>), c |-> <<>>] >>],
               [t |-> "hash", fc |-> <<>>, es |-> <<>>],
               [t |-> "hash", fc |-> <<>>, es |-> << [k |-> V("dq", Id), v |-> V("dq", <<97>>), c |-> <<>>] >>],
               [t |-> "plugin", n |-> Id, c |-> <<>>, fc |-> <<>>, as |-> <<>>] }

VARIABLE as      \* the attributes, absent ones have no name
Absent == [n |-> <<>>]
Init == as = <<>>
Next == /\ Len(as) < MaxAttrs
        /\ \/ as' = Append(as, Absent)
           \/ \E n \in Choose(AttrNames) : \E v \in Choose(Values) : as' = Append(as, Attr(n, v))
Spec == Init /\ [][Next]_as

Given == SelectSeq(as, LAMBDA a : a # Absent)
Plugin1 == [t |-> "plugin", n |-> <<112>>, c |-> <<>>, fc |-> <<>>, as |-> Given]
Answer == IdOf(Plugin1)

-----------------------------------------------------------------------------
\* The id is the value of the first attribute so named, and only its.
First == IF \A k \in 1..Len(as) : as[k].n \notin IdNames THEN Answer.st = "none"
         ELSE \E k \in 1..Len(as) :
                /\ as[k].n \in IdNames /\ \A m \in 1..(k - 1) : as[m].n \notin IdNames
                /\ IF as[k].v.t \in {"dq", "sq", "bare"} THEN Answer = [st |-> "str", x |-> as[k].v.x] ELSE Answer.st = "odd"
\* Other attributes, before or after, do not matter.
Others == \A k \in 1..Len(as) : as[k].n \notin IdNames =>
             IdOf([Plugin1 EXCEPT !.as = SelectSeq(SubSeq(as, 1, k - 1) \o SubSeq(as, k + 1, Len(as)), LAMBDA a : a # Absent)]) = Answer
\* Printing and reading does not change it.
Reread == Emit => LET r == Parse(KInput \o <<LBRC>> \o Text(PPlugin([Plugin1 EXCEPT !.as =
                                   [k \in 1..Len(@) |-> IF @[k].v.t = "number" THEN [@[k] EXCEPT !.v = V("bare", <<97, 98>>)] ELSE @[k]]])) \o <<RBRC>>)
                      ns == {k \in 1..Len(Given) : Given[k].v.t = "number"}
                  IN ns = {} => r.st = "ok" /\ IdOf(r.v.input[1].b[1]) = Answer

Printed == Emit => PrintT(<<"ID", ToJson([as |-> as, id |-> Answer])>>)
=============================================================================
