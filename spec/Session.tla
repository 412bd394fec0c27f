------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Histories of parses, one after the other or at the same time, and the    *)
(* report GetFarthestFailure gives.                                         *)
(*                                                                         *)
(* A call parses text t (a number) with a list of options o.  It goes on    *)
(* one segment at a time; in each it may publish its own farthest failure,  *)
(* in the first one it always does (at the start: nothing failed).          *)
(***************************************************************************)
EXTENDS LSOptions, FiniteSets, TLC, Json

CONSTANTS Texts,        \* number of texts
          Options,      \* lists of options a call may have
          Segs,         \* segments of a call
          MaxCalls, MaxOpen,
          Choose(_), Emit

Names == {"ignore", "keep", "warn", "nowarn", "utf8", "noutf8", "low", "max", "norecover", "recover", "memo", "nomemo",
          "stats", "debug", "store", "entry", "reader", "file"}
OptionsNone  == {<<>>}
OptionsSmall == {<<>>, <<"warn">>}
OptionsAll   == {<<>>} \cup {<<a>> : a \in Names} \cup (Names \X Names) \cup (Names \X Names \X Names)
OptionsPlain == {<<>>, <<"warn">>, <<"ignore">>, <<"utf8">>, <<"ignore", "warn">>}

VARIABLES calls,        \* the calls so far: [t, o, at: segments done, res]
          shown,        \* who published the report: [c |-> call, s |-> segment], c = 0 for none
          alone,        \* calls that never ran beside another one
          log

vars == <<calls, shown, alone, log>>

PickAll(S) == S
PickOne(S) == {RandomElement(S)}

Open == {c \in 1..Len(calls) : calls[c].at < Segs}
\* The result of a parse is a function of its text and its options.
Result(t, o) == <<t, Effect(o)>>

Init == calls = <<>> /\ shown = [c |-> 0, s |-> 0] /\ alone = {} /\ log = <<>>

Start == /\ Len(calls) < MaxCalls /\ Cardinality(Open) < MaxOpen
         /\ \E t \in Choose(1..Texts) : \E o \in Choose(Options) :
              /\ calls' = Append(calls, [t |-> t, o |-> o, at |-> 1, res |-> IF Segs = 1 THEN Result(t, o) ELSE <<>>])
              /\ shown' = [c |-> Len(calls) + 1, s |-> 1]
              /\ alone' = IF Open = {} THEN alone \cup {Len(calls) + 1} ELSE alone \ Open
              /\ log' = Append(log, [c |-> Len(calls) + 1, t |-> t, o |-> o, e |-> Effect(o), s |-> 1])

Run(c) == /\ c \in Open
          /\ LET k == calls[c].at + 1
             IN /\ calls' = [calls EXCEPT ![c].at = k,
                                          ![c].res = IF k = Segs THEN Result(calls[c].t, calls[c].o) ELSE <<>>]
                /\ log' = Append(log, [c |-> c, t |-> calls[c].t, o |-> calls[c].o, e |-> Effect(calls[c].o), s |-> k])
                /\ \/ shown' = [c |-> c, s |-> k]
                   \/ ~Emit /\ shown' = shown
          /\ UNCHANGED alone

Next == Start \/ \E c \in Choose(Open) : Run(c)
NextOne == IF Open = {} THEN Start ELSE Start \/ \E c \in {RandomElement(Open)} : Run(c)
Spec == Init /\ [][Next]_vars
SpecOne == Init /\ [][NextOne]_vars

-----------------------------------------------------------------------------
\* Equal calls have equal results, whatever else happens.
Function == \A a, b \in 1..Len(calls) :
   a \notin Open /\ b \notin Open /\ calls[a].t = calls[b].t /\ Effect(calls[a].o) = Effect(calls[b].o)
      => calls[a].res = calls[b].res

\* The report is of one single call, of a moment that has been.
OneParse == shown.c # 0 => shown.c <= Len(calls) /\ shown.s <= calls[shown.c].at

\* Without calls at the same time it is the report of the latest one.
Latest == calls # <<>> /\ Len(calls) \in alone => shown.c = Len(calls)

Done == Len(calls) = MaxCalls /\ Open = {}
Printed == (Emit /\ Done) => PrintT(<<"SESS", ToJson(log)>>)
=============================================================================
