---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of parses.  Results and reports are numbers    *)
(* (equal numbers for equal ones).  Data.solo tells for each kind of call   *)
(* (text and options) what happens when it runs alone in a process of its   *)
(* own: its result, and the report after each segment.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.IN)
Solo == Data.solo

\* The reports that may be shown after segment s of a call of kind k, if those
\* in P may be shown before.
After(k, s, P) ==
  IF s = 1 THEN {Solo[k].rep[1]}
  ELSE IF Solo[k].rep[s] # Solo[k].rep[s - 1] THEN {Solo[k].rep[s]}
  ELSE P \cup {Solo[k].rep[s]}       \* it may or may not have been published again

RECURSIVE Judge(_, _, _)
Judge(es, n, P) ==
  IF n > Len(es) THEN <<>> ELSE
  LET e == es[n]
      Q == After(e.k, e.s, P)
      bad == (IF e.res # 0 /\ e.res # Solo[e.k].res THEN <<[n |-> n, what |-> "result"]>> ELSE <<>>)
             \o (IF e.rep \notin Q THEN <<[n |-> n, what |-> "report"]>> ELSE <<>>)
  IN bad \o (IF bad = <<>> THEN Judge(es, n + 1, Q) ELSE <<>>)

\* A round of parses that ran at the same time without control: each result is
\* the one alone, the report in the end is the last one of one of them.
Round(r) ==
  LET bad == SelectSeq(r.calls, LAMBDA c : c.res # Solo[c.k].res)
      last == {Solo[r.calls[n].k].rep[Len(Solo[r.calls[n].k].rep)] : n \in 1..Len(r.calls)}
  IN IF bad # <<>> THEN <<[n |-> bad[1].k, what |-> "result"]>>
     ELSE IF r.rep \notin last THEN <<[n |-> 0, what |-> "report"]>> ELSE <<>>

ASSUME ndJsonSerialize(IOEnv.OUT,
   [k \in 1..Len(Data.runs) |-> Judge(Data.runs[k], 1, {0})] \o [k \in 1..Len(Data.rounds) |-> Round(Data.rounds[k])])
=============================================================================
