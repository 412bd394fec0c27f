------------------------------ MODULE Outcomes ------------------------------
(***************************************************************************)
(* Judges recorded parses: how they ended, what happened to the result, and *)
(* the work (expressions of the grammar that were tried).                   *)
(*                                                                         *)
(* runs:  [n, st, use, work]: length, end ("value", "error"; anything else  *)
(*        is a crash), use of the value ("done", "none"), work              *)
(* pumps: [want, got, work]: prescribed and real outcome of the family for  *)
(*        0, 1 and 2 repetitions, work for 10, 20, 40, 80 and 160           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC, IOUtils

Recorded == JsonDeserialize(IOEnv.IN)

\* A parse is a step from the text to a value, that can be printed and walked,
\* or to an error.
Ends(r) == \/ r.st = "value" /\ r.use = "done"
           \/ r.st = "error" /\ r.use = "none"

\* Work at most quadratic, with room to spare.
PerChar == 600
Work(r) == r.work \div (r.n + 20) <= PerChar * ((r.n + 20) \div 20)

\* Doubling the length adds at most eight times (a cubic law) what the doubling
\* before added, with room for lower terms.
Grows(w) == \A k \in 3..Len(w) : w[k] - w[k-1] <= 9 * (w[k-1] - w[k-2]) + 5000

Run(r)  == IF ~Ends(r) THEN "end" ELSE IF ~Work(r) THEN "work" ELSE "ok"
Pump(p) == IF p.got # p.want THEN "outcome" ELSE IF ~Grows(p.work) THEN "growth" ELSE "ok"

BadRuns  == SelectSeq([k \in 1..Len(Recorded.runs) |-> <<k, Run(Recorded.runs[k])>>], LAMBDA x : x[2] # "ok")
BadPumps == SelectSeq([k \in 1..Len(Recorded.pumps) |-> <<k, Pump(Recorded.pumps[k])>>], LAMBDA x : x[2] # "ok")

ASSUME JsonSerialize(IOEnv.OUT, [runs |-> BadRuns, pumps |-> BadPumps])
=============================================================================
