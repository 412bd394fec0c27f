------------------------------ MODULE Mustache ------------------------------
(***************************************************************************)
(* The commands of mustache over a file system: a history of commands, each *)
(* given a list of files.                                                   *)
(*                                                                         *)
(* What is in a file:                                                       *)
(*   k    "missing", "dir", "bad" (not valid) or "conf"                     *)
(*   r, w it can be read, written                                           *)
(*   ids  conf: the ids of its plugins, in order: "no" (has none), "odd"    *)
(*        (not a string), or a name                                         *)
(*   std  conf: it is in standardized layout                                *)
(*   warn conf: it holds a comment in an exceptional place                  *)
(*                                                                         *)
(* Several names may be links to one file (link maps each name to the name  *)
(* of its file): what is done by one of them is seen by all.                *)
(*                                                                         *)
(* A command goes through its files one after the other (one transition     *)
(* each): a report may be made, the file may be replaced.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,        \* file names
          Cmds,         \* commands, of "check", "lint", "fix", "format", "write"
          MaxIds,       \* plugins of a file
          MaxArgs, MaxCmds,
          Fault,        \* files that cannot be read or written occur
          Pick(_), FileSystems, Links, Emit

VARIABLES fs, start,    \* file system, and at the start
          link,         \* name of the file a name stands for
          hist,         \* finished commands
          run,          \* the running command, or None
          fresh         \* number of new ids

vars == <<fs, start, link, hist, run, fresh>>

PickAll(S) == S
PickOne(S) == {RandomElement(S)}

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }

Plain(k) == [k |-> k, r |-> TRUE, w |-> TRUE, ids |-> <<>>, std |-> FALSE, warn |-> FALSE]
Confs == { [k |-> "conf", r |-> TRUE, w |-> TRUE, ids |-> i, std |-> s, warn |-> x] :
             i \in Seqs({"no", "odd", "a", "b"}, MaxIds), s \in BOOLEAN, x \in BOOLEAN }
Locked == IF ~Fault THEN {}
          ELSE { [Plain("conf") EXCEPT !.r = r, !.w = FALSE, !.ids = i] : r \in BOOLEAN, i \in {<<>>, <<"no">>} }
               \cup { [Plain("bad") EXCEPT !.r = FALSE] }
Contents == { Plain("missing"), Plain("dir"), Plain("bad") } \cup Locked
            \cup { c \in Confs : ~(c.std /\ c.warn) }

None == [cmd |-> "none"]

Fails(c) == c.k = "missing" \/ (c.k # "dir" /\ (~c.r \/ c.k = "bad"))
Repeated(ids) == {k \in 1..Len(ids) : ids[k] \notin {"no", "odd"} /\ \E m \in 1..(k - 1) : ids[m] = ids[k]}
Lacking(ids)  == {k \in 1..Len(ids) : ids[k] = "no"}
NotStr(ids)   == {k \in 1..Len(ids) : ids[k] = "odd"}

\* Reports of a file: "fail", or what lint has to say.
LintSays(c, fix) == IF c.k # "conf" THEN {}
                    ELSE (IF c.warn THEN {"warn"} ELSE {})
                         \cup (IF NotStr(c.ids) \cup (IF fix THEN {} ELSE Lacking(c.ids)) # {} THEN {"noid"} ELSE {})
                         \cup (IF Repeated(c.ids) # {} THEN {"dup"} ELSE {})
Replaces(cmd, c) == c.k = "conf" /\ c.r /\ (cmd = "write" \/ (cmd = "fix" /\ Lacking(c.ids) # {}))

Says(cmd, c) ==
  IF Fails(c) THEN {"fail"}
  ELSE (IF cmd \in {"lint", "fix"} THEN LintSays(c, cmd = "fix") ELSE {})
       \cup (IF Replaces(cmd, c) /\ ~c.w THEN {"fail"} ELSE {})

Formatted(c) == [c EXCEPT !.std = TRUE, !.warn = FALSE]
\* New ids are numbers: no name of the start is one.
After(cmd, c) ==
  IF ~Replaces(cmd, c) \/ ~c.w THEN c
  ELSE IF cmd = "write" THEN Formatted(c)
  ELSE Formatted([c EXCEPT !.ids = [k \in 1..Len(@) |-> IF @[k] = "no" THEN ToString(fresh + k) ELSE @[k]]])

-----------------------------------------------------------------------------
AllFS == [Names -> Contents]
OneFS == {[n \in Names |-> RandomElement(Contents)]}

NoFS == [n \in Names |-> Plain("missing")]
Own == [n \in Names |-> n]
LinkMaps == { l \in [Names -> Names] : \A n \in Names : l[l[n]] = l[n] }
NoLinks == {Own}
AllLinks == LinkMaps
OneLinks == {IF RandomElement(1..3) = 1 THEN RandomElement(LinkMaps) ELSE Own}

Init == fs = NoFS /\ start = <<>> /\ link = Own /\ hist = <<>> /\ run = None /\ fresh = 0

Setup == /\ start = <<>>
         /\ \E f \in FileSystems : \E l \in Links :
              /\ link' = l
              /\ fs' = [n \in Names |-> f[l[n]]]
              /\ start' = fs'
         /\ UNCHANGED <<hist, run, fresh>>

Begin == /\ run = None /\ start # <<>> /\ Len(hist) < MaxCmds
         /\ \E c \in Pick(Cmds) : \E a \in Pick(Seqs(Names, MaxArgs)) :
              run' = [cmd |-> c, args |-> a, at |-> 1, says |-> <<>>, done |-> FALSE, before |-> fs]
         /\ UNCHANGED <<fs, start, link, hist, fresh>>

Step == /\ run # None /\ ~run.done /\ run.at <= Len(run.args)
        /\ LET n == run.args[run.at]
               s == Says(run.cmd, fs[n])
           IN /\ fs' = [m \in Names |-> IF link[m] = link[n] THEN After(run.cmd, fs[n]) ELSE fs[m]]
              /\ fresh' = IF run.cmd = "fix" THEN fresh + MaxIds ELSE fresh
              /\ run' = [run EXCEPT !.at = @ + 1, !.says = Append(@, s),
                                    !.done = "fail" \in s /\ run.cmd \in {"format", "write"}]
        /\ UNCHANGED <<start, link, hist>>

Exit == IF \E k \in 1..Len(run.says) : run.says[k] # {} THEN 1 ELSE 0

End == /\ run # None /\ (run.done \/ run.at > Len(run.args))
       /\ hist' = Append(hist, [cmd |-> run.cmd, args |-> run.args, exit |-> Exit, says |-> run.says,
                                before |-> run.before, after |-> fs])
       /\ run' = None
       /\ UNCHANGED <<fs, start, link, fresh>>

Next == Setup \/ Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Elems(s) == {s[k] : k \in 1..Len(s)}
IsNew(id) == id \notin {"no", "odd", "a", "b"}

\* C18: what may change.
Changed(h) == {n \in Names : h.before[n] # h.after[n]}
OnlyTold == \A k \in 1..Len(hist) : LET h == hist[k] IN
   /\ h.cmd \in {"check", "lint", "format"} => Changed(h) = {}
   /\ \A n \in Changed(h) : (\E a \in Elems(h.args) : link[a] = link[n]) /\ h.before[n].k = "conf" /\ h.before[n].r
   /\ h.cmd = "fix" => \A n \in Changed(h) : Lacking(h.before[n].ids) # {}
   /\ h.cmd = "write" => \A n \in Names : h.after[n].ids = h.before[n].ids

\* C17: the exit status tells the truth; all files are examined, for format up
\* to the first failing one.
Truth == \A k \in 1..Len(hist) : LET h == hist[k] IN
   /\ (h.exit = 0) = (\A j \in 1..Len(h.says) : h.says[j] = {})
   /\ h.cmd \in {"check", "lint", "fix"} => Len(h.says) = Len(h.args)
   /\ h.cmd = "check" => (h.exit = 0) = (\A n \in Elems(h.args) : ~Fails(h.before[n]))

\* C16: after a fix no id is missing, new ids are unique, old ones are kept, a
\* second fix changes nothing.
FixWorks == \A k \in 1..Len(hist) : LET h == hist[k] IN
   h.cmd = "fix" => \A n \in Elems(h.args) : LET c == h.after[n] IN
     /\ c.k = "conf" /\ c.r /\ c.w => Lacking(c.ids) = {}
     /\ Len(c.ids) = Len(h.before[n].ids)
     /\ \A j \in 1..Len(c.ids) : IF h.before[n].ids[j] # "no" \/ ~c.w \/ ~c.r THEN c.ids[j] = h.before[n].ids[j]
                                 ELSE \A m \in 1..Len(c.ids) : m # j => c.ids[m] # c.ids[j]
FixStays == \A k \in 1..(Len(hist) - 1) :
   hist[k].cmd = "fix" /\ hist[k + 1].cmd = "fix" =>
      \A n \in Elems(hist[k].args) : hist[k + 1].after[n] = hist[k].after[n]

\* A fixed or formatted file needs no further formatting.
Stable == \A k \in 1..(Len(hist) - 1) :
   hist[k].cmd = "write" /\ hist[k + 1].cmd = "write" /\ hist[k].exit = 0 =>
      \A n \in Elems(hist[k].args) : hist[k + 1].after[n] = hist[k].after[n]

Printed == (Emit /\ Len(hist) = MaxCmds) =>
   PrintT(<<"HIST", ToJson([start |-> start, link |-> link,
      steps |-> [k \in 1..Len(hist) |-> [cmd |-> hist[k].cmd, args |-> hist[k].args, exit |-> hist[k].exit,
                 says |-> hist[k].says, after |-> hist[k].after]]])>>)
=============================================================================
