---------------------------- MODULE MustacheTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of mustache commands.  A record holds the real *)
(* texts of the files before and after each command, what it printed and    *)
(* its exit status; what it had to do is computed from the texts with the   *)
(* specification of the language (LSParse, LSPrint, LSIds), one file of the *)
(* command after the other as in the machine of Mustache.                   *)
(*                                                                         *)
(* A file of the record:  [k |-> "missing" | "dir" | "text", t |-> number   *)
(* of its text, r, w |-> it can be read, written].  A name may be a link to   *)
(* the file of another name (link).                                         *)
(***************************************************************************)
EXTENDS LSIds, LSPrint, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.IN)
T == Data.texts

RECURSIVE PosFrom(_, _, _, _, _, _)
PosFrom(s, k, i, l, c, o) == IF k >= i \/ k > Len(s) THEN <<l, c, o>>
                             ELSE IF s[k] = NL THEN PosFrom(s, k + 1, i, l + 1, 1, o + 1)
                             ELSE PosFrom(s, k + 1, i, l, c + 1, o + Width(s[k]))
Pos(s, i) == PosFrom(s, 1, i, 1, 1, 0)

List(s, ps) == [k \in 1..Len(ps) |-> [p |-> Pos(s, ps[k].p), n |-> ps[k].n]]

Info(s) ==
  LET r == Parse(s)
  IN IF r.st # "ok" THEN [ok |-> FALSE, m |-> IF r.st = "die" THEN r.m ELSE ""]
     ELSE LET ps == Plugins(r.v)
          IN [ok |-> TRUE, v |-> r.v, fmt |-> Format(r.v), w |-> [k \in 1..Len(r.w) |-> Pos(s, r.w[k])[3]],
              noid |-> List(s, NoId(ps)), odd |-> List(s, Odd(ps)), lacks |-> Lacks(ps) # <<>>,
              dup |-> List(s, Repeats(ps)), ids |-> [k \in 1..Len(ps) |-> IdOf(ps[k])]]

I == [k \in 1..Len(T) |-> Info(T[k])]

\* Text s is the layout f, however its numbers are spelled.
NumChars == Digits \cup {DASH, DOT, 43, 69, 101}
RECURSIVE Match(_, _, _, _)
Match(f, i, s, j) ==
  IF i > Len(f) THEN j > Len(s)
  ELSE IF f[i] = NumOpen
  THEN LET e == SpanEnd(s, j, NumChars) IN e > j /\ Match(f, FindIn(f, i, {NumClose}) + 1, s, e)
  ELSE j <= Len(s) /\ f[i] = s[j] /\ Match(f, i + 1, s, j + 1)
IsLayout(f, s) == Match(f, 1, s, 1)

-----------------------------------------------------------------------------
Conf(c) == c.k = "text" /\ c.r /\ I[c.t].ok
Bad(c)  == c.k = "missing" \/ (c.k = "text" /\ ~Conf(c))
Rewrites(cmd, c) == Conf(c) /\ (cmd = "write" \/ (cmd = "fix" /\ I[c.t].lacks))

\* Reports of lint on a file.
Lint(c, f, fix) ==
  LET x == I[c.t]
      no == IF fix THEN x.odd ELSE x.noid
  IN [k \in 1..Len(x.w) |-> [f |-> "", kind |-> "warn", at |-> <<>>, o |-> x.w[k]]]
     \o (IF no # <<>> THEN <<[f |-> f, kind |-> "noid", at |-> no, o |-> 0]>> ELSE <<>>)
     \o (IF x.dup # <<>> THEN <<[f |-> f, kind |-> "dup", at |-> x.dup, o |-> 0]>> ELSE <<>>)

Failed(f) == [f |-> f, kind |-> "fail", at |-> <<>>, o |-> 0]

\* State of a command: the files, its reports, whether it goes on, the text on
\* its output, and which contents the failures are about.
RECURSIVE Go(_, _, _)
Go(step, k, st) ==
  IF k > Len(step.args) \/ st.stop THEN st ELSE
  LET a == step.args[k]
      c == st.fs[a.n]
      bad == Bad(c)
      rw == ~bad /\ Rewrites(step.cmd, c)
      nowrite == rw /\ ~c.w
      rep == IF bad THEN <<Failed(a.s)>>
             ELSE (IF step.cmd \in {"lint", "fix"} /\ Conf(c) THEN Lint(c, a.s, step.cmd = "fix") ELSE <<>>)
                  \o (IF nowrite THEN <<Failed(a.s)>> ELSE <<>>)
      new == step.after[a.n]
      \* only the contents of a file that is to be rewritten are taken from the record
      done == rw /\ c.w
      okNew == IF ~done THEN TRUE
               ELSE new.k = "text" /\
                    IF step.cmd = "write" THEN IsLayout(I[c.t].fmt, T[new.t])
                    ELSE I[new.t].ok /\ Fixed(I[c.t].v, I[new.t].v) /\ Numbers(I[c.t].v) = Numbers(I[new.t].v)
                         /\ IsLayout(I[new.t].fmt, T[new.t])
  IN Go(step, k + 1,
        [link |-> st.link,
         fs |-> IF done /\ new.k = "text"
                THEN [m \in DOMAIN st.fs |-> IF st.link[m] = st.link[a.n] THEN [st.fs[m] EXCEPT !.t = new.t] ELSE st.fs[m]]
                ELSE st.fs,
         reps |-> st.reps \o rep,
         stop |-> (bad \/ nowrite) /\ step.cmd \in {"format", "write"},
         out |-> IF step.cmd = "format" /\ Conf(c) THEN st.out \o I[c.t].fmt ELSE st.out,
         why |-> IF bad \/ nowrite THEN Append(st.why, c) ELSE st.why,
         good |-> st.good /\ okNew])

Run(step, fs, link) == Go(step, 1, [link |-> link, fs |-> fs, reps |-> <<>>, stop |-> FALSE, out |-> <<>>, why |-> <<>>, good |-> TRUE])

Fails(es) == SelectSeq(es, LAMBDA e : e.kind \notin {"warn", "noid", "dup"})
Says(es)  == SelectSeq(es, LAMBDA e : e.kind \in {"warn", "noid", "dup"})
Core(es)  == [k \in 1..Len(es) |-> [f |-> es[k].f, kind |-> es[k].kind, at |-> es[k].at, o |-> es[k].o]]

Closers == {MCurly, MBrack, MParen, MDq, MSq, MSlash}
Named(m, ms) == m \notin Closers \/ \E k \in 1..Len(ms) : ms[k] = m

Same(a, b) == a.k = b.k /\ (a.k = "text" => a.t = b.t)

\* The properties a step breaks, each with what is wrong.
Judge(step, fs, link) ==
  LET x == Run(step, fs, link)
      es == Core(step.reps)
      rf == Fails(step.reps)
      exitOk == (step.exit = 0) = (x.reps = <<>>)
      kept == \A n \in DOMAIN fs : Same(x.fs[n], step.after[n])
      C15 == IF step.cmd # "lint" THEN <<>> ELSE
             (IF Says(es) # Says(x.reps) THEN <<"reports on ids differ">> ELSE <<>>)
             \o (IF ~exitOk THEN <<"exit status">> ELSE <<>>)
             \o (IF ~kept THEN <<"a file was changed">> ELSE <<>>)
      C16 == IF step.cmd # "fix" THEN <<>> ELSE
             (IF Says(es) # Says(x.reps) THEN <<"reports on ids differ">> ELSE <<>>)
             \o (IF ~kept THEN <<"a file that needs no fix was changed">> ELSE <<>>)
             \o (IF ~x.good THEN <<"a file is not the old one with ids">> ELSE <<>>)
      C17 == (IF Fails(es) # Fails(x.reps) THEN <<"failures reported differ">> ELSE <<>>)
             \o (IF ~exitOk THEN <<"exit status">> ELSE <<>>)
             \o (IF step.cmd = "format" /\ ~IsLayout(x.out, step.out) THEN <<"output is not the formatted text">> ELSE <<>>)
             \o (IF Len(rf) = Len(x.why) /\ \E k \in 1..Len(rf) : x.why[k].k = "text" /\ x.why[k].r /\ ~I[x.why[k].t].ok
                                               /\ ~Named(I[x.why[k].t].m, rf[k].m)
                 THEN <<"missing closer not named">> ELSE <<>>)
      C18 == (IF ~kept \/ step.others THEN <<"a file was changed">> ELSE <<>>)
             \o (IF ~x.good THEN <<"a file does not hold what it should">> ELSE <<>>)
      ok == Len(rf) = Len(x.why)
  IN [broken |-> [C15 |-> C15, C16 |-> C16, C17 |-> C17, C18 |-> C18],
      exp |-> x.reps,
      \* what was said about which contents, compared over all histories
      why |-> IF ok THEN [k \in 1..Len(rf) |-> [c |-> x.why[k], r |-> rf[k].r]] ELSE <<>>]

RECURSIVE Steps(_, _, _, _)
Steps(ss, k, fs, link) == IF k > Len(ss) THEN <<>>
                          ELSE <<Judge(ss[k], fs, link)>> \o Steps(ss, k + 1, ss[k].after, link)

\* The machine's view of a file.
Kind(c) == IF c.k # "text" THEN c.k ELSE IF I[c.t].ok THEN "conf" ELSE "bad"
Agree(tr) == \A n \in DOMAIN tr.start :
               LET c == tr.start[n]
                   a == tr.model[n]
               IN a.k = "any" \/
                  (/\ a.k = Kind(c)
                   /\ a.k = "conf" => /\ a.warn = (I[c.t].w # <<>>)
                                      /\ a.std = IsLayout(I[c.t].fmt, T[c.t])
                                      /\ Len(a.ids) = Len(I[c.t].ids)
                                      /\ \A k \in 1..Len(a.ids) :
                                           CASE a.ids[k] = "no"  -> I[c.t].ids[k].st = "none"
                                             [] a.ids[k] = "odd" -> I[c.t].ids[k].st = "odd"
                                             [] OTHER -> /\ I[c.t].ids[k].st = "str"
                                                         /\ \A m \in 1..k : (a.ids[k] = a.ids[m]) = (I[c.t].ids[k] = I[c.t].ids[m]))

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Data.traces) |->
   [agree |-> Agree(Data.traces[k]), steps |-> Steps(Data.traces[k].steps, 1, Data.traces[k].start, Data.traces[k].link)]])
=============================================================================
