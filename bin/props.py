"""The checks, one for each property."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import genconf, vlib
from vlib import Work, Result, QUICK, SEED, CPUS

# ---------------------------------------------------------------------------
# C01..C08: texts.
#
# 1. LSGen: behaviours of the writer, exhaustively within bounds and at random;
#    TLC checks its invariants, each complete document is replayed on the real
#    code, which must give the tree, positions, comments, warnings and layout.
# 2. Eval: texts of other origin (other generators, corruptions, truncations);
#    the specification says what must come out, the real code is compared.
# 3. RoundTrip: the texts the real code printed go back to the specification.

# thousands of characters of text by kind, for each property
KINDS = {
    "C01": "seeds:1,cut:1,tokens:230,alltokens:60,edits:230,random:150,mutate:150,valid:60,trunc:40,bytes:30,literals:30,deep:1,long:40",
    "C02": "seeds:1,valid:350,random:100,tokens:120,alltokens:40,edits:60,literals:60,deep:1,long:40",
    "C03": "seeds:1,valid:300,comments:200,random:80,tokens:60,edits:60,literals:20,deep:1,long:40",
    "C04": "seeds:1,cut:1,trunc:350,mutate:200,edits:200,tokens:120,random:60",
    "C05": "seeds:1,valid:250,random:80,comments:60,edits:30,literals:120,deep:1,long:20",
    "C06": "seeds:1,valid:250,comments:150,random:80,edits:30,literals:80,deep:1,long:20",
    "C07": "seeds:1,comments:350,valid:60,edits:40,long:20",
    "C08": "seeds:1,comments:350,valid:100,tokens:100,edits:60,long:20",
}
FOCUS = {
    "C01": "sections attributes values arrays hashes literals conditions expressions operands branches",
    "C02": "sections attributes values arrays hashes literals conditions expressions operands branches",
    "C03": "sections attributes values arrays hashes literals conditions expressions operands branches",
    "C04": "",
    "C05": "values literals expressions operands branches attributes",
    "C06": "sections attributes values arrays hashes literals expressions operands branches",
    "C07": "sections attributes arrays hashes branches",
    "C08": "sections attributes arrays hashes conditions branches",
}
ROUND = {"C05", "C07"}
PRINTED = {"C05", "C06", "C07"}
EXPLAINED = "seeds:1,trunc:70,mutate:30,edits:60,tokens:30,alltokens:10,random:10,comments:10,bytes:10"


def scale(kinds, f):
    return ",".join("%s:%d" % (n, int(int(k) * 1000 * f)) for n, k in (x.split(":") for x in kinds.split(",")))


def raw_docs(log, tag="DOC"):
    """The JSON texts of the printed documents, each once."""
    head, out = '<<"%s", "' % tag, {}
    for line in log.splitlines():
        if line.startswith(head) and line.endswith('">>'):
            out[json.loads('"' + line[len(head):-3] + '"')] = None
    return list(out)


class Texts:
    def __init__(self, prop):
        self.prop = prop
        self.w = Work(prop)
        self.res = Result(prop, "model_checking")
        self.h = vlib.build(self.w.path("h"))
        self.tot, self.found, self.samples = {}, [], []
        self.states = self.transitions = self.replayed = 0
        self.n = 0

    def report(self, path):
        r = json.load(open(path))
        for n in ("evaluations", "accepted", "rejected", "died", "commented", "warned", "inexpressible"):
            self.tot[n] = self.tot.get(n, 0) + r[n]
        self.samples += r["samples"] or []
        if self.prop in r["violations"]:
            self.found.append(r["violations"][self.prop])
        return r

    def compare(self, answers, texts=None, jobs=None):
        """Compares the real code with answers of the specification (parallel over files)."""
        def one(a):
            out, pairs = a + ".report", os.path.join(os.path.dirname(a), "pairs_" + os.path.basename(a))
            args = ["cmp", "-answers", a, "-out", out]
            if texts:
                args += ["-in", a.replace("out_", "in_")]
            if self.prop not in PRINTED:
                args += ["-print=false"]
            if self.prop in ROUND:
                args += ["-pairs", pairs]
            vlib.harness(self.h, *args)
            if self.prop in ROUND and os.path.exists(pairs):
                ans = pairs + ".ans"
                rc, log = vlib.tlc("RoundTrip", workdir=self.w.dir, env={"IN": pairs, "OUT": ans})
                if rc != 0 or not os.path.exists(ans):
                    raise vlib.CheckError("TLC failed on RoundTrip (%d):\n%s" % (rc, log[-3000:]))
                vlib.harness(self.h, "judge", "-in", pairs, "-answers", ans, "-out", out + ".judged")
            return out
        with ThreadPoolExecutor(jobs or CPUS) as ex:
            for out in ex.map(one, answers):
                self.report(out)
                if os.path.exists(out + ".judged"):
                    j = json.load(open(out + ".judged"))
                    self.tot["round_trips"] = self.tot.get("round_trips", 0) + j["evaluations"]
                    if self.prop in j["violations"]:
                        self.found.append(j["violations"][self.prop])

    def writer(self, jobs):
        """jobs: (name, parameters, simulate args or None)."""
        d = self.w.sub("gen%d" % self.n)
        self.n += 1

        def one(job):
            name, par, sim = job
            args = ["-deadlock"] + (sim or [])
            log = vlib.tlc_ok("LSGen", genconf.cfg(par), workdir=self.w.dir, args=args, stack="200m",
                              workers=1 if sim else 2 if QUICK else 4, heap="3g")
            docs = raw_docs(log)
            f = os.path.join(d, "out_%s.json" % name)
            parts = max(1, len(docs) // 4000)
            fs = []
            for k in range(parts):
                g = f if parts == 1 else f + ".%d" % k
                with open(g, "w") as h:
                    h.write("\n".join(docs[k::parts]) + "\n")
                fs.append(g)
            return fs, len(docs), vlib.tlc_states(log)
        with ThreadPoolExecutor(CPUS if QUICK else 3) as ex:
            files = []
            for fs, n, (gen, dist) in ex.map(one, jobs):
                files += fs
                self.states += dist
                self.transitions += gen
                self.replayed += n
        self.compare(files)

    def recorded(self, seed, f):
        d = self.w.sub("texts%d" % self.n)
        self.n += 1
        vlib.harness(self.h, "gen", "-dir", d, "-seed", str(seed), "-shards", str(CPUS), "-kinds", scale(KINDS[self.prop], f))
        self.compare(vlib.tlc_files("Eval", d, self.w.dir), texts=True)

    def explained(self, seed, f):
        """Texts whose failure reports are prescribed by the machine LSPeg."""
        d = self.w.sub("explain%d" % self.n)
        self.n += 1
        vlib.harness(self.h, "gen", "-dir", d, "-seed", str(seed), "-shards", str(CPUS), "-kinds", scale(EXPLAINED, f))
        for a in vlib.tlc_files("Reports", d, self.w.dir):
            vlib.harness(self.h, "explain", "-in", a.replace("out_", "in_"), "-answers", a, "-out", a + ".report")
            self.tot["explained"] = self.tot.get("explained", 0) + self.report(a + ".report")["evaluations"]

    def finish(self):
        for v in self.found[:3]:
            self.res.violation("text %r: %s" % (v["text"], v["detail"]), v)
        self.res.coverage = dict(self.tot, states=self.states, transitions=self.transitions,
                                 traces_validated_against_impl=self.tot.get("evaluations", 0),
                                 writer_behaviours_replayed=self.replayed, samples=self.samples[:3])
        return self.res.finish()


def sims(num, seed):
    return [("sim%d" % k, par, ["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(seed * 100 + k)])
            for k, par in enumerate(genconf.RANDOM)]


def probe(h, res):
    for name, arg in vlib.known(res.prop):
        out = vlib.harness(h, "probe", res.prop, name, arg)
        if out.startswith("still "):
            res.known_finding("%s %s: %s" % (name, arg, out[6:].strip()))


def texts(prop):
    t = Texts(prop)
    if FOCUS[prop]:
        t.writer([(n, genconf.FULL[n][0], None) for n in FOCUS[prop].split()] + sims(150, SEED))
    t.recorded(SEED * 100, 1)
    if prop == "C04":
        t.explained(SEED * 100 + 50, 1)
    if not QUICK and not t.found:
        for n in FOCUS[prop].split():
            t.writer([(n, genconf.FULL[n][1], None)])
        for k in range(6):
            if t.found:
                break
            if FOCUS[prop]:
                t.writer(sims(1500, SEED * 50 + k + 1))
            t.recorded(SEED * 100 + k + 1, 4)
            if prop == "C04":
                t.explained(SEED * 100 + 51 + k, 8)
    probe(t.h, t.res)
    return t.finish()


CHECKS = {p: texts for p in KINDS}

TEXTS_NOTE = ("The TLA+ writer LSGen is explored by TLC, exhaustively within small bounds and at random beyond; its invariants "
              "(reader gets back what was written, layout keeps meaning and is a fixed point) are checked there, and each "
              "complete behaviour is replayed on the real code. Corrupted and otherwise generated texts are judged by the "
              "executable specification LSParse/LSPrint/LSMeaning. Bounded exploration of the code, not a proof for all "
              "texts. Trusts TLC, the projection of the real tree (go/proj.go) and the specification's reading of the grammar.")
TEXTS_TECH = "TLA+ writer/reader specification checked with TLC; behaviours replayed on the code, recorded parses checked against it"
ABOUT = {p: (TEXTS_TECH, "model_checking", TEXTS_NOTE) for p in KINDS}
ABOUT["C04"] = ("TLA+ parsing machine (grammar as data) and reader evaluated by TLC, recorded errors and failure reports checked against it",
                "model_checking", "LSPeg.tla interprets the grammar and prescribes for each text the farthest failure report, the error "
                "with its position and its expectations; TLC checks on each text that machine and reader (LSParse) accept the same "
                "language; truncations, corruptions, token sequences and noise. Bounded exploration, not a proof for all texts.")

# ---------------------------------------------------------------------------
# C13, C14: escaping and quoting.


def strings_cfg(maxlen, alphabet, pick):
    return ("SPECIFICATION Spec\nCONSTANTS\n MaxLen = %d\n Alphabet <- %s\n Pick <- %s\n Emit = TRUE\n"
            "INVARIANT Inverse NoBare EscapedIsToken QuoteEscOk QuoteAgree Printed\n" % (maxlen, alphabet, pick))


def strings(prop):
    w, res = Work(prop), Result(prop, "model_checking")
    h = vlib.build(w.path("h"))
    jobs = [("short", strings_cfg(4 if QUICK else 5, "AlphabetQuick", "PickAll"), None),
            ("all", strings_cfg(2 if QUICK else 3, "AlphabetAll", "PickAll"), None)]
    for k in range(3):
        jobs.append(("sim%d" % k, strings_cfg((8, 16, 40)[k], ("AlphabetQuick", "AlphabetAll", "AlphabetAll")[k], "PickOne"),
                     ["-simulate", "num=%d" % ((60, 20, 5)[k] * (1 if QUICK else 20)), "-depth", "300", "-seed", str(SEED * 10 + k)]))

    def one(job):
        name, cfg, sim = job
        log = vlib.tlc_ok("Strings", cfg, workdir=w.dir, args=["-deadlock"] + (sim or []), stack="100m", workers=1 if sim else 3)
        docs = raw_docs(log, "STR")
        f = w.path("str_%s.json" % name)
        open(f, "w").write("\n".join(docs) + "\n")
        vlib.harness(h, "strings", "-answers", f, "-out", f + ".report")
        return len(docs), vlib.tlc_states(log), json.load(open(f + ".report"))
    states = trans = n = ok = bad = 0
    samples = []
    with ThreadPoolExecutor(4) as ex:
        for docs, (g, d), r in ex.map(one, jobs):
            states, trans, n = states + d, trans + g, n + r["evaluations"]
            ok, bad = ok + r["accepted"], bad + r["rejected"]
            samples += r["samples"] or []
            if prop in r["violations"]:
                v = r["violations"][prop]
                res.violation("value %r: %s" % (v["text"], v["detail"]), v)
    probe(h, res)
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=n, quotable=ok, not_quotable=bad,
                        samples=samples[:3])
    return res.finish()


CHECKS.update(C13=strings, C14=strings)
STR_NOTE = ("Every value up to length 4 (5 thorough) over ten characters, up to 2 (3) over 22 characters and random longer ones: "
            "TLC checks the properties on the operators of Strings.tla, the real functions are compared with them on each value. ")
ABOUT["C13"] = ("TLA+ specification of the escaping checked with TLC, every state replayed on the code", "model_checking", STR_NOTE)
ABOUT["C14"] = ("TLA+ specification of string tokens and quoting checked with TLC, every state replayed on the code", "model_checking",
                STR_NOTE + "Values no token can represent are known findings.")

# ---------------------------------------------------------------------------
# C12: the walk over the plugins.


def walk_cfg(items, depth, els, edits, pick):
    return ("SPECIFICATION Spec\nCONSTANTS\n MaxItems = %d\n MaxDepth = %d\n MaxElse = %d\n MaxEdits = %d\n Pick <- %s\n"
            " Emit = TRUE\nINVARIANT Once Untouched NoEdit Distinct Printed\n" % (items, depth, els, edits, pick))


def walk(prop):
    w, res = Work(prop), Result(prop, "model_checking")
    h = vlib.build(w.path("h"))
    jobs = [("small", walk_cfg(3, 3, 1, 2, "PickAll"), None), ("edits", walk_cfg(2, 2, 1, 4, "PickAll"), None),
            ("trees", walk_cfg(5 if QUICK else 6, 3, 1, 0, "PickAll"), None)]
    if not QUICK:
        jobs += [("more", walk_cfg(4, 3, 1, 2, "PickAll"), None), ("moreedits", walk_cfg(3, 2, 1, 4, "PickAll"), None)]
    n = 1500 if QUICK else 40000
    for k, (items, depth, els, edits) in enumerate([(8, 4, 3, 6), (20, 5, 2, 15), (40, 6, 3, 30)]):
        jobs.append(("sim%d" % k, walk_cfg(items, depth, els, edits, "PickOne"),
                     ["-simulate", "num=%d" % (n // (1, 4, 12)[k]), "-depth", "400", "-seed", str(SEED * 10 + k)]))

    def one(job):
        name, cfg, sim = job
        log = vlib.tlc_ok("Walk", cfg, workdir=w.dir, args=["-deadlock"] + (sim or []), stack="100m", workers=1 if sim else 3)
        docs = raw_docs(log, "WALK")
        f = w.path("walk_%s.json" % name)
        open(f, "w").write("\n".join(docs) + "\n")
        vlib.harness(h, "walk", "-answers", f, "-out", f + ".report")
        return vlib.tlc_states(log), json.load(open(f + ".report"))
    states = trans = n = 0
    samples = []
    with ThreadPoolExecutor(4) as ex:
        for (g, d), r in ex.map(one, jobs):
            states, trans, n = states + d, trans + g, n + r["evaluations"]
            samples += r["samples"] or []
            if prop in r["violations"]:
                v = r["violations"][prop]
                res.violation("walk %s: %s" % (v["text"], v["detail"]), v)
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=n, samples=samples[:3])
    return res.finish()


CHECKS["C12"] = walk
ABOUT["C12"] = ("TLA+ specification of the walk and its edits checked with TLC, every behaviour replayed on ApplyPlugins", "model_checking",
                "Every tree of up to 5 items with every placement of up to 2 edits (3 items) or 4 edits (2 items), and random larger "
                "ones; at each step list, index and plugin of the cursor are compared, at the end the whole tree.")

# ---------------------------------------------------------------------------
# C19: configurations built by hand.

BUILD = dict(MaxSteps=6, MaxStack=3, MaxArgs=3, Literals="LiteralsSmall", Operands="OperandsSmall", Keys="KeysSmall", AttrNames="NamesSmall",
             PluginNames="NamesSmall", CommentTexts="CommentsSmall", Spacing="SpacingNone", MaxComments=1, MaxNils=1, BoolOps="BoolOne",
             CmpOps="CmpOne", Types="TypeOne", Calls="CallsAll", Ready="ReadyNone", Pick="PickAll", Each="FALSE", Emit="TRUE",
             INV="Same Printed")
B_LARGE = dict(Literals="LiteralsLarge", Operands="OperandsLarge", Keys="KeysLarge", AttrNames="AttrNamesLarge",
               PluginNames="PluginNamesLarge", CommentTexts="CommentsLarge", Spacing="SpacingAll", BoolOps="BoolOpsAll", CmpOps="CmpOpsAll",
               Types="TypesAll")
B_FULL = {
    "values": (dict(MaxSteps=6, Calls='{"literal", "absent", "array", "hash", "plugin", "codec", "comment"}'),
               dict(MaxSteps=7, Calls='{"literal", "absent", "array", "hash", "plugin", "codec", "comment"}')),
    "expressions": (dict(MaxSteps=6, MaxComments=0, Calls='{"literal", "operand", "absent", "array", "expression", "condition"}'),
                    dict(MaxSteps=7, MaxComments=0, Calls='{"literal", "operand", "absent", "array", "expression", "condition"}')),
    "branches": (dict(MaxSteps=8, MaxStack=4, Ready="ReadyBlocks",
                      Calls='{"ready", "absent", "block", "else", "branch", "section", "config", "comment"}'),
                 dict(MaxSteps=9, MaxStack=5, Ready="ReadyBlocks", MaxComments=2,
                      Calls='{"ready", "absent", "block", "else", "branch", "section", "config", "comment"}')),
    "sections": (dict(MaxSteps=6, MaxStack=4, Types="TypesAll", Spacing="SpacingAll", Calls='{"ready", "section", "config", "comment"}',
                      Ready="ReadyDelicate"),
                 dict(MaxSteps=7, MaxStack=4, Types="TypesAll", Spacing="SpacingAll", Calls='{"ready", "section", "config", "comment"}',
                      Ready="ReadyDelicate", MaxComments=2)),
    "literals": (dict(B_LARGE, MaxSteps=2, MaxStack=2, MaxComments=0, MaxNils=0),
                 dict(B_LARGE, MaxSteps=3, MaxStack=2, MaxComments=0, MaxNils=0, AttrNames="NamesSmall", PluginNames="NamesSmall")),
    "comments": (dict(MaxSteps=5, Calls='{"literal", "array", "hash", "plugin", "comment"}', Literals="LiteralsOne",
                      Spacing="SpacingAll", MaxComments=2, MaxNils=0),
                 dict(MaxSteps=5, Calls='{"literal", "array", "hash", "plugin", "comment"}', CommentTexts="CommentsLarge",
                      Spacing="SpacingAll", MaxComments=2, MaxNils=0)),
}
B_RANDOM = dict(BUILD, **dict(B_LARGE, MaxSteps=70, MaxStack=10, MaxArgs=4, MaxComments=14, MaxNils=5, Pick="PickOne", Each="TRUE",
                              Ready="ReadyDelicate"))
B_SIM = [dict(), dict(Calls='{"literal", "absent", "array", "hash", "plugin", "codec", "comment"}'),
         dict(Calls='{"literal", "operand", "absent", "array", "expression", "condition", "block", "branch"}'),
         dict(Calls='{"ready", "absent", "block", "else", "branch", "comment", "section", "config"}'),
         dict(Calls='{"ready", "absent", "block", "else", "branch", "comment"}', MaxStack=6)]


def built(prop):
    w, res = Work(prop), Result(prop, "model_checking")
    h = vlib.build(w.path("h"))
    jobs = [(k, dict(BUILD, **v[0 if QUICK else 1]), None) for k, v in B_FULL.items()]
    n = 150 if QUICK else 6000
    for k, par in enumerate(B_SIM):
        jobs.append(("sim%d" % k, dict(B_RANDOM, **par), ["-simulate", "num=%d" % n, "-depth", "72", "-seed", str(SEED * 10 + k)]))

    def one(job):
        name, par, sim = job
        log = vlib.tlc_ok("LSBuild", genconf.cfg(par, {}), workdir=w.dir, args=["-deadlock"] + (sim or []), stack="200m",
                          workers=1 if sim else 2 if QUICK else 4, heap="4g")
        f = w.path("build_%s.json" % name)
        with open(f, "w") as o:
            o.write("\n".join(raw_docs(log, "BUILD")) + "\n")
        vlib.harness(h, "build", "-answers", f, "-out", f + ".report")
        return vlib.tlc_states(log), json.load(open(f + ".report"))
    states = trans = n = 0
    kinds, samples = {}, []
    with ThreadPoolExecutor(6 if QUICK else 3) as ex:
        for (g, d), r in ex.map(one, jobs):
            states, trans, n = states + d, trans + g, n + r["evaluations"]
            for k, v in r["kinds"].items():
                kinds[k] = kinds.get(k, 0) + v
            samples += r["samples"] or []
            if prop in r["violations"]:
                v = r["violations"][prop]
                res.violation("built by hand: %s; text %r" % (v["detail"], v["text"]), v)
    probe(h, res)
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=n, nodes_by_kind=kinds, samples=samples[:3])
    return res.finish()


CHECKS["C19"] = built
ABOUT["C19"] = ("TLA+ stack machine of constructor calls checked with TLC, every node it builds is built and printed by the code", "model_checking",
                "Every program of 6 to 8 constructor calls in six families (values, expressions, branches, sections, literals, comments; 7 to 9 "
                "calls thorough) and random programs of up to 70 calls; the model is checked to read each text back as the same tree; the real "
                "nodes are built, printed, compared and parsed again. Arrays of one element as operands of conditions are a known finding.")

# ---------------------------------------------------------------------------
# C11: how parses end and what they cost.

PUMP = "SPECIFICATION Spec\nCONSTANTS\n MaxPump = %d\n Pick <- %s\n Emit = TRUE\nINVARIANT Total Printed\n"
ENDS = "random:40,mutate:60,tokens:30,alltokens:20,bytes:40,edits:40,trunc:40,comments:20,valid:20"


def outcomes(prop):
    w, res = Work(prop), Result(prop, "model_checking")
    h = vlib.build(w.path("h"))
    jobs = [("one", PUMP % (1, "PickAll"), None)]
    for k in range(2):
        jobs.append(("sim%d" % k, PUMP % (k + 2, "PickOne"),
                     ["-simulate", "num=%d" % (600 if QUICK else 20000), "-depth", "10", "-seed", str(SEED * 10 + k)]))
    if not QUICK:
        jobs.append(("two", PUMP % (2, "PickAll"), None))

    def spec(job):
        name, cfg, sim = job
        log = vlib.tlc_ok("Pump", cfg, workdir=w.dir, args=["-deadlock"] + (sim or []), stack="200m", workers=1 if sim else 4)
        return raw_docs(log, "PUMP"), vlib.tlc_states(log)
    states = trans = 0
    docs = {}
    with ThreadPoolExecutor(4) as ex:
        for d, (g, n) in ex.map(spec, jobs):
            docs.update(dict.fromkeys(d))
            states, trans = states + n, trans + g
    with open(w.path("pumps.json"), "w") as f:
        f.write("\n".join(docs) + "\n")

    def worker(k):
        out, cur = w.path("runs%d.json" % k), w.path("cur%d" % k)
        args = [h, "outcomes", "-part", str(k), "-parts", str(CPUS), "-seed", str(SEED), "-pumps", w.path("pumps.json"),
                "-kinds", scale(ENDS, 1 if QUICK else 12) + (",seeds:1000,deep:1000" if k == 0 else ""),
                "-exhaust", "2" if QUICK else "3", "-big", "50000" if QUICK else "300000", "-cur", cur, "-out", out,
                "-limit", "120s" if QUICK else "600s"]
        r = vlib.run(args, 700 if QUICK else 7000)
        if r.returncode == 0:
            return json.load(open(out))
        b = open(cur, "rb").read()
        n = int.from_bytes(b[:8], "little")
        text = b[8:8 + min(n, 3000)]
        if not ("no end in sight" in r.stderr or "goroutine " in r.stderr or r.returncode < 0):
            raise vlib.CheckError("harness outcomes failed (%d):\n%s" % (r.returncode, r.stderr[-3000:]))
        end = "hang" if "no end in sight" in r.stderr else "crash"
        return dict(runs=[dict(n=n, st=end, use="none", work=0, what=r.stderr[:400], text=text.decode("latin1"))], pumps=[], texts=1, parses=1)
    with ThreadPoolExecutor(CPUS) as ex:
        parts = list(ex.map(worker, range(CPUS)))
    runs = [r for p in parts for r in p["runs"]]
    pumps = [r for p in parts for r in p["pumps"]]
    d = w.sub("judge")
    for k in range(CPUS):
        with open(os.path.join(d, "in_%d.json" % k), "w") as f:
            json.dump(dict(runs=[{x: r[x] for x in ("n", "st", "use", "work")} for r in runs[k::CPUS]],
                           pumps=[{x: r[x] for x in ("want", "got", "work")} for r in pumps[k::CPUS]]), f)
    why = {"end": "did not end with a usable configuration or an error", "work": "more work than a low power of the length",
           "growth": "the work grows faster than a low power of the length", "outcome": "not the prescribed outcome"}
    bad = []
    for k, a in enumerate(vlib.tlc_files("Outcomes", d, w.dir)):
        ans = json.load(open(a))
        bad += [(runs[k::CPUS][i - 1], reason) for i, reason in ans["runs"]]
        # which texts are accepted is decided by C01
        bad += [(pumps[k::CPUS][i - 1], reason) for i, reason in ans["pumps"] if reason != "outcome"]
    bad.sort(key=lambda x: len(x[0]["text"]))
    for r, reason in bad[:3]:
        res.violation("%s: %s: %s %s" % (why[reason], json.dumps(r["text"])[:600], {k: v for k, v in r.items() if k not in ("text", "what")},
                                         r.get("what", "")), r)
    probe(h, res)
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=sum(p["parses"] for p in parts),
                        evaluations=sum(p["parses"] for p in parts), texts=sum(p["texts"] for p in parts), families=len(pumps),
                        most_work_per_character=round(max([r["work"] / (r["n"] + 20) for r in runs] or [0]), 1),
                        samples=[p["text"] for p in pumps[:3]])
    return res.finish()


CHECKS["C11"] = outcomes
ABOUT["C11"] = ("TLA+ specification of text families checked with TLC; recorded outcomes and work of the real parses judged by TLC", "model_checking",
                "All texts of two bytes (three over 31 characters thorough) in seven contexts, families start pump^k finish for every pump "
                "of one piece and random ones of more (all of two pieces thorough), k up to 160, big texts to 50 KB (300 KB), corrupted "
                "texts, under the options; each parse must end with an error or a value that prints and walks; the work counted by the parser "
                "is bounded by a polynomial and must not grow faster than cubic along a family. Depth beyond 5000 is a known finding.")

# ---------------------------------------------------------------------------
# C15..C18: the commands of mustache over a file system.

import random
import mustache as M

ALLCMDS = '"check", "lint", "fix", "format", "write"'
CMDS = {"C15": '"lint", "fix", "write"', "C16": '"fix", "lint", "write"', "C17": ALLCMDS, "C18": ALLCMDS}


def mustache_cfg(prop, names, ids, args, cmds, fault, sim, emit, links=None):
    return ("SPECIFICATION Spec\nCONSTANTS\n Names = {%s}\n Cmds = {%s}\n MaxIds = %d\n MaxArgs = %d\n MaxCmds = %d\n Fault = %s\n"
            " Pick <- %s\n FileSystems <- %s\n Links <- %s\n Emit = %s\nINVARIANT OnlyTold Truth FixWorks FixStays Stable Printed\n" % (
                ", ".join('"%s"' % n for n in names), CMDS[prop], ids, args, cmds, str(fault).upper(),
                "PickOne" if sim else "PickAll", "OneFS" if sim else "AllFS", links or ("OneLinks" if sim else "AllLinks"), str(emit).upper()))


def eval_texts(w, bs):
    """What the specification prescribes for texts, with numbers as they stand."""
    d = w.sub("eval")
    parts = [bs[k::CPUS] for k in range(CPUS)]
    for k, p in enumerate(parts):
        with open(os.path.join(d, "in_%d.json" % k), "w") as h:
            json.dump([M.codes(b) for b in p], h)
    out = {}
    for k, f in enumerate(vlib.tlc_files("Eval", d, w.dir)):
        for b, line in zip(parts[k], open(f)):
            out[b] = json.loads(line)
    return out


def text_of(codes):
    return b"".join(chr(c).encode() if c < 2000000 else bytes([c - 2000000]) for c in codes if c >= 0)


def mustache(prop):
    w, res = Work(prop), Result(prop, "model_checking")
    h = vlib.build(w.path("h"))
    binary = vlib.build_mustache(w.path("mustache"))
    # whether files that cannot be read or written can be had
    fault = vlib.harness(h, "other").strip() == "true"
    q = QUICK
    jobs = [("model", mustache_cfg(prop, "fg", 1, 2, 1, True, False, False) if q else mustache_cfg(prop, "fg", 1, 2, 2, True, False, False), None),
            ("long", mustache_cfg(prop, "f", 2, 2, 3, True, False, False), None),
            ("one", mustache_cfg(prop, "f", 2, 1, 2, fault, False, True), None),
            ("two", mustache_cfg(prop, "fg", 0, 2, 1, fault, False, True), None)]
    if not q:
        jobs.append(("three", mustache_cfg(prop, "fg", 1, 2, 1, fault, False, True), None))
    for k, (names, ids, args, cmds, num) in enumerate([("f", 6, 2, 3, 300), ("fg", 3, 3, 3, 500), ("fghi", 3, 6, 4, 500)]):
        jobs.append(("sim%d" % k, mustache_cfg(prop, names, ids, args, cmds, fault, True, True),
                     ["-simulate", "num=%d" % (num if q else num * 8), "-depth", "60", "-seed", str(SEED * 10 + k)]))

    def model(job):
        name, cfg, sim = job
        log = vlib.tlc_ok("Mustache", cfg, workdir=w.dir, args=["-deadlock"] + (sim or []), stack="100m", workers=1 if sim else 3)
        return vlib.tlc_states(log), raw_docs(log, "HIST")
    states = trans = 0
    docs = {}
    with ThreadPoolExecutor(4) as ex:
        for (g, d), ds in ex.map(model, jobs):
            states, trans = states + d, trans + g
            docs.update(dict.fromkeys(ds))
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    hists = [json.loads(x) for x in docs]
    rng.shuffle(hists)
    hists = hists[:2500 if q else 60000]

    # texts for the files of the model
    ren = M.Render(rng)
    classes = {}
    for x in hists:
        for c in x["start"].values():
            if c["k"] == "conf":
                classes.setdefault((tuple(c["ids"]), c["warn"]), None)
    pool = {c: [ren.conf(list(c[0]), c[1]) for _ in range(2 if q else 6)] for c in sorted(classes)}
    wild = [text_of(t) for t in wild_texts(h, w, 60 if q else 400)]
    ev = eval_texts(w, sorted({b for bs in pool.values() for b in bs} | set(wild)))
    goods = [b for b in wild if ev[b]["st"] == "ok"]
    loose, std = {}, {}
    for c, bs in pool.items():
        for b in bs:
            if ev[b]["st"] != "ok":
                raise vlib.CheckError("not a configuration: %r" % b)
            f = text_of(ev[b]["fmt"])
            if f != b:
                loose.setdefault(c, []).append(b)
            std.setdefault(c, []).append(f)
        if not loose.get(c):
            loose[c] = [b"\n" + bs[0]]
    bads = sorted({ren.bad(rng.choice(goods)) for _ in range(40 if q else 300)} | {b for b in wild if ev[b]["st"] != "ok"})
    ev = eval_texts(w, bads)
    bads = [b for b in bads if ev[b]["st"] != "ok"]
    flat = lambda b: not any(b"\n" in x for x in __import__("re").findall(rb'"(?:\\"|[^"])*"|\'(?:\\\'|[^\'])*\'', b))

    def concrete(c, cmds):
        if c["k"] in ("missing", "dir"):
            return (c["k"], None, True, True)
        if c["k"] == "bad":
            b = rng.choice(bads)
        else:
            key = (tuple(c["ids"]), c["warn"])
            b = rng.choice((std if c["std"] else loose)[key])
        return ("text", b, c["r"], c["w"])

    todo = []
    for x in hists:
        steps = [(s["cmd"], [(n, rng.random() < .15) for n in s["args"]]) for s in x["steps"]]
        files = {n: concrete(c, steps) for n, c in x["start"].items()}
        links = {n: (rng.choice(("symbolic", "hard")), m) for n, m in x["link"].items() if m != n}
        todo.append(({n: files[x["link"][n]] for n in files}, x["start"], steps, x, links))
    # each invalid text on its own, texts of other origin
    for b in bads:
        todo.append(({"f": ("text", b, True, True)}, {"f": {"k": "any"}}, [(c, [("f", False)]) for c in M.FLAGS], None, {}))
    for b in goods:
        cmds = ["check", "format", "write", "write"] + (["lint", "fix", "lint"] if flat(b) else [])
        rng.shuffle(cmds)
        todo.append(({"f": ("text", b, True, True), "g": ("text", rng.choice(goods), True, True)}, {"f": {"k": "any"}, "g": {"k": "any"}},
                     [(c, [("f", False)]) for c in cmds[:4]], None, {}))
    # a device, which reads as an empty file
    todo.append(({"f": ("text", b"", True, True), "g": ("text", bads[0], True, True)}, {"f": {"k": "any"}, "g": {"k": "any"}},
                 [(c, [("f", False)]) for c in M.FLAGS] + [(c, [("f", False), ("g", False)]) for c in M.FLAGS], None, {"f": ("null", "")}))
    # so many reports that their number does not fit an exit status
    for n in (255, 256, 512):
        many = [("f", False)] * (n - 1) + [("g", False)]
        todo.append(({"f": ("missing", None, True, True), "g": ("text", bads[0], True, True)}, {"f": {"k": "any"}, "g": {"k": "any"}},
                     [(c, many) for c in ("check", "lint", "fix")], None, {}))
    results = M.histories(h, binary, w, [(t[0], t[2], t[4]) for t in todo])

    d = w.sub("judge")
    reasons = M.Table()
    shards = []
    for k in range(CPUS):
        part = [(t[0], t[1], t[2], t[4], r) for t, r in list(zip(todo, results))[k::CPUS]]
        rec, texts_ = M.record(part, reasons)
        with open(os.path.join(d, "in_%d.json" % k), "w") as f:
            json.dump(rec, f)
        shards.append((todo[k::CPUS], results[k::CPUS], texts_))
    why, nsteps, samples, differ = {}, 0, [], []
    for k, f in enumerate(vlib.tlc_files("MustacheTrace", d, w.dir)):
        tds, rs, tab = shards[k]
        for t, r, line in zip(tds, rs, open(f)):
            j = json.loads(line)
            if not j["agree"]:
                raise vlib.CheckError("text does not fit the model: %r %r" % (t[0], t[1]))
            clean = True
            for n, (s, o) in enumerate(zip(j["steps"], r)):
                nsteps += 1
                if clean and t[3] and (t[3]["steps"][n]["exit"] == 0) != (s["exp"] == []):
                    differ.append("machine and judge differ: %r step %d: %r" % (t[3], n, s["exp"]))
                clean &= not any(s["broken"].values())
                problems = list(s["broken"][prop])
                for y in s["why"]:
                    c = y["c"]
                    key = (o["cmd"], c["k"], tab.all[c["t"] - 1] if c["k"] == "text" and c["r"] else None, c["r"], c["w"])
                    if prop == "C17" and why.setdefault(key, y["r"]) != y["r"]:
                        problems.append("different reports for the same file: %r and %r" % (reasons.all[why[key] - 1], reasons.all[y["r"] - 1]))
                if problems:
                    res.violation("%s: %s\n%s" % ("; ".join(problems), " ".join([o["cmd"]] + [a for _, a in o["args"]]), o["err"].decode("utf-8", "replace")),
                                  dict(problem=problems, files={M.NAMES[a]: repr(x) for a, x in t[0].items()}, step=n + 1,
                                       steps=[dict(cmd=y["cmd"], args=[a for _, a in y["args"]], exit=y["exit"], err=repr(y["err"]),
                                                   out=repr(y["out"]), after={M.NAMES[a]: repr(x) for a, x in y["after"].items()}) for y in r[:n + 1]],
                                       expected=s["exp"]))
            if len(samples) < 3 and t[3] and len(r) > 1:
                samples.append(dict(files={M.NAMES[a]: repr(x) for a, x in t[0].items()},
                                    steps=[[y["cmd"], [a for _, a in y["args"]], y["exit"]] for y in r]))
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=len(todo), commands_run=nsteps,
                        other_user=fault, samples=samples)
    if differ and not res.violations:
        raise vlib.CheckError(differ[0])
    return res.finish()


def wild_texts(h, w, n):
    d = w.sub("wild")
    vlib.harness(h, "gen", "-dir", d, "-seed", str(SEED), "-shards", "1", "-kinds", "valid:%d,comments:%d,mutate:%d" % (n * 150, n * 50, n * 20))
    f = [x for x in os.listdir(d) if x.startswith("in_")][0]
    return [t for t in json.load(open(os.path.join(d, f))) if len(t) < 400 and all(c < 2000000 for c in t)]


for p in CMDS:
    CHECKS[p] = mustache
    ABOUT[p] = ("TLA+ machine of the commands over a file system checked with TLC; its histories run with the real command, recorded histories "
                "judged by the TLA+ specification", "model_checking",
                "The machine is checked exhaustively for two files and two commands; its histories and random longer ones are run with the built "
                "command in scratch directories, and every step is judged from the real file contents. Unreadable and unwritable files "
                "by running as another user. No crash or power loss while a file is written.")

# ---------------------------------------------------------------------------
# C09, C10: options, histories of parses.


def session_cfg(spec, texts, options, segs, calls, open_, sim, emit):
    return ("SPECIFICATION %s\nCONSTANTS\n Texts = %d\n Options <- %s\n Segs = %d\n MaxCalls = %d\n MaxOpen = %d\n Choose <- %s\n"
            " Emit = %s\nINVARIANT Function OneParse Latest Printed\n" % (
                spec, texts, options, segs, calls, open_, "PickOne" if sim else "PickAll", str(emit).upper()))


def session_texts(h, w, n):
    """Short texts of all sorts and what the specification prescribes for them."""
    d = w.sub("pool")
    vlib.harness(h, "gen", "-dir", d, "-seed", str(SEED), "-shards", str(CPUS), "-kinds",
                 scale("comments:14,valid:8,bytes:12,mutate:6,trunc:6,edits:6,random:6", n / 40.0))
    pool = []
    for f in sorted(os.listdir(d)):
        ts = [t for t in json.load(open(os.path.join(d, f))) if len(t) < 250]
        json.dump(ts, open(os.path.join(d, f), "w"))
    for f in vlib.tlc_files("EvalOptions", d, w.dir):
        ts = json.load(open(f.replace("out_", "in_")))
        pool += list(zip(ts, map(json.loads, open(f))))
    sort = {}
    for t, a in pool:
        x, y = a["a"], a["u"]
        c = [x["st"], y["st"]]
        if y["st"] == "ok":
            c += [len(y["w"]) > 0, y["v"] != y["vi"]]
        sort.setdefault(str(c), []).append((t, a))
    out, seen = [], set()
    rng = random.Random(SEED)
    for v in sort.values():
        rng.shuffle(v)
    while len(out) < n and any(sort.values()):
        for c in sorted(sort):
            if sort[c] and len(out) < n:
                t, a = sort[c].pop()
                if str(t) not in seen:
                    seen.add(str(t))
                    out.append((t, a))
    return out, {c: len(v) for c, v in sort.items()}


def session(prop):
    w, res = Work(prop), Result(prop, "model_checking")
    q = QUICK
    ex0 = ThreadPoolExecutor(2)
    race = ex0.submit(vlib.build, w.path("hrace"), "-race") if prop == "C10" else None
    h = vlib.build(w.path("h"))
    ntexts = 40 if q else 150
    texts_f = ex0.submit(session_texts, h, w, ntexts)
    jobs = [("model", session_cfg("Spec", 2, "OptionsSmall", 3, 3, 3, False, False), None, 1)]
    if prop == "C10":
        jobs += [("two", session_cfg("Spec", 2, "OptionsNone", 4, 2, 2, False, True), None, 10 if q else 60),
                 ("three", session_cfg("Spec", 2, "OptionsNone", 2, 3, 3, False, True), None, 4 if q else 30),
                 ("opts", session_cfg("Spec", 1, "OptionsPlain", 2, 2, 2, False, True), None, 10 if q else 40)]
    for k, (opts, segs, calls, open_, num) in enumerate([("OptionsAll", 1, 3, 1, 250), ("OptionsAll", 3, 3, 2, 150), ("OptionsPlain", 6, 5, 3, 150),
                                                         ("OptionsPlain", 12, 6, 4, 60)]):
        num *= {"C09": 3, "C10": 1}[prop] if opts == "OptionsAll" else {"C09": 1, "C10": 2}[prop]
        for j in range(1 if q else 4):
            jobs.append(("sim%d_%d" % (k, j), session_cfg("SpecOne", ntexts, opts, segs, calls, open_, True, True),
                         ["-simulate", "num=%d" % (num if q else num * 5), "-depth", "100", "-seed", str(SEED * 100 + 10 * j + k)], 1))

    def model(job):
        name, cfg, sim, times = job
        log = vlib.tlc_ok("Session", cfg, workdir=w.dir, args=["-deadlock"] + (sim or []), stack="100m", workers=1 if sim else 3)
        return times, vlib.tlc_states(log), [json.loads(x) for x in raw_docs(log, "SESS")]
    states = trans = 0
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    logs = {}                      # number of segments -> histories
    with ThreadPoolExecutor(4) as ex:
        for times, (g, d), ds in ex.map(model, jobs):
            states, trans = states + d, trans + g
            for _ in range(times):
                pick = list(range(1, ntexts + 1))
                if times > 1:
                    rng.shuffle(pick)
                for x in ds:
                    logs.setdefault(x[-1]["s"], []).append([dict(e, t=pick[e["t"] - 1]) for e in x])
    txts, classes = texts_f.result()
    if len(txts) < ntexts:
        raise vlib.CheckError("only %d texts" % len(txts))
    tf, af = w.path("texts.json"), w.path("answers.json")
    json.dump([t for t, _ in txts], open(tf, "w"))
    with open(af, "w") as f:
        f.writelines(json.dumps(a) + "\n" for _, a in txts)
    files = w.sub("files")
    tot, samples, nruns, nkinds, nsteps, nrounds, races = {}, [], 0, 0, 0, 0, 0
    describe = lambda k: "text %r options %s" % (text_of(txts[k["t"] - 1][0]), " ".join(k["o"]) or "none")
    for segs, ls in sorted(logs.items()):
        ks = {}
        for x in ls:
            for e in x:
                ks.setdefault((e["t"], tuple(e["o"])), dict(t=e["t"], o=e["o"], e=e["e"]))
        kf, sf = w.path("kinds%d.json" % segs), w.path("solo%d.json" % segs)
        json.dump(list(ks.values()), open(kf, "w"))
        vlib.harness(h, "plan", "-texts", tf, "-kinds", kf, "-dir", files, "-segs", str(segs), "-out", sf)
        solo = json.load(open(sf))
        nkinds += len(solo)
        d = w.sub("runs%d" % segs)

        def one(k):
            f = os.path.join(d, "log_%d.json" % k)
            json.dump(ls[k::CPUS], open(f, "w"))
            o, r = os.path.join(d, "run_%d.json" % k), os.path.join(d, "report_%d.json" % k)
            p = vlib.run([h, "session", "-texts", tf, "-answers", af, "-kinds", sf, "-in", f, "-dir", files, "-segs", str(segs), "-out", o,
                          "-report", r], 800)
            if p.returncode != 0:
                return k, p.stderr, None
            return k, json.load(open(o)), json.load(open(r))
        with ThreadPoolExecutor(CPUS) as ex:
            outs = list(ex.map(one, range(CPUS)))
        rounds = []
        if prop == "C10" and segs == min(logs):
            ids = list(range(1, len(solo) + 1))
            for n in range(60 if q else 600):
                few = rng.sample(ids, 1 + rng.randrange(4))
                rounds.append([rng.choice(few if n % 2 else ids) for _ in range(rng.choice((2, 4, 8, 24)))])
            # Debug writes to the standard output of all parses
            rounds = [[k for k in r if "debug" not in solo[k - 1]["o"]] for r in rounds]
            rounds = [r for r in rounds if r]
            rf, ro = w.path("rounds.json"), w.path("rounds_out.json")
            json.dump(rounds, open(rf, "w"))
            done = []
            for b in (race.result(), h):
                p = vlib.run([b, "stress", "-texts", tf, "-kinds", sf, "-in", rf, "-dir", files, "-out", ro], 600,
                             env=dict(os.environ, GORACE="halt_on_error=1 exitcode=66"))
                if p.returncode == 3:
                    raise vlib.CheckError("stress: " + p.stderr[-2000:])
                if p.returncode != 0:
                    what = "data race" if "DATA RACE" in p.stderr else "crash"
                    res.violation("%s of parses at the same time:\n%s" % (what, p.stderr[:2500]), dict(stderr=p.stderr[:6000], rounds=rounds[:3]))
                    break
                done += json.load(open(ro))
            rounds = done
            nrounds += len(rounds)
        # numbers for results and reports
        tab = {"": 0}
        num = lambda s: tab.setdefault(s, len(tab))
        sol = [dict(res=num("r" + k["res"]), rep=[num("p" + x) for x in k["rep"]]) for k in solo]
        jd, back = w.sub("judge%d" % segs), []
        for k, runs, rep in outs:
            if rep is None:
                if runs.startswith("panic") or "fatal error" in runs or "goroutine " in runs:
                    res.violation("crash while parses run side by side:\n%s" % runs[:2500], dict(stderr=runs[:6000]))
                    continue
                raise vlib.CheckError("session: " + runs[-2000:])
            for n in ("evaluations", "accepted", "rejected", "warned"):
                tot[n] = tot.get(n, 0) + rep[n]
            if prop in rep["violations"]:
                v = rep["violations"][prop]
                res.violation("text %r: %s" % (v["text"], v["detail"]), v)
            rr = [dict(calls=[dict(k=c["k"], res=num("r" + c["res"])) for c in r["calls"]], rep=num("p" + r["rep"])) for r in rounds[k::CPUS]]
            json.dump(dict(solo=sol, runs=[[dict(k=e["k"], s=e["s"], res=num("r" + e["res"]) if e["s"] == segs else 0, rep=num("p" + e["rep"]))
                                            for e in run] for run in runs], rounds=rr), open(os.path.join(jd, "in_%d.json" % k), "w"))
            back.append((runs + rounds[k::CPUS], len(runs)))
            nruns += len(runs)
            nsteps += sum(map(len, runs))
            if runs and len(samples) < 3:
                samples.append([describe(solo[e["k"] - 1]) + " segment %d" % e["s"] for e in runs[0]])
        if prop != "C10" or not back:
            continue
        for (runs, n), f in zip(back, vlib.tlc_files("SessionTrace", jd, w.dir)):
            for i, line in enumerate(open(f)):
                for b in json.loads(line):
                    if i < n:
                        e = runs[i][b["n"] - 1]
                        k = solo[e["k"] - 1]
                        got, want = (e["res"], k["res"]) if b["what"] == "result" else (e["rep"], k["rep"])
                        hist = [describe(solo[y["k"] - 1]) + " segment %d of %d" % (y["s"], segs) for y in runs[i][:b["n"]]]
                    else:
                        if b["what"] == "result":
                            k = solo[b["n"] - 1]
                            got, want = [c["res"] for c in runs[i]["calls"] if c["k"] == b["n"] and c["res"] != k["res"]][0], k["res"]
                        else:
                            k, got, want = None, runs[i]["rep"], [solo[c["k"] - 1]["rep"][-1] for c in runs[i]["calls"]]
                        hist = ["at the same time"] + [describe(solo[c["k"] - 1]) for c in runs[i]["calls"]]
                    res.violation("the %s is %s; alone in a process of its own: %s\n%s" % (b["what"], got[:600], str(want)[:600], "\n".join(hist)),
                                  dict(what=b["what"], got=got, alone=want, history=hist))
    ex0.shutdown()
    probe(h, res)
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=nruns, steps=nsteps, kinds_of_calls=nkinds,
                        rounds_in_parallel=nrounds, texts=len(txts), results_checked=tot, samples=samples)
    return res.finish()


CHECKS["C09"] = CHECKS["C10"] = session
ABOUT["C09"] = ("TLA+ specification of options and sessions checked with TLC; scheduled histories of calls run on the code, results compared with "
                "the TLA+ specification of the language under the effect of the options", "model_checking",
                "Lists of up to three options (18 option values, three entry points) over 40 (150) texts of all kinds, alone, in sequence and "
                "interleaved; results compared with the specification. Warnings lost under Memoize are a known finding.")
ABOUT["C10"] = ("TLA+ specification of sessions checked with TLC; every schedule of small sessions and random larger ones replayed on the code "
                "(parsers paused by a Cloner in their state), recorded runs judged by the TLA+ specification; parallel rounds under the race detector",
                "model_checking",
                "All interleavings of two calls of four segments and three of two, random larger ones; each call is compared with the same call alone "
                "in a process of its own. Interleavings inside a segment only by parallel rounds and the race detector.")

# ---------------------------------------------------------------------------
# C20: the ways in.  C21: ids of plugins.


def replayed(prop, module, tag, command, jobs, extra=lambda k: (), env=None, parallel=4):
    """Behaviours of a module, each replayed by a command of the harness."""
    w, res = Work(prop), Result(prop, "model_checking")
    h = vlib.build(w.path("h"))

    def explore(job):
        name, cfg, sim = job
        log = vlib.tlc_ok(module, cfg, workdir=w.dir, args=["-deadlock"] + (sim or []), stack="100m", workers=1 if sim else 3,
                          env=env(w, h, name) if env else None)
        return raw_docs(log, tag), vlib.tlc_states(log)

    def replay(f):
        k, f = f
        vlib.harness(h, command, "-answers", f, "-out", f + ".report", *extra((w, k)))
        return json.load(open(f + ".report"))
    states = trans = n = 0
    docs, tot, samples = {}, {}, []
    with ThreadPoolExecutor(parallel) as ex:
        for ds, (g, d) in ex.map(explore, jobs):
            docs.update(dict.fromkeys(ds))
            states, trans = states + d, trans + g
    docs = list(docs)
    files = []
    for k in range(CPUS):
        if docs[k::CPUS]:
            f = w.path("docs_%d.json" % k)
            open(f, "w").write("\n".join(docs[k::CPUS]) + "\n")
            files.append((k, f))
    with ThreadPoolExecutor(CPUS) as ex:
        for r in ex.map(replay, files):
            for x in ("evaluations", "accepted", "rejected", "died"):
                tot[x] = tot.get(x, 0) + r[x]
            if prop in r["violations"]:
                v = r["violations"][prop]
                res.violation("%r: %s" % (v["text"], v["detail"]), v)
    probe(h, res)
    res.coverage = dict(states=states, transitions=trans, traces_validated_against_impl=tot["evaluations"], accepted=tot["accepted"],
                        rejected=tot["rejected"], errors=tot["died"], samples=[json.loads(d) for d in docs[:2]])
    return res.finish()


def entry(prop):
    def cfg(names, longs, flags, sizes, reads, choose, inv):
        return ("SPECIFICATION Spec\nCONSTANTS\n Texts <- TextsAll\n Ways <- WaysAll\n Names %s\n Longs = {%s}\n Flags = {%s}\n Sizes = {%s}\n"
                " MaxReads = %d\n Choose <- %s\n Emit = TRUE\nINVARIANT Cut NoFile Printed %s\n" % (names, longs, flags, sizes, reads, choose, inv))
    jobs = [("pieces", cfg('= {"f"}', "1", "TRUE, FALSE", "1, 2, 3, 5", 3 if QUICK else 4, "PickAll", "PadLemma"), None),
            ("names", cfg("<- NamesAll", "1", "TRUE, FALSE", "4", 2, "PickAll", ""), None),
            ("long", cfg('= {"f"}', "1500, 70000", "FALSE", "7", 2, "PickAll", ""), None),
            ("longer", cfg('= {"f"}', "1100000" if QUICK else "1100000, 5000000", "FALSE", "", 1, "PickAll", ""), None)]
    for k in range(2 if QUICK else 8):
        jobs.append(("sim%d" % k, cfg("<- NamesAll", "1, 1500", "TRUE, FALSE", "1, 2, 3, 5, 8, 13", 12, "PickOne", ""),
                     ["-simulate", "num=%d" % (400 if QUICK else 2000), "-depth", "14", "-seed", str(SEED * 10 + k)]))
    return replayed(prop, "Entry", "ENTRY", "entry", jobs, lambda x: ("-dir", x[0].sub("files%d" % x[1])))


def pluginid(prop):
    def cfg(few, n, choose):
        return ("SPECIFICATION Spec\nCONSTANTS\n AttrNames <- Names%s\n Values <- Values%s\n MaxAttrs = %d\n Choose <- %s\n Emit = TRUE\n"
                "INVARIANT First Others Reread Printed\n" % (few, few, n, choose))
    jobs = [("few", cfg("Few", 3, "PickAll"), None), ("all", cfg("All", 1 if QUICK else 2, "PickAll"), None)]
    for k in range(4):
        jobs.append(("sim%d" % k, cfg("All", 30, "PickOne"),
                     ["-simulate", "num=%d" % (80 if QUICK else 1500), "-depth", "31", "-seed", str(SEED * 10 + k)]))
    return replayed(prop, "PluginId", "ID", "pluginid", jobs)


CHECKS["C20"], CHECKS["C21"] = entry, pluginid
ABOUT["C20"] = ("TLA+ machine of readers and files checked with TLC; its behaviours replayed on the three ways in, results compared with the TLA+ "
                "specification of the language", "model_checking",
                "Every delivery of twelve texts in up to three pieces, random ones of up to twelve, failing readers, pipes, directories, missing files, "
                "file names with special characters, texts of up to 1.1 MB by way of a lemma TLC checks for small lengths.")
ABOUT["C21"] = ("TLA+ machine that builds a plugin attribute by attribute checked with TLC; each of its states replayed on the code", "model_checking",
                "All lists of up to three attributes over few names and values, random ones of up to thirty; built by hand and read from text.")

# ---------------------------------------------------------------------------
# C22: configurations that are edited.

PIECES = dict(
    nodes=["nn { }", "# new\npp { aa => \"x\" }", "if [a] { qq { } } else { rr { bb => [1, \"two\"] } }", "if [a] == 1 {\n# empty\n}",
           "mm { hh => { cc => 1 \"k\" => \"v\nw\" } }", "\"q n\" { cc => json { id => 1 } id => 'n\n1' }"],
    attrs=["id => \"x\"", "# c\nxx => [1, # d\n \"a\"]", "yy => { \"a\" => { bb => -1.50 } }", "zz => bareword", "cc => json { # f\n }",
           "'q r' => 'l1\nl2'", "\"id\" => [ ]"],
    conds=["[a]", "[a][b] == \"x\" and !([c] or \"y\" not in [d])", "\"e\" in [1, 2] xor [f] =~ /g\\/h/", "![z] nand 1.50 >= 2", "(([a]))"],
    values=["\"v\"", "12", "[ ]", "{ \"a\" => [1] }", "'s\nt'", "bareword", "\"\""],
    keys=["\"k\"", "kk", "7.5", "'s q'"],
    comments=["note", "", "two  words", "#", "\u00e9 \u4e16"])
EDITED = [
    "input{stdin{}}",
    "filter { if [a] { if [b] { aa {} bb {} } else { } } } filter { }",
    "input { } filter { aa { ss => \"l1\nl2\n  # no\" } bb { } cc { } }",
    "# head\nfilter {\n\n # one\n\n aa { xx => 1 # c\n yy => [ \"a\", # e\n 2 ] zz => { aa => 1 # h\n\n \"b\" => { cc => [] } } # foot\n }"
    " if [a] { bb {} } # ei\n else if [b] == 1 { cc { dd => ee { ff => \"1\" } } } else { # x\n gg {} # y\n } } output { hh {} } # end\n",
    "output { a1 { } # f1\n } # between\noutput { # empty\n }\ninput { if [x] { } else if [y] { } else if [z] { b1 { id => 1 id => 2 } } }",
    "filter { if \"a\" in [t] { if [u] { aa { } } else if [v] { bb { } cc { } } else { if [w] { } dd { } } } ee { } if [q] { ff { } } }",
]


def edits(prop):
    def cfg(n, walk, few, choose, emit="TRUE"):
        return ("SPECIFICATION Spec\nCONSTANTS\n MaxEdits = %d\n PerWalk = %d\n Few = %s\n Choose <- %s\n Emit = %s\n"
                "INVARIANT Reread Printed\nPROPERTY Counted\n" % (n, walk, few, choose, emit))

    def pieces(w, h, name):
        ts = EDITED
        if name.startswith("small"):
            ts = EDITED[:4] if QUICK else EDITED
        elif name.startswith("corpus"):
            d = w.sub("texts_" + name)
            vlib.harness(h, "gen", "-dir", d, "-seed", str(SEED * 100 + int(name[6:])), "-shards", "1",
                         "-kinds", "seeds:1,valid:%d,comments:%d" % ((3000, 5000) if QUICK else (12000, 20000)))
            ts = json.load(open(os.path.join(d, "in_000.json")))
        f = w.path("pieces_%s.json" % name)
        c = lambda x: [ord(k) for k in x] if isinstance(x, str) else x
        json.dump(dict({k: [c(x) for x in v] for k, v in PIECES.items()}, texts=[c(x) for x in ts]), open(f, "w"))
        return {"IN": f}
    jobs = [("small1", cfg(1, 1, "FALSE", "PickAll"), None), ("small2", cfg(1, 2, "TRUE", "PickAll"), None)]
    if not QUICK:
        jobs.append(("small3", cfg(2, 1, "TRUE", "PickAll"), None))
    for k in range(3 if QUICK else 8):
        for name, n in (("edited%d" % k, 6), ("corpus%d" % k, 4)):
            jobs.append((name, cfg(n, 4, "FALSE", "PickOne"),
                         ["-simulate", "num=%d" % (600 if QUICK else 5000), "-depth", "60", "-seed", str(SEED * 10 + k)]))
    return replayed(prop, "Edit", "EDIT", "edit", jobs, lambda x: ("-in", x[0].path("pieces_edited0.json")), env=pieces, parallel=CPUS)


CHECKS["C22"] = edits
ABOUT["C22"] = ("TLA+ machine of edits of a parsed configuration checked with TLC; its behaviours replayed on the tree of the real parser, what is "
                "printed is compared with the specification and parsed again", "model_checking",
                "Every single edit (35 operations, up to seven pieces each) and every walk with two edits of small configurations, random histories "
                "of up to six steps with up to four edits in a walk, of hand-written and of generated configurations.")
