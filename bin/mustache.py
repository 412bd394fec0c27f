"""Replays histories of Mustache.tla on the real command and records what happens."""
import base64, json, os, re
import vlib

NAMES = {"f": "a.conf", "g": "b c.conf", "h": "100%d.conf", "i": "sub/d"}
ALIAS = {"f": "./a.conf", "g": "sub/../b c.conf", "h": "./100%d.conf", "i": "sub/./d"}
CLOSERS = ["expect closing curly bracket", "expect closing square bracket", "expect closing parenthesis",
           "expect closing double quotes", "expect closing single quote", "expect closing slash"]
FLAGS = {"check": ["check"], "lint": ["lint"], "fix": ["lint", "--auto-fix-id"], "format": ["format"],
         "write": ["format", "--write-to-source"]}


def codes(b):
    out = []
    for c in b.decode("utf-8", "surrogateescape"):
        o = ord(c)
        out.append(2000000 + o - 0xDC00 if 0xDC80 <= o <= 0xDCFF else o)
    return out


# ---------------------------------------------------------------------------
# Texts for the abstract files of the specification.

class Render:
    def __init__(self, rng):
        self.r = rng

    def one(self, *xs):
        return self.r.choice(xs)

    def gap(self, must=True):
        return self.one(" ", " ", "\n", "  ", "\t", "\r\n", " # id => \"c\"\n", "\n\n # é \n") if must or self.r.random() < .5 else ""

    def sp(self):
        return self.one(" ", " ", "", "\n", "  ")

    def value(self, d=0):
        r = self.r
        return r.choice([lambda: '"%s"' % self.one("x", "id", "", "a # b", "é{", "\\\""), lambda: "'q\"'", lambda: "word", lambda: str(r.randint(0, 99)),
                         lambda: "-3.5", lambda: "{ \"id\"%s=>%s\"a\" }" % (self.sp(), self.sp()) if d < 2 else "xx", lambda: "[ \"a\",%s'id' ]" % self.sp(),
                         lambda: "json { id => \"a\" }", lambda: "\"two\nlines\""])()

    def idattr(self, i, names):
        name = self.one("id", "id", "id", '"id"', "'id'")
        if i == "odd":
            v = self.one("5", "[ \"a\" ]", "{ }", "-1.5", "plain { }", "[]")
        else:
            x = names[i]
            v = self.one('"%s"' % x, "'%s'" % x) if not re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]+", x) else self.one('"%s"' % x, "'%s'" % x, x)
        return name + self.sp() + "=>" + self.sp() + v

    def plugin(self, i, names):
        n = self.one("stdin", "mutate", "grok", "a-1", '"q w"', "'s'", "x", "mutate-1", "5")
        as_ = []
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            as_.append(self.one("key", "ident", "ids", "idx", "'k k'", "-") + self.sp() + "=>" + self.sp() + self.value())
        if i != "no":
            as_.insert(self.r.randint(0, len(as_)), self.idattr(i, names))
        return n + self.sp() + "{" + self.gap(False) + "".join(a + self.gap() for a in as_) + "}"

    def cond(self):
        return self.one('[a] == "x"', "[a][b]", "! [c]", '"e" in [d]', "([a] and [b])", '[a] =~ /id/', '[t] not in ["a", "b"]')

    def body(self, ids, names, depth=0):
        """A sequence of plugins and branches that holds the plugins with these ids in this order."""
        if not ids:
            return "" if self.r.random() < .7 or depth > 1 else self.branch([], names, depth) + self.gap()
        if depth < 3 and self.r.random() < .45:
            i = self.r.randint(0, len(ids) - 1)
            j = self.r.randint(i, len(ids))
            return self.body(ids[:i], names, depth + 1) + self.branch(ids[i:j], names, depth) + self.gap() + self.body(ids[j:], names, depth + 1)
        return self.plugin(ids[0], names) + self.gap() + self.body(ids[1:], names, depth + 1)

    def branch(self, ids, names, depth):
        n = self.r.choice([0, 0, 1, 2])
        cuts = sorted(self.r.randint(0, len(ids)) for _ in range(n + 1))
        parts = [ids[a:b] for a, b in zip([0] + cuts, cuts + [len(ids)])]
        out = "if " + self.cond() + " {" + self.gap() + self.body(parts[0], names, depth + 1) + "}"
        for p in parts[1:-1]:
            out += self.gap() + "else if " + self.cond() + "{" + self.gap(False) + self.body(p, names, depth + 1) + "}"
        if parts[-1] or self.r.random() < .3:
            out += self.gap() + "else {" + self.gap() + self.body(parts[-1], names, depth + 1) + "}"
        return out

    def conf(self, ids, warn):
        x = self.one(("aa", "bb"), ("stdin-1", "mutate-1"), ("a b", "é"), ("A", "a"), ("mutate-2", "5-1"), ("id", "x\\\\y"), ("xx", "yy"))
        names = {"a": x[0], "b": x[1]}
        cuts = sorted(self.r.randint(0, len(ids)) for _ in range(2))
        secs = []
        for t, part in zip(("input", "filter", "output"), (ids[:cuts[0]], ids[cuts[0]:cuts[1]], ids[cuts[1]:])):
            k = self.r.randint(0, len(part))
            ps = [p for p in (part[:k], part[k:]) if p]
            if self.r.random() < .15:
                ps.append([])
            secs.append([(t, p) for p in ps])
        if warn and not any(secs):
            secs[0].append(("input", []))
        order = [k for k, s in enumerate(secs) for _ in s]
        self.r.shuffle(order)
        # most texts stay in the order of the tree
        if self.r.random() < .5:
            order.sort()
        out, first = self.gap(False), True
        for k in order:
            t, p = secs[k].pop(0)
            mark = self.one(" # lost\n", "#\n #x\n") if warn and first else self.sp()
            first = False
            out += t + mark + "{" + self.gap() + self.body(list(p), names) + "}" + self.gap()
        return (out or self.one(" ", "\n", "\t\n")).encode()

    def bad(self, good):
        r = self.r
        return r.choice([lambda: b"input {", lambda: b"input { a { b => \"x } }\n", lambda: b"filter { if [a] { }\n", lambda: b"x",
                         lambda: b"input { } }", lambda: good + b"\xff", lambda: good + b"{", lambda: b"filter { if (! ( [a] { } }",
                         lambda: b"output { a { b => [ 1, 2 } }", lambda: b"output { a { b => { 'c => 2 } } }", lambda: b"input { a { b } }\n",
                         lambda: b"filter { if [a] =~ /x { } }", lambda: b"input { a { id => [ x { } ] } }",
                         lambda: b"\n\n  " + good[:max(1, len(good) - 2)].rstrip() + b" $", lambda: b"filter {\n  \xc3\xa9 { }\n}\n"])()


# ---------------------------------------------------------------------------
# Running.

def histories(h, binary, w, todo):
    """Runs (files, steps, links) and gives what happened at each step.
    files: {name: (kind, bytes, r, w)}, steps: [(cmd, [(name, alias?)])],
    links: {name: (kind of link, name of the file)}."""
    os.chmod(w.dir, 0o755)
    e64 = lambda b: base64.b64encode(b or b"").decode()
    ins, spelled = [], []
    for files, steps, links in todo:
        sp = [[(n, ALIAS[n] if al else NAMES[n]) for n, al in args] for _, args in steps]
        spelled.append(sp)
        ins.append(dict(files=[dict(name=NAMES[n], kind=k, b=e64(b), r=r, w=x, link=links.get(n, ("", ""))[0],
                                    to=NAMES.get(links.get(n, ("", ""))[1], "")) for n, (k, b, r, x) in files.items()],
                        steps=[dict(args=FLAGS[cmd] + [s for _, s in a]) for (cmd, _), a in zip(steps, sp)]))
    with open(w.path("hist.in"), "w") as f:
        json.dump(ins, f)
    vlib.harness(h, "history", "-bin", binary, "-dir", w.sub("fs"), "-in", w.path("hist.in"), "-out", w.path("hist.out"))
    with open(w.path("hist.out")) as f:
        res = json.load(f)["hists"]
    d64 = lambda x: base64.b64decode(x or "")
    out = []
    for (files, steps, _), sp, r in zip(todo, spelled, res):
        out.append([dict(cmd=cmd, args=a, exit=s["exit"], out=d64(s["out"]), err=d64(s["err"]), others=s["others"],
                         after={n: (g["kind"], d64(g["b"]) if g["kind"] == "text" else None) for n, g in zip(files, s["after"])})
                    for (cmd, _), a, s in zip(steps, sp, r["steps"])])
    return out


ENTRY = re.compile(r"^\t\* ", re.M)


def entries(err, names):
    """The reports a command printed."""
    t = err.decode("utf-8", "surrogateescape")
    if not t:
        return []
    if not t.startswith("error: "):
        return [dict(f="", kind="noise", at=[], o=0, m=[], raw=t)]
    t = t[7:]
    m = re.match(r"\d+ errors? occurred:\n", t)
    if m:
        raw = ["\n".join(l[3:] if l.startswith("\t  ") else l for l in x.rstrip("\n").split("\n"))
               for x in ENTRY.split(t[m.end():])[1:]]
        if int(t.split(" ")[0]) != len(raw):
            raw.append("%s errors announced" % t.split(" ")[0])
    else:
        raw = [t]
    out = []
    for x in raw:
        e = dict(f="", kind="fail", at=[], o=0, m=[c for c in CLOSERS if c in x], raw=x)
        w = re.match(r"exceptional comment at \d+:\d+ \[(\d+)\]", x)
        if w:
            out.append(dict(e, kind="warn", o=int(w.group(1))))
            continue
        lines = x.split("\n")
        for kind, head in (("noid", ": no IDs found for:"), ("dup", ": duplicate IDs found in:")):
            if lines[0].endswith(head):
                at = []
                for l in lines[1:]:
                    p = re.match(r"(\d+):(\d+) \[(\d+)\]: (.*)$", l, re.S)
                    at.append(dict(p=[int(p.group(k)) for k in (1, 2, 3)], n=codes(p.group(4).encode("utf-8", "surrogateescape")))
                              if p else dict(p=[0, 0, 0], n=codes(l.encode("utf-8", "surrogateescape"))))
                e = dict(e, f=lines[0][:-len(head)], kind=kind, at=at)
        if e["kind"] == "fail":
            best = [n for n in names if x.startswith(n + ": ")] or \
                   [n for n in names if re.search(r"(open|write|create) " + re.escape(n) + ": ", x)]
            e["f"] = max(best, key=len) if best else ""
        out.append(e)
    return out


class Table:
    """Numbers for the different values of a judge's input."""

    def __init__(self):
        self.ix, self.all = {}, []

    def __call__(self, x):
        if x not in self.ix:
            self.all.append(x)
            self.ix[x] = len(self.all)
        return self.ix[x]


def record(traces, reasons):
    """traces: (files, model, steps, links, run results) -> input of MustacheTrace."""
    texts = Table()
    out = []
    for files, model, steps, links, results in traces:
        def content(n, k, b):
            return dict(k=k, t=texts(b) if k == "text" else 0, r=bool(files[n][2]), w=bool(files[n][3]))
        tr = dict(start={n: content(n, f[0], f[1]) for n, f in files.items()}, model=model, steps=[],
                  link={n: links[n][1] if n in links and links[n][0] != "null" else n for n in files})
        for r in results:
            reps = entries(r["err"], [s for _, s in r["args"]])
            tr["steps"].append(dict(
                cmd=r["cmd"], args=[dict(n=n, s=s) for n, s in r["args"]], exit=r["exit"], others=r["others"],
                reps=[dict(f=e["f"], kind=e["kind"], at=e["at"], o=e["o"], m=e["m"],
                           r=reasons(e["raw"].replace(e["f"], "%F") if e["f"] else e["raw"])) for e in reps],
                out=codes(r["out"]) if r["cmd"] == "format" else [],
                after={n: content(n, k, b) for n, (k, b) in r["after"].items()}))
        out.append(tr)
    return dict(texts=[codes(b) for b in texts.all], traces=out), texts
