package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

func init() {
	commands["plan"] = cmdPlan
	commands["solo"] = cmdSolo
	commands["session"] = cmdSession
	commands["stress"] = cmdStress
}

// A gate pauses a parse: the parser clones its state at each choice and
// predicate, and with it the gate that was put there with InitState.
type gate struct {
	n      int
	stops  []int // numbers of clones before which the parse waits
	paused chan struct{}
	resume chan struct{}
	look   func(n int)
}

func (g *gate) Clone() interface{} {
	g.n++
	if g.look != nil {
		g.look(g.n)
	}
	for len(g.stops) > 0 && g.n >= g.stops[0] {
		g.stops = g.stops[1:]
		g.paused <- struct{}{}
		<-g.resume
	}
	return g
}

// kind is a text (number from 1) with options and what is known about it.
type kind struct {
	T    int             `json:"t"`
	O    []string        `json:"o"`
	E    map[string]bool `json:"e"`
	Expr uint64          `json:"expr"`
	N    int             `json:"n"`
	N0   int             `json:"n0"`
	Res  string          `json:"res"`
	Rep  []string        `json:"rep"`
}

func (k *kind) key() string { return fmt.Sprint(k.T, k.O) }

func (k *kind) has(o string) bool {
	for _, x := range k.O {
		if x == o {
			return true
		}
	}
	return false
}

// call runs the parse of a kind; dir holds the texts as files.
func (k *kind) call(texts [][]byte, dir string, g *gate, stats *config.Stats) result {
	var opts []config.Option
	if g != nil {
		opts = append(opts, config.InitState("verif", g))
	}
	if stats != nil {
		opts = append(opts, config.Statistics(stats, "no match"))
	}
	via := ""
	for _, o := range k.O {
		switch o {
		case "ignore", "keep":
			opts = append(opts, config.IgnoreComments(o == "ignore"))
		case "warn", "nowarn":
			opts = append(opts, config.ExceptionalCommentsWarning(o == "warn"))
		case "utf8", "noutf8":
			opts = append(opts, config.AllowInvalidUTF8(o == "utf8"))
		case "low":
			if k.Expr > 0 {
				opts = append(opts, config.MaxExpressions(k.Expr-1))
			}
		case "max":
			if k.Expr > 0 {
				opts = append(opts, config.MaxExpressions(k.Expr))
			}
		case "norecover", "recover":
			opts = append(opts, config.Recover(o == "recover"))
		case "memo", "nomemo":
			opts = append(opts, config.Memoize(o == "memo"))
		case "stats":
			if stats == nil {
				opts = append(opts, config.Statistics(&config.Stats{}, "no match"))
			}
		case "debug":
			opts = append(opts, config.Debug(true))
		case "store":
			opts = append(opts, config.GlobalStore("verif", k))
		case "entry":
			opts = append(opts, config.Entrypoint("init"))
		case "reader", "file":
			via = o
		default:
			fail("option %q", o)
		}
	}
	return outcome(texts[k.T-1], via, filepath.Join(dir, fmt.Sprintf("%d.conf", k.T)), opts)
}

// result is everything that can be seen of the result of a parse.
type result struct {
	err, panic *string
	conf       ast.Config
	printed    string
}

// String is equal for equal results only.
func (r result) String() string {
	var m M
	switch {
	case r.panic != nil:
		m = M{"panic": *r.panic}
	case r.err != nil:
		m = M{"err": *r.err}
	default:
		ws := L{}
		for _, w := range r.conf.Warnings {
			ws = append(ws, w)
		}
		m = M{"conf": pConfig(r.conf), "warnings": ws, "printed": r.printed}
	}
	s, e := json.Marshal(ascii(m))
	if e != nil {
		fail("%v", e)
	}
	return string(s)
}

// ascii quotes all strings, so that no bytes are lost in JSON.
func ascii(v any) any {
	switch x := v.(type) {
	case M:
		out := M{}
		for k, y := range x {
			out[k] = ascii(y)
		}
		return out
	case L:
		out := L{}
		for _, y := range x {
			out = append(out, ascii(y))
		}
		return out
	case string:
		return strconv.QuoteToASCII(x)
	}
	return v
}

func outcome(b []byte, via, file string, opts []config.Option) (res result) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			res.panic = &s
		}
	}()
	var v interface{}
	var err error
	switch via {
	case "reader":
		v, err = config.ParseReader(file, bytes.NewReader(b), opts...)
	case "file":
		v, err = config.ParseFile(file, opts...)
	default:
		v, err = config.Parse(file, b, opts...)
	}
	if err != nil {
		s := err.Error()
		res.err = &s
		return res
	}
	res.conf = v.(ast.Config)
	res.printed = res.conf.String()
	return res
}

func (k *kind) stops(segs int) []int {
	var out []int
	for j := 1; j < segs; j++ {
		out = append(out, k.N0+(k.N-k.N0)*j/segs)
	}
	return out
}

func shown() string {
	s, ok := config.GetFarthestFailure()
	if !ok {
		return ""
	}
	return "!" + s
}

func quiet() {
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
}

func writeTexts(texts [][]byte, dir string) {
	for i, b := range texts {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.conf", i+1)), b, 0o644); err != nil {
			fail("%v", err)
		}
	}
}

func readBytes(file string) [][]byte {
	var out [][]byte
	for _, t := range readTexts(file) {
		out = append(out, decode(t))
	}
	return out
}

type event struct {
	C int             `json:"c"`
	T int             `json:"t"`
	O []string        `json:"o"`
	E map[string]bool `json:"e"`
	S int             `json:"s"`
}

func readJSON(file string, v any) {
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fail("%s: %v", file, err)
	}
}

// cmdPlan finds out for each kind of call how much it does, and what it does
// alone in a process of its own.
func cmdPlan(args []string) {
	fs := flag.NewFlagSet("plan", flag.ExitOnError)
	texts := fs.String("texts", "", "texts")
	kinds := fs.String("kinds", "", "kinds")
	dir := fs.String("dir", "", "scratch directory")
	segs := fs.Int("segs", 3, "segments")
	out := fs.String("out", "", "kinds with results")
	fs.Parse(args)
	ts := readBytes(*texts)
	writeTexts(ts, *dir)
	var ks []*kind
	readJSON(*kinds, &ks)
	quiet()
	const leftover = "input{a{b=>["
	config.Parse("", []byte(leftover))
	before := shown()
	for _, k := range ks {
		st := config.Stats{}
		(&kind{T: k.T, O: without(k.O, "low", "max")}).call(ts, *dir, nil, &st)
		k.Expr = st.ExprCnt
		config.Parse("", []byte(leftover))
		g := &gate{}
		g.look = func(n int) {
			if k.N0 == 0 && shown() != before {
				k.N0 = n
			}
		}
		k.call(ts, *dir, g, nil)
		k.N = g.n
		if k.N0 == 0 {
			k.N0 = k.N / *segs
		}
		if k.N0 == 0 {
			k.N0 = 1
		}
	}
	jobs := make(chan *kind)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range jobs {
				in, _ := json.Marshal(k)
				c := exec.Command(os.Args[0], "solo", *texts, *dir, fmt.Sprint(*segs))
				c.Stdin = bytes.NewReader(in)
				var eb bytes.Buffer
				c.Stderr = &eb
				b, err := c.Output()
				if err != nil {
					k.Res = fmt.Sprintf(`{"panic": %q}`, clip(eb.String()))
					k.Rep = make([]string, *segs)
					continue
				}
				if err := json.Unmarshal(b, k); err != nil {
					fail("solo: %v: %s", err, b)
				}
			}
		}()
	}
	for _, k := range ks {
		jobs <- k
	}
	close(jobs)
	wg.Wait()
	writeJSON(*out, ks)
}

func without(o []string, drop ...string) []string {
	out := []string{}
	for _, x := range o {
		keep := true
		for _, d := range drop {
			keep = keep && x != d
		}
		if keep {
			out = append(out, x)
		}
	}
	return out
}

// running is a call that goes on one segment at a time.
type running struct {
	k      *kind
	g      *gate
	done   chan result
	over   bool
	result result
}

func start(k *kind, ts [][]byte, dir string, segs int) *running {
	r := &running{k: k, done: make(chan result, 1),
		g: &gate{stops: k.stops(segs), paused: make(chan struct{}), resume: make(chan struct{})}}
	go func() { r.done <- k.call(ts, dir, r.g, nil) }()
	r.wait()
	return r
}

func (r *running) wait() {
	if r.over {
		return
	}
	select {
	case <-r.g.paused:
	case r.result = <-r.done:
		r.over = true
	case <-time.After(30 * time.Second):
		fail("a parse neither ends nor pauses")
	}
}

func (r *running) step(last bool) {
	for !r.over {
		r.g.resume <- struct{}{}
		r.wait()
		if !last {
			return
		}
	}
}

// cmdSolo runs one call alone: solo texts dir segs, the kind on stdin.
func cmdSolo(args []string) {
	ts := readBytes(args[0])
	var segs int
	fmt.Sscan(args[2], &segs)
	k := &kind{}
	if err := json.NewDecoder(os.Stdin).Decode(k); err != nil {
		fail("%v", err)
	}
	stdout := os.Stdout
	quiet()
	r := start(k, ts, args[1], segs)
	k.Rep = []string{shown()}
	for s := 2; s <= segs; s++ {
		r.step(s == segs)
		k.Rep = append(k.Rep, shown())
	}
	k.Res = r.result.String()
	json.NewEncoder(stdout).Encode(k)
}

type step struct {
	K   int    `json:"k"`
	S   int    `json:"s"`
	Res string `json:"res"`
	Rep string `json:"rep"`
}

// cmdSession runs histories of calls as the specification scheduled them.
func cmdSession(args []string) {
	fs := flag.NewFlagSet("session", flag.ExitOnError)
	texts := fs.String("texts", "", "texts")
	answers := fs.String("answers", "", "what the specification says about the texts")
	kinds := fs.String("kinds", "", "kinds with results")
	in := fs.String("in", "", "histories")
	dir := fs.String("dir", "", "scratch directory")
	segs := fs.Int("segs", 3, "segments")
	out := fs.String("out", "", "what happened")
	report := fs.String("report", "", "report")
	fs.Parse(args)
	ts := readBytes(*texts)
	var ks []*kind
	readJSON(*kinds, &ks)
	index := map[string]int{}
	for i, k := range ks {
		index[k.key()] = i + 1
	}
	var logs [][]event
	readJSON(*in, &logs)
	quiet()
	oc := newOptionCheck(*texts, *answers)
	var runs [][]step
	for _, log := range logs {
		open := map[int]*running{}
		var run []step
		for _, e := range log {
			k := index[(&kind{T: e.T, O: e.O}).key()]
			if e.S == 1 {
				open[e.C] = start(ks[k-1], ts, *dir, *segs)
			}
			r := open[e.C]
			if e.S > 1 || *segs == 1 {
				r.step(e.S == *segs)
			}
			st := step{K: k, S: e.S, Rep: shown()}
			if e.S == *segs {
				st.Res = r.result.String()
				oc.check(ks[k-1], r.result)
			}
			run = append(run, st)
		}
		runs = append(runs, run)
	}
	writeJSON(*out, runs)
	writeJSON(*report, oc.rep)
}

// cmdStress runs calls at the same time in rounds, without control.
func cmdStress(args []string) {
	fs := flag.NewFlagSet("stress", flag.ExitOnError)
	texts := fs.String("texts", "", "texts")
	kinds := fs.String("kinds", "", "kinds with results")
	in := fs.String("in", "", "rounds: lists of kinds")
	dir := fs.String("dir", "", "scratch directory")
	out := fs.String("out", "", "what happened")
	fs.Parse(args)
	ts := readBytes(*texts)
	var ks []*kind
	readJSON(*kinds, &ks)
	var rounds [][]int
	readJSON(*in, &rounds)
	quiet()
	type one struct {
		K   int    `json:"k"`
		Res string `json:"res"`
	}
	type round struct {
		Calls []one  `json:"calls"`
		Rep   string `json:"rep"`
	}
	var rs []round
	for _, r := range rounds {
		calls := make([]one, len(r))
		begin := make(chan struct{})
		var wg, ready sync.WaitGroup
		for i, k := range r {
			wg.Add(1)
			ready.Add(1)
			go func(i, k int) {
				defer wg.Done()
				ready.Done()
				<-begin
				calls[i] = one{k, ks[k-1].call(ts, *dir, nil, nil).String()}
				shown()
			}(i, k)
		}
		ready.Wait()
		close(begin)
		wg.Wait()
		rs = append(rs, round{calls, shown()})
	}
	writeJSON(*out, rs)
}

// optionCheck compares results with what the specification prescribes.
type optionCheck struct {
	rep   *report
	texts [][]int
	ans   []map[string]any
	seen  map[string]bool
}

func newOptionCheck(texts, answers string) *optionCheck {
	oc := &optionCheck{rep: &report{}, seen: map[string]bool{}, texts: readTexts(texts)}
	oc.rep.Counts, oc.rep.Violations = map[string]int{}, map[string]violation{}
	readLines(answers, func(i int, m map[string]any) { oc.ans = append(oc.ans, m) })
	if len(oc.ans) != len(oc.texts) {
		fail("%d texts, %d answers", len(oc.texts), len(oc.ans))
	}
	return oc
}

func (oc *optionCheck) check(k *kind, got result) {
	res := got.String()
	key := k.key() + " " + res
	if oc.seen[key] {
		return
	}
	oc.seen[key] = true
	text := oc.texts[k.T-1]
	b := decode(text)
	rep := oc.rep
	rep.Evaluations++
	bad := func(format string, a ...any) {
		rep.add("C09", b, "options %s: %s", strings.Join(k.O, " "), fmt.Sprintf(format, a...))
	}
	want := oc.ans[k.T-1]["a"].(map[string]any)
	if k.E["utf8"] {
		want = oc.ans[k.T-1]["u"].(map[string]any)
	}
	st := want["st"].(string)
	switch {
	case k.E["low"]:
		rep.Rejected++
		if got.panic != nil && k.E["norecover"] {
			return
		}
		if got.err == nil {
			bad("one expression too few, but no error: %s", clip(res))
		}
		return
	case st != "ok":
		rep.Rejected++
		if got.panic != nil && k.E["norecover"] && st == "die" {
			return
		}
		if got.err == nil {
			bad("prescribed: an error (%s); got %s", st, clip(res))
		} else if m, _ := want["m"].(string); strings.HasPrefix(m, "expect closing") && !strings.Contains(*got.err, m) {
			bad("the error must say %q: %s", m, *got.err)
		}
		return
	case got.err != nil || got.panic != nil:
		bad("prescribed: a configuration; got %s", clip(res))
		return
	}
	rep.Accepted++
	tab := posTable(text)
	v, f := "v", "fmt"
	if k.E["ignore"] {
		v, f = "vi", "fmti"
	}
	if d := differ(conv(want[v], tab), pConfig(got.conf), aspects{true, true, true, true}, "config"); d != "" {
		bad("%s", d)
	}
	var ws [][]string
	if k.E["warn"] {
		ws = prescribedWarnings(want["w"], text, tab)
	}
	if len(ws) > 0 {
		rep.Warned++
	}
	if k.E["memo"] {
		// known finding memoize-loses-warnings: some may be missing
		left := ws
		for _, g := range got.conf.Warnings {
			for len(left) > 0 && !equalWarnings(left[:1], []string{g}) {
				left = left[1:]
			}
			if len(left) == 0 {
				bad("want of the warnings %q, got %q", ws, got.conf.Warnings)
				break
			}
			left = left[1:]
		}
	} else if !equalWarnings(ws, got.conf.Warnings) {
		bad("want warnings %q, got %q", ws, got.conf.Warnings)
	}
	if want["x"] != true {
		fw, _ := codes(want[f])
		if d := layoutDiffer(fw, got.printed); d != "" {
			bad("layout: %s", d)
		}
	}
}
