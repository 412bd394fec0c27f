package main

// How parses end and what they cost (Outcomes.tla, Pump.tla).

import (
	"encoding/binary"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

// outcomeRun is what is recorded of one text.
type outcomeRun struct {
	N    int    `json:"n"`
	St   string `json:"st"`
	Use  string `json:"use"`
	Work int    `json:"work"`
	What string `json:"what,omitempty"`
	Text string `json:"text,omitempty"`
}

// use prints and walks a configuration in every way.
func use(c ast.Config) {
	_ = c.String()
	_ = fmt.Sprint(c)
	pConfig(c)
	_ = c.Pos().String()
	for _, ss := range [][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			_ = s.String()
			_ = s.PluginType.String() + s.Pos().String() + s.CommentBlock.String() + s.FooterComment.String()
			useBody(s.BranchOrPlugins)
			n := 0
			s.BranchOrPlugins = astutil.ApplyPlugins(s.BranchOrPlugins, func(cur *astutil.Cursor) {
				p := cur.Plugin()
				_, _ = p.ID()
				if n++; n%3 == 0 {
					cur.InsertAfter(ast.NewPlugin("x"))
				} else if n%7 == 0 {
					cur.Delete()
				}
			})
			_ = s.String()
		}
	}
}

func useBody(bs []ast.BranchOrPlugin) {
	for _, b := range bs {
		_ = fmt.Sprint(b.Pos(), b)
		switch t := b.(type) {
		case ast.Plugin:
			for _, a := range t.Attributes {
				_ = a.String() + a.ValueString() + a.CommentBlock() + a.Name() + a.Pos().String()
			}
		case ast.Branch:
			_ = t.IfBlock.String() + t.IfBlock.Condition.String() + t.IfBlock.Condition.Pos().String() + t.ElseBlock.String()
			useBody(t.IfBlock.Block)
			for _, e := range t.ElseIfBlock {
				_ = e.String() + e.Condition.String() + e.Pos().String()
				useBody(e.Block)
			}
			useBody(t.ElseBlock.Block)
		}
	}
}

func noPanic(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// outcomeOf records one parse.
func outcomeOf(b []byte, opts ...config.Option) (r outcomeRun) {
	r = outcomeRun{N: len(b), St: "none", Use: "none"}
	st := config.Stats{}
	var v interface{}
	var err error
	if p := noPanic(func() { v, err = config.Parse("f", b, append(opts, config.Statistics(&st, "x"))...) }); p != "" {
		r.St, r.What = "panic", p
		return r
	}
	r.Work = int(min(st.ExprCnt, 2000000000))
	if err != nil {
		r.St = "error"
		if p := noPanic(func() {
			if err.Error() == "" {
				panic("empty error")
			}
			if f, ok := config.GetFarthestFailure(); ok {
				_ = f
			}
		}); p != "" {
			r.St, r.What = "panic", "using the error: "+p
		}
		return r
	}
	r.St = "value"
	c, ok := v.(ast.Config)
	if !ok {
		r.St, r.What = "panic", fmt.Sprintf("a %T and no error", v)
		return r
	}
	if d := depth(b); d > 200 {
		// printing deep trees is slow
		if p := noPanic(func() { pConfig(c) }); p != "" {
			r.Use, r.What = "panic", p
			return r
		}
	} else if d > 40 {
		if p := noPanic(func() { pConfig(c); _ = c.String() }); p != "" {
			r.Use, r.What = "panic", p
			return r
		}
	} else if p := noPanic(func() { use(c) }); p != "" {
		r.Use, r.What = "panic", p
		return r
	}
	r.Use = "done"
	return r
}

// depth is at least the depth of the tree.
func depth(b []byte) int {
	d, max := 0, 0
	for _, c := range b {
		switch c {
		case '{', '[', '(':
			if d++; d > max {
				max = d
			}
		case '}', ']', ')':
			d--
		}
	}
	return max
}

// collector keeps, of all runs of one length and one end, the one with most work.
type collector struct {
	cur  *os.File
	runs map[outcomeRun]outcomeRun
	seen int
	busy chan int
	n    int
}

func (c *collector) note(b []byte) {
	var h [8]byte
	binary.LittleEndian.PutUint64(h[:], uint64(len(b)))
	c.cur.WriteAt(h[:], 0)
	if len(b) > 1<<16 {
		b = b[:1<<16]
	}
	c.cur.WriteAt(b, 8)
	select {
	case c.busy <- c.n:
	default:
	}
	c.n++
}

// watch ends the process if one text takes longer than limit.
func (c *collector) watch(limit time.Duration) {
	for {
		select {
		case <-c.busy:
		case <-time.After(limit):
			fmt.Fprintln(os.Stderr, "no end in sight")
			os.Exit(7)
		}
	}
}

func (c *collector) text(b []byte, r *rand.Rand) {
	c.note(b)
	base := outcomeOf(b)
	rec := func(o outcomeRun) {
		c.seen++
		k := outcomeRun{N: o.N, St: o.St, Use: o.Use}
		if old, ok := c.runs[k]; !ok || o.Work > old.Work {
			o.Text = string(b)
			if len(b) > 3000 {
				o.Text = fmt.Sprintf("%s ... (%d bytes)", b[:3000], len(b))
			}
			c.runs[k] = o
		}
	}
	rec(base)
	sets := [][]config.Option{
		{config.AllowInvalidUTF8(true)}, {config.IgnoreComments(true)}, {config.ExceptionalCommentsWarning(true)},
		{config.Memoize(true)}, {config.MaxExpressions(uint64(1 + r.Intn(2*base.Work+1)))},
		{config.AllowInvalidUTF8(true), config.IgnoreComments(true), config.ExceptionalCommentsWarning(true), config.Memoize(true)},
	}
	if len(b) > 2000 {
		rec(outcomeOf(b, sets[r.Intn(len(sets))]...))
		return
	}
	for _, s := range sets[:3] {
		rec(outcomeOf(b, s...))
	}
	rec(outcomeOf(b, sets[3+r.Intn(3)]...))
}

func init() { commands["outcomes"] = cmdOutcomes }

func cmdOutcomes(args []string) {
	fs := flag.NewFlagSet("outcomes", flag.ExitOnError)
	kinds := fs.String("kinds", "", "kind:characters,...")
	seed := fs.Int64("seed", 1, "seed")
	part := fs.Int("part", 0, "part")
	parts := fs.Int("parts", 1, "of parts")
	exhaust := fs.Int("exhaust", 0, "bytes of exhaustively enumerated texts")
	big := fs.Int("big", 0, "length of big texts")
	pumps := fs.String("pumps", "", "PUMP documents")
	cur := fs.String("cur", "", "file that holds the text being parsed")
	out := fs.String("out", "", "recorded runs")
	limit := fs.Duration("limit", 100*time.Second, "time a text may take")
	fs.Parse(args)
	h, err := os.Create(*cur)
	if err != nil {
		fail("%v", err)
	}
	c := &collector{cur: h, runs: map[outcomeRun]outcomeRun{}, busy: make(chan int, 1)}
	go c.watch(*limit)
	r := rand.New(rand.NewSource(*seed*100 + int64(*part)))
	if *kinds != "" {
		sh := newSharder("", 1, 0)
		for i, k := range strings.Split(*kinds, ",") {
			var budget int
			name, num, _ := strings.Cut(k, ":")
			fmt.Sscan(num, &budget)
			sh.max = sh.sum + budget
			corpora[name](rand.New(rand.NewSource(*seed*1000+int64(*part)*50+int64(i))), sh)
		}
		for _, t := range sh.shards[0] {
			c.text(decode(t), r)
		}
	}
	n := 0
	mine := func() bool { n++; return n%*parts == *part }
	if *exhaust > 0 {
		for i, ctx := range []struct{ pre, post string }{{"", ""}, {"input{", "}"}, {"input{a{", "}}"}, {"input{a{b=>", "}}"}, {"filter{if[a]", "{}}"},
			{"filter{if", "{}}"}, {"output{if[a]{", "}}"}} {
			every := make([]byte, 0, 256)
			for i := 0; i < 256; i++ {
				every = append(every, byte(i))
			}
			for k := 1; k <= *exhaust; k++ {
				alphabet := every
				if k == 3 || k == 2 && i > 0 && *exhaust < 3 {
					alphabet = []byte("{}[]()\"'/#\n =>!<~,.-1aif\\\xff\xc3\xa9\x00")
				}
				idx := make([]int, k)
				for {
					b := []byte(ctx.pre)
					for _, i := range idx {
						b = append(b, alphabet[i])
					}
					if mine() {
						c.text(append(b, ctx.post...), r)
					}
					j := k - 1
					for ; j >= 0; j-- {
						if idx[j]++; idx[j] < len(alphabet) {
							break
						}
						idx[j] = 0
					}
					if j < 0 {
						break
					}
				}
			}
		}
	}
	if *big > 0 {
		for _, t := range bigTexts(*big, r) {
			if mine() {
				c.text(t, r)
			}
		}
	}
	type pump struct {
		Want []string `json:"want"`
		Got  []string `json:"got"`
		Work []int    `json:"work"`
		Text []string `json:"text"`
	}
	ps := []pump{}
	if *pumps != "" {
		readLines(*pumps, func(i int, m map[string]any) {
			if i%*parts != *part {
				return
			}
			s, p, f := mtext(m["start"]), mtext(m["pump"]), mtext(m["finish"])
			q := pump{Text: []string{s, p, f}}
			for _, w := range mlist(m["want"]) {
				q.Want = append(q.Want, w.(string))
			}
			fam := func(k int) []byte { return []byte(s + strings.Repeat(p, k) + f) }
			for k := 0; k < 3; k++ {
				b := fam(k)
				c.note(b)
				o := outcomeOf(b)
				q.Got = append(q.Got, o.St)
				c.text(b, r)
			}
			for _, k := range []int{10, 20, 40, 80, 160} {
				b := fam(k)
				c.note(b)
				// the work is limited, so that an explosion ends
				o := outcomeOf(b, config.MaxExpressions(4000000))
				q.Work = append(q.Work, o.Work)
				if o.Work >= 4000000 {
					break
				}
			}
			ps = append(ps, q)
		})
	}
	runs := []outcomeRun{}
	for _, o := range c.runs {
		runs = append(runs, o)
	}
	writeJSON(*out, M{"runs": runs, "pumps": ps, "texts": c.n, "parses": c.seen})
}

// bigTexts are long texts: long tokens, many nodes, deep nesting, noise.
func bigTexts(n int, r *rand.Rand) [][]byte {
	rep := strings.Repeat
	var out [][]byte
	add := func(s string) { out = append(out, []byte(s)) }
	for _, unit := range []string{"a", "1", " ", "\n", "é", "\xff", "\x00", "\\\"", "\\", "#", "[", "{", "x => ", "\r"} {
		k := n / len(unit)
		if (unit == "[" || unit == "{") && k > 5000 {
			k = 5000
		}
		add(rep(unit, k))
		add("input{a{b=>\"" + rep(unit, k) + "\"}}")
		add("input{a{b=>'" + rep(unit, k))
		add("input{a{b=>" + rep(unit, k) + "}}")
		add("input{" + rep(unit, k) + "{}}")
		add("filter{if [" + rep(unit, k) + "]{}}")
		add("filter{if [a]=~/" + rep(unit, k) + "/{}}")
		add("#" + rep(unit, k) + "\ninput{}")
	}
	for _, unit := range []string{"# c\n", "input{}", "filter{a{}}\n"} {
		add(rep(unit, n/len(unit)))
	}
	add("input{" + rep("a{} ", n/4) + "}")
	add("input{a{" + rep("b=>1 ", n/5) + "}}")
	add("input{a{" + rep("# c\nb=>1\n", n/9) + "}}")
	add("input{a{b=>[1" + rep(",1", n/2) + "]}}")
	add("input{a{b=>{" + rep("c=>1 ", n/5) + "}}}")
	add("input{a{b=>{" + rep("cc=>1 ", n/6) + "}}}")
	add("filter{if[a]" + rep("and[a]", n/6) + "{}}")
	add("filter{if[a]{}" + rep("else if[a]{}", n/12) + "}")
	add("filter{if" + rep("[a]", n/3) + "{}}")
	d := n / 40
	add("input{a{b=>" + rep("[", d) + rep("]", d) + "}}")
	add("input{a{b=>" + rep("[", d))
	add("input{a{b=>" + rep("{cc=>", d) + "1" + rep("}", d) + "}}")
	add("input{a{" + rep("b=>c{", d) + rep("}", d) + "}}")
	add("filter{if" + rep("(", d) + "[a]" + rep(")", d) + "{}}")
	add("filter{if" + rep("!(", d) + "[a]" + rep(")", d) + "{}}")
	add("filter{" + rep("if[a]{", d) + rep("}", d) + "}")
	for k := 0; k < 6; k++ {
		b := make([]byte, n)
		for i := range b {
			if k%2 == 0 {
				b[i] = byte(r.Intn(256))
			} else {
				b[i] = byteBits[r.Intn(len(byteBits))]
			}
		}
		out = append(out, b)
	}
	for k := 0; k < 4; k++ {
		out = append(out, mutate(r, randomConfig(r, n/20)))
	}
	return out
}
