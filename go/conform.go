package main

import (
	"flag"
	"fmt"
	"os"
	"strings"

	config "github.com/breml/logstash-config"
)

type violation struct {
	Prop   string `json:"prop"`
	Text   string `json:"text"`
	Bytes  []byte `json:"bytes"`
	Detail string `json:"detail"`
}

type report struct {
	Evaluations   int                  `json:"evaluations"`
	Accepted      int                  `json:"accepted"`
	Rejected      int                  `json:"rejected"`
	Died          int                  `json:"died"`
	Commented     int                  `json:"commented"`
	Warned        int                  `json:"warned"`
	Counts        map[string]int       `json:"counts"`
	Violations    map[string]violation `json:"violations"`
	Samples       []string             `json:"samples"`
	Inexpressible int                  `json:"inexpressible"`
	Pairs         int                  `json:"pairs"`
}

func (r *report) add(prop string, text []byte, format string, a ...any) {
	r.Counts[prop]++
	v, ok := r.Violations[prop]
	if !ok || len(text) < len(v.Text) {
		r.Violations[prop] = violation{prop, string(text), append([]byte{}, text...), fmt.Sprintf(format, a...)}
	}
}

// prescribedWarnings returns the warnings for the gaps that start at the
// indices w.  A gap that starts with a line feed may be placed at the end of the
// line or, as the generated parser counts, at column 0 of the next one.
func prescribedWarnings(w any, text []int, tab [][3]int) [][]string {
	var out [][]string
	for _, x := range w.([]any) {
		k := int(x.(float64))
		p := tab[k]
		alt := []string{fmt.Sprintf("exceptional comment at %d:%d [%d]", p[0], p[1], p[2])}
		if k <= len(text) && text[k-1] == '\n' {
			alt = append(alt, fmt.Sprintf("exceptional comment at %d:0 [%d]", p[0]+1, p[2]))
		}
		out = append(out, alt)
	}
	return out
}

func equalWarnings(want [][]string, got []string) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		ok := false
		for _, a := range want[i] {
			ok = ok || a == got[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

func cmdCmp(args []string) {
	fs := flag.NewFlagSet("cmp", flag.ExitOnError)
	in := fs.String("in", "", "texts, if the answers do not hold them")
	answers := fs.String("answers", "", "what the specification says")
	out := fs.String("out", "", "report")
	pairs := fs.String("pairs", "", "file for the pairs of text and printed text")
	print := fs.Bool("print", true, "print the configurations")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	var texts [][]int
	if *in != "" {
		texts = readTexts(*in)
	}
	var ps [][2][]int
	n := 0
	readLines(*answers, func(i int, m map[string]any) {
		n++
		text, own := codes(m["s"])
		if !own {
			text = texts[i]
		}
		if p := rep.check(text, *print, m); *pairs != "" && p != nil {
			ps = append(ps, [2][]int{text, p})
		}
	})
	if *in != "" && n != len(texts) {
		fail("%s: %d texts, %d answers", *in, len(texts), n)
	}
	rep.Pairs = len(ps)
	if len(ps) > 0 {
		writeJSON(*pairs, ps)
	}
	writeJSON(*out, rep)
	if len(rep.Violations) > 0 && os.Getenv("VERBOSE") != "" {
		for p, v := range rep.Violations {
			fmt.Printf("%s (%d): %q: %s\n", p, rep.Counts[p], v.Text, v.Detail)
		}
	}
}

// check compares what the specification prescribes for a text with what the
// real code does; it returns the text the code prints for the configuration.
func (rep *report) check(text []int, print bool, want map[string]any) []int {
	b := decode(text)
	rep.Evaluations++
	o := parse(b)
	st := want["st"].(string)
	if o.panic != "" {
		rep.add("C11", b, "parsing: %s", o.panic)
		rep.add("C01", b, "parsing: %s", o.panic)
		return nil
	}
	if o.ok != (st == "ok") {
		rep.add("C01", b, "prescribed: %s %v; the parser: ok=%v %s", st, want["m"], o.ok, o.err)
		return nil
	}
	if !o.ok {
		rep.Rejected++
		if st == "die" {
			rep.Died++
			if m := want["m"].(string); strings.HasPrefix(m, "expect closing") && !strings.Contains(o.err, m) {
				rep.add("C04", b, "the error must say %q: %s", want["m"], o.err)
			}
		}
		return nil
	}
	rep.Accepted++
	if len(rep.Samples) < 3 && len(b) > 40 && len(b) < 400 {
		rep.Samples = append(rep.Samples, string(b))
	}
	tab := posTable(text)
	w := conv(want["v"], tab)
	g := pConfig(o.conf)
	if d := differ(w, g, aspects{tree: true}, "config"); d != "" {
		rep.add("C02", b, "%s", d)
	}
	if d := differ(w, g, aspects{pos: true}, "config"); d != "" {
		rep.add("C03", b, "%s", d)
	}
	if d := differ(w, g, aspects{comments: true}, "config"); d != "" {
		rep.add("C07", b, "%s", d)
	}
	if d := differ(w, g, aspects{comments: true, space: true}, "config"); d != "" {
		rep.add("C06", b, "blank lines recorded at comments: %s", d)
	}
	if len(o.conf.Warnings) > 0 {
		rep.add("C08", b, "warnings without being asked for: %q", o.conf.Warnings)
	}
	ws := prescribedWarnings(want["w"], text, tab)
	if len(ws) > 0 {
		rep.Warned++
	}
	if strings.Contains(string(b), "#") {
		rep.Commented++
	}
	ow := parse(b, config.ExceptionalCommentsWarning(true))
	switch {
	case !ow.ok:
		rep.add("C08", b, "rejected with warnings on: %s%s", ow.err, ow.panic)
	case !equalWarnings(ws, ow.conf.Warnings):
		rep.add("C08", b, "want warnings %q, got %q", ws, ow.conf.Warnings)
	default:
		if d := differ(w, pConfig(ow.conf), aspects{true, true, true, true}, "config"); d != "" {
			rep.add("C08", b, "warnings change the tree: %s", d)
		}
	}
	if !print {
		return nil
	}
	s, p := printed(o.conf)
	if p != "" {
		rep.add("C11", b, "printing: panic: %s", p)
		rep.add("C05", b, "printing: panic: %s", p)
		return nil
	}
	if d := differ(g, pConfig(o.conf), aspects{true, true, true, true}, "config"); d != "" {
		rep.add("C06", b, "printing changes the tree: %s", d)
	}
	if want["x"] == true {
		rep.Inexpressible++ // known finding, see known-findings.txt
		return nil
	}
	fmtWant, _ := codes(want["fmt"])
	if d := layoutDiffer(fmtWant, s); d != "" {
		rep.add("C06", b, "layout: %s", d)
	}
	o2 := parse([]byte(s))
	if o2.ok {
		s2, _ := printed(o2.conf)
		if s2 != s {
			rep.add("C06", b, "formatting twice: %q, then %q", clip(s), clip(s2))
		}
	}
	return encode([]byte(s))
}
