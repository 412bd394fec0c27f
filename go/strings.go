package main

import (
	"flag"
	"fmt"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

var quoteTypes = map[string]ast.StringAttributeType{"dq": ast.DoubleQuoted, "sq": ast.SingleQuoted, "bare": ast.Bareword}

func text(v any) string {
	c, ok := codes(v)
	if !ok {
		fail("no text: %v", v)
	}
	return string(decode(c))
}

func guarded(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// cmdStrings replays the states of Strings.tla on package astutil.
func cmdStrings(args []string) {
	fs := flag.NewFlagSet("strings", flag.ExitOnError)
	answers := fs.String("answers", "", "states of Strings.tla")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	readLines(*answers, func(i int, m map[string]any) {
		x := text(m["x"])
		rep.Evaluations++
		if e, got := text(m["e"]), guarded(func() string { return astutil.Escape(x) }); e != got {
			rep.add("C13", []byte(x), "Escape: want %q, got %q", e, got)
		}
		if u, got := text(m["u"]), guarded(func() string { return astutil.Unescape(x) }); u != got {
			rep.add("C13", []byte(x), "Unescape: want %q, got %q", u, got)
		}
		if got := guarded(func() string { return astutil.Unescape(astutil.Escape(x)) }); got != x {
			rep.add("C13", []byte(x), "Unescape(Escape(x)) = %q", got)
		}
		for k, t := range quoteTypes {
			want := text(m["w"].(map[string]any)[k])
			valid := m["q"].(map[string]any)[k].(bool)
			got := guarded(func() string {
				q, err := astutil.Quote(x, t)
				if err != nil {
					if q != "" {
						return fmt.Sprintf("an error together with %q", q)
					}
					return "error"
				}
				return "=" + q
			})
			if valid && got != "="+want {
				rep.add("C14", []byte(x), "Quote %s: want %q, got %q", k, want, got)
			}
			if !valid && got != "error" {
				rep.add("C14", []byte(x), "Quote %s: want an error, got %q", k, got)
			}
			if m["r"].(map[string]any)[k] == true {
				want := text(m["qe"].(map[string]any)[k])
				if got := guarded(func() string { return astutil.QuoteWithEscape(x, t) }); got != want {
					rep.add("C14", []byte(x), "QuoteWithEscape %s: want %q, got %q", k, want, got)
				}
			}
			if valid {
				rep.Accepted++
			} else {
				rep.Rejected++
			}
		}
		if len(x) > 6 && len(rep.Samples) < 3 {
			rep.Samples = append(rep.Samples, x)
		}
	})
	writeJSON(*out, rep)
}
