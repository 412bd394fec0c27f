package main

import (
	"encoding/json"
	"flag"
	"os"
	"strconv"
)

// cmdJudge reads what RoundTrip.tla says about recorded pairs of a text and the
// text printed for it.
func cmdJudge(args []string) {
	fs := flag.NewFlagSet("judge", flag.ExitOnError)
	in := fs.String("in", "", "pairs")
	answers := fs.String("answers", "", "what the specification says")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	b, err := os.ReadFile(*in)
	if err != nil {
		fail("%v", err)
	}
	var pairs [][2][]int
	if err := json.Unmarshal(b, &pairs); err != nil {
		fail("%s: %v", *in, err)
	}
	n := 0
	readLines(*answers, func(i int, m map[string]any) {
		n++
		s, p := decode(pairs[i][0]), decode(pairs[i][1])
		rep.Evaluations++
		switch m["st"] {
		case "rejected":
			// acceptance is judged elsewhere
		case "invalid":
			rep.add("C05", s, "formatted to %q, which is no valid configuration", clip(string(p)))
			rep.add("C07", s, "formatted to %q, which is no valid configuration", clip(string(p)))
		case "ok":
			if m["same"] != true {
				rep.add("C05", s, "formatted to %q, which means something else", clip(string(p)))
			} else if d := differNumbers(m["na"], m["nb"]); d != "" {
				rep.add("C05", s, "formatted to %q: %s", clip(string(p)), d)
			}
			if m["cmt"] != true && m["same"] == true {
				rep.add("C07", s, "formatted to %q, which holds other comments", clip(string(p)))
			}
		default:
			fail("%s: unknown answer %v", *answers, m)
		}
	})
	if n != len(pairs) {
		fail("%s: %d pairs, %d answers", *in, len(pairs), n)
	}
	writeJSON(*out, rep)
}

func differNumbers(a, b any) string {
	as, bs := a.([]any), b.([]any)
	if len(as) != len(bs) {
		return "another count of numbers"
	}
	for i := range as {
		ca, _ := codes(as[i])
		cb, _ := codes(bs[i])
		x, e1 := strconv.ParseFloat(string(decode(ca)), 64)
		y, e2 := strconv.ParseFloat(string(decode(cb)), 64)
		if e1 == nil && e2 == nil && x != y {
			return "number " + string(decode(ca)) + " became " + string(decode(cb))
		}
	}
	return ""
}
