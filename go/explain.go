package main

// How rejections are explained (LSPeg.tla, Reports.tla).

import (
	"encoding/json"
	"flag"
	"fmt"
	"regexp"
	"sort"
	"strings"

	config "github.com/breml/logstash-config"
)

func init() { commands["explain"] = cmdExplain }

type explanation struct {
	E struct {
		St string   `json:"st"`
		I  int      `json:"i"`
		Fs int      `json:"fs"`
		Fe int      `json:"fe"`
		Fm []string `json:"fm"`
		Xp int      `json:"xp"`
		Xs []string `json:"xs"`
	} `json:"e"`
	Plug  bool `json:"plug"`
	Bad   bool `json:"bad"`
	Agree bool `json:"agree"`
}

// places are the positions of the indices, a line break in column 0 of the line
// it begins.
func places(s []int) [][3]int {
	t := posTable(s)
	for i, c := range s {
		if c == '\n' {
			t[i+1][0], t[i+1][1] = t[i+1][0]+1, 0
		}
	}
	return t
}

func (x explanation) farthest(s []int, tab [][3]int) string {
	e := x.E
	if len(e.Fm) == 0 {
		return ""
	}
	var p [3]int
	text := ""
	if e.Fs > 0 {
		p = tab[e.Fs]
		text = string(decode(s[e.Fs-1 : e.Fe-1]))
	}
	out := fmt.Sprintf("Parsing error at pos %d:%d [%d] and [%d] (after: '%s'):\n", p[0], p[1], p[2], tab[e.Fe][2],
		strings.ReplaceAll(text, "\n", "\\n"))
	for _, m := range e.Fm {
		out += "-> " + m + "\n"
	}
	return out
}

func (x explanation) noMatch(tab [][3]int) string {
	var xs []string
	eof := false
	for _, w := range x.E.Xs {
		if w == "!." {
			eof = true
		} else {
			xs = append(xs, w)
		}
	}
	sort.Strings(xs)
	if eof {
		xs = append(xs, "EOF")
	}
	list := xs[len(xs)-1]
	if len(xs) > 1 {
		list = strings.Join(xs[:len(xs)-1], ", ") + " or " + list
	}
	p := tab[x.E.Xp]
	return fmt.Sprintf("f:%d:%d (%d): no match found, expected: %s", p[0], p[1], p[2], list)
}

var (
	inRule   = regexp.MustCompile(`^(f:\d+:\d+ \(\d+\): )(?:rule \w+: )?`)
	badPlace = regexp.MustCompile(`(?m)^f:(\d+):(\d+) \((\d+)\): (?:rule \w+: )?invalid encoding$`)
)

// explain compares one text with its prescribed explanation.
func explain(s []int, x explanation, tab [][3]int) string {
	b := decode(s)
	_, err := config.Parse("f", b)
	if x.Plug {
		// rejected by an action (C01)
		return ""
	}
	far, ok := config.GetFarthestFailure()
	want := x.farthest(s, tab)
	if far != want || ok != (want != "") {
		return fmt.Sprintf("want the farthest failure %q, got %q", want, far)
	}
	if err == nil || strings.Contains(err.Error(), "value out of range") {
		return ""
	}
	got := err.Error()
	if x.Bad {
		for _, m := range badPlace.FindAllStringSubmatch(got, -1) {
			found := false
			for i, c := range s {
				p := tab[i+1]
				found = found || c >= badByte && m[1] == fmt.Sprint(p[0]) && m[2] == fmt.Sprint(p[1]) && m[3] == fmt.Sprint(p[2])
			}
			if !found {
				return fmt.Sprintf("no invalid byte at the place of the error: %s", m[0])
			}
		}
		return ""
	}
	switch x.E.St {
	case "no":
		if want := x.noMatch(tab); got != want {
			return fmt.Sprintf("want the error %q, got %q", want, got)
		}
	case "die":
		p := tab[x.E.I]
		want := fmt.Sprintf("f:%d:%d (%d): %s", p[0], p[1], p[2], x.farthest(s, tab))
		if got := inRule.ReplaceAllString(got, "$1"); got != want {
			return fmt.Sprintf("want the error %q, got %q", want, got)
		}
	}
	return ""
}

func cmdExplain(args []string) {
	fs := flag.NewFlagSet("explain", flag.ExitOnError)
	in := fs.String("in", "", "texts")
	answers := fs.String("answers", "", "explanations")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	texts := readTexts(*in)
	r := report{Counts: map[string]int{}, Violations: map[string]violation{}}
	readLines(*answers, func(i int, m map[string]any) {
		var x explanation
		b, _ := json.Marshal(m)
		if err := json.Unmarshal(b, &x); err != nil {
			fail("%v", err)
		}
		text := decode(texts[i])
		if !x.Agree {
			fail("the machine and the reader of the specification disagree on %q", text)
		}
		r.Evaluations++
		switch x.E.St {
		case "ok":
			r.Accepted++
		case "no":
			r.Rejected++
		default:
			r.Died++
		}
		// a line break stands at the end of its line or, as the parser counts, in
		// column 0 of the next one
		if d := explain(texts[i], x, places(texts[i])); d != "" {
			if explain(texts[i], x, posTable(texts[i])) != "" {
				r.add("C04", text, "%s", d)
			}
		}
		if i%97 == 0 && len(r.Samples) < 3 && len(x.E.Fm) > 0 {
			r.Samples = append(r.Samples, fmt.Sprintf("%q: %s", text, x.farthest(texts[i], places(texts[i]))))
		}
	})
	writeJSON(*out, r)
}
