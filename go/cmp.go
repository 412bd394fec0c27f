package main

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"unicode/utf8"
)

const badByte = 2000000

// encode turns bytes into the text of the specification.
func encode(b []byte) []int {
	out := make([]int, 0, len(b))
	for i := 0; i < len(b); {
		r, w := utf8.DecodeRune(b[i:])
		if r == utf8.RuneError && w <= 1 {
			out = append(out, badByte+int(b[i]))
			i++
			continue
		}
		out = append(out, int(r))
		i += w
	}
	return out
}

func decode(s []int) []byte {
	var b []byte
	for _, c := range s {
		if c >= badByte {
			b = append(b, byte(c-badByte))
		} else {
			b = utf8.AppendRune(b, rune(c))
		}
	}
	return b
}

// positions of the indices 1..n+1 of a text (index 0: no position).
func posTable(s []int) [][3]int {
	t := make([][3]int, len(s)+2)
	line, col, off := 1, 1, 0
	for i, c := range s {
		t[i+1] = [3]int{line, col, off}
		switch {
		case c == '\n':
			line, col, off = line+1, 1, off+1
		case c >= badByte:
			col, off = col+1, off+1
		default:
			col, off = col+1, off+utf8.RuneLen(rune(c))
		}
	}
	t[len(s)+1] = [3]int{line, col, off}
	return t
}

func codes(v any) ([]int, bool) {
	l, ok := v.([]any)
	if !ok {
		return nil, false
	}
	out := make([]int, len(l))
	for i, x := range l {
		f, ok := x.(float64)
		if !ok {
			return nil, false
		}
		out[i] = int(f)
	}
	return out, true
}

// conv turns a value of the specification into the shape of the projection:
// texts into strings and indices into positions.
func conv(v any, tab [][3]int) any {
	switch t := v.(type) {
	case []any:
		out := make(L, len(t))
		for i := range t {
			out[i] = conv(t[i], tab)
		}
		return out
	case map[string]any:
		out := M{}
		for k, x := range t {
			switch k {
			case "x", "n":
				c, _ := codes(x)
				out[k] = string(decode(c))
			case "p", "opp", "op2":
				if tab != nil {
					out[k] = tab[int(x.(float64))]
				} else {
					out[k] = nil
				}
			default:
				out[k] = conv(x, tab)
			}
		}
		return out
	}
	return v
}

type aspects struct{ tree, pos, comments, space bool }

// differ describes the first difference of the prescribed value w and the
// projected value g in the given aspects, or is empty.  (w may be a projected
// value, too.)
func differ(w, g any, a aspects, path string) string {
	switch wt := w.(type) {
	case L:
		gt, ok := g.(L)
		if !ok {
			return fmt.Sprintf("%s: want a list of %d, got %s", path, len(wt), show(g))
		}
		if len(wt) != len(gt) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(wt), len(gt))
		}
		for i := range wt {
			if d := differ(wt[i], gt[i], a, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case M:
		gt, ok := g.(M)
		if !ok {
			return fmt.Sprintf("%s: want %s, got %s", path, show(w), show(g))
		}
		if a.tree {
			for k := range gt {
				if _, ok := wt[k]; !ok {
					return fmt.Sprintf("%s: unexpected %s = %s", path, k, show(gt[k]))
				}
			}
		}
		if wt["t"] != gt["t"] {
			return fmt.Sprintf("%s: want %v, got %v", path, wt["t"], gt["t"])
		}
		for _, k := range sortedKeys(wt) {
			x, y := wt[k], gt[k]
			sub := path + "." + k
			switch k {
			case "p", "opp", "op2":
				if a.pos && x != nil && y != nil && x != y {
					return fmt.Sprintf("%s: want position %v, got %v", sub, x, y)
				}
			case "c", "fc":
				if !a.comments {
					continue
				}
				xl, _ := x.(L)
				yl, _ := y.(L)
				if len(xl) != len(yl) {
					return fmt.Sprintf("%s: want comments %s, got %s", sub, show(x), show(y))
				}
				for i := range xl {
					xc, _ := xl[i].(M)
					yc, _ := yl[i].(M)
					if xc == nil || yc == nil || xc["x"] != yc["x"] || (a.space && (xc["b"] != yc["b"] || xc["a"] != yc["a"])) {
						return fmt.Sprintf("%s: want comments %s, got %s", sub, show(x), show(y))
					}
				}
			case "x":
				if wt["t"] == "number" {
					if lexeme, ok := x.(string); a.tree && (ok && !sameNumber(lexeme, y) || !ok && x != y) {
						return fmt.Sprintf("%s: want number %v, got %v", sub, x, y)
					}
					continue
				}
				if a.tree && x != y {
					return fmt.Sprintf("%s: want %s, got %s", sub, show(x), show(y))
				}
			default:
				if d := differ(x, y, a, sub); d != "" {
					return d
				}
			}
		}
		return ""
	case nil:
		return ""
	default:
		if a.tree && w != g {
			return fmt.Sprintf("%s: want %s, got %s", path, show(w), show(g))
		}
		return ""
	}
}

func sameNumber(lexeme string, g any) bool {
	f, err := strconv.ParseFloat(lexeme, 64)
	if err != nil {
		return false
	}
	switch t := g.(type) {
	case number:
		return f == float64(t)
	case string:
		h, err := strconv.ParseFloat(t, 64)
		return err == nil && f == h
	}
	return false
}

func finiteNumber(lexeme string) bool {
	f, err := strconv.ParseFloat(lexeme, 64)
	return err == nil && !math.IsInf(f, 0)
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v", v)
	}
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

func sortedKeys(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	// insertion sort, the maps are tiny
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j-1] > ks[j]; j-- {
			ks[j-1], ks[j] = ks[j], ks[j-1]
		}
	}
	return ks
}

const numOpen, numClose = -1, -2

var numberRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]*)?`)

// layoutDiffer compares the prescribed layout (in which the spelling of numbers
// is open) with a text.
func layoutDiffer(want []int, got string) string {
	pos := 0
	for i := 0; i < len(want); {
		if want[i] == numOpen {
			j := i
			for want[j] != numClose {
				j++
			}
			lexeme := string(decode(want[i+1 : j]))
			m := numberRe.FindString(got[pos:])
			if m == "" || !sameNumber(lexeme, m) {
				return fmt.Sprintf("at byte %d: want number %s, got %q", pos, lexeme, clip(got[pos:]))
			}
			pos += len(m)
			i = j + 1
			continue
		}
		j := i
		for j < len(want) && want[j] != numOpen {
			j++
		}
		seg := string(decode(want[i:j]))
		if len(got)-pos < len(seg) || got[pos:pos+len(seg)] != seg {
			k := 0
			for k < len(seg) && pos+k < len(got) && seg[k] == got[pos+k] {
				k++
			}
			return fmt.Sprintf("at byte %d: want %q, got %q", pos+k, clip(seg[k:]), clip(got[pos+k:]))
		}
		pos += len(seg)
		i = j
	}
	if pos != len(got) {
		return fmt.Sprintf("at byte %d: want the end, got %q", pos, clip(got[pos:]))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}
