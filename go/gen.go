package main

// Generation of texts.  The texts are only questions; the answers come from
// the specification.

import (
	"bytes"
	"math/rand"
	"strings"
)

type tok struct {
	s   string
	gap int // before the token: 0 nothing, 1 optional gap, 2 gap that starts with white space, 3 blank only after "not"
}

type gen struct {
	r      *rand.Rand
	ts     []tok
	size   int  // rough number of constructs left
	wild   bool // wild gaps and literals
	cmt    int  // percent of gaps with comments
	crlf   bool
	valid  bool // only texts that are meant to be accepted
	simple bool // calm literals
}

func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) p(percent int) bool      { return g.r.Intn(100) < percent }
func (g *gen) pick(a ...string) string { return a[g.n(len(a))] }

func (g *gen) t(s string, gap int) { g.ts = append(g.ts, tok{s, gap}) }

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"

func (g *gen) word(chars string, min, max int) string {
	n := min + g.n(max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[g.n(len(chars))]
	}
	return string(b)
}

func (g *gen) name() string {
	switch g.n(12) {
	case 0:
		return g.word(nameChars, 1, 5)
	case 1:
		return g.pick("if", "else", "in", "not", "and", "or", "input", "filter", "output", "iffy", "elsewhere", "android", "0", "9", "-", "_", "a", "Z", "z", "A", "x-1", "2x")
	case 2:
		return g.str()
	default:
		return g.pick("mutate", "add_field", "id", "stdin", "grok", "match", "codec", "tag", "port", "host", "k", "date", "drop")
	}
}

func (g *gen) bareword() string {
	if g.p(30) {
		return g.word("abcxyzABCXYZ_", 1, 1) + g.word("abcxyzABCXYZ_0189", 1, 4)
	}
	if g.p(20) {
		return g.pick("if", "else", "in", "input", "or", "not", "nand", "__", "Az", "zA", "a0", "_9")
	}
	return g.pick("json", "true", "plain", "info", "utf_8")
}

var litBits = []string{"a", "b c", "foo", " ", "", "\\", "\\\\", "\\n", "#", "# x", "{", "}", "[", "]", "(", ")", "=>", ",", "'", "\"", "/", "\\\"", "\\'", "\\/", "\n", "\r\n", "\t", "\n  ", "é", "世", "𝄞", "%{x}", "0", "\x01", "\u2028", "if", "\n\n", "input {", "*", ".", "~", "!", "?", "\x7f"}

func (g *gen) lit(q byte) string {
	var b strings.Builder
	n := g.n(4)
	if g.p(5) {
		n = 30
	}
	for i := 0; i < n; i++ {
		s := litBits[g.n(len(litBits))]
		if g.simple {
			s = g.pick("a", "foo", " ", "1", "x.y", "%{z}")
		}
		if strings.ContainsRune(s, rune(q)) && !strings.HasPrefix(s, "\\") {
			s = "\\" + s
		}
		b.WriteString(s)
	}
	s := b.String()
	if strings.HasSuffix(s, "\\") && (g.valid || g.p(90)) {
		s += "."
	}
	return string(q) + s + string(q)
}

func (g *gen) str() string {
	if g.p(50) {
		return g.lit('"')
	}
	return g.lit('\'')
}

func (g *gen) number() string {
	switch g.n(8) {
	case 0:
		return g.pick("", "-") + g.word("0123456789", 1, 12)
	case 1:
		return g.pick("", "-") + g.word("0123456789", 1, 5) + "." + g.word("0123456789", 0, 12)
	case 2:
		return g.pick("0", "-0", "00", "1.", "007", "1.50", "0.1", "-0.0", "0.00001", "0.0000000001", "0.00000000001", "1000000", "1000000000000000000000", "123456.789", "0.000012345678912", "2147483648", "4294967296.5", "99999999.0000001", "100000000000000000000000000.5", "21474836470000", "9007199254740992")
	default:
		return g.pick("1", "2", "10", "443", "3.14", "-1")
	}
}

func (g *gen) selector() string {
	var b strings.Builder
	n := 1
	for g.p(35) && n < 4 {
		n++
	}
	for i := 0; i < n; i++ {
		s := g.pick("a", "foo", "type", "@timestamp", "x y", "0")
		if !g.simple && g.p(20) {
			s = g.pick("\"", "'", "it's", "a/b", "#", "a#b", "\n", "a\nb", " ", "é", "{", "}", "=>", "(", "\\", "\t", "\r\n", "# c\n\"y\"\n", "\n  \"y\"\n", "世")
		}
		b.WriteString("[" + s + "]")
	}
	return b.String()
}

func (g *gen) use() bool { g.size--; return g.size > 0 }

// value at gap; kinds: in array or hash no plugin
func (g *gen) value(gap int, plugin bool, depth int) {
	k := g.n(13)
	if depth > 5 {
		k = g.n(9)
	}
	switch {
	case k < 2:
		g.t(g.bareword(), gap)
	case k < 5:
		g.t(g.str(), gap)
	case k < 7:
		g.t(g.number(), gap)
	case k < 9 || k == 10:
		g.array(gap, depth)
	case k == 9 || k == 11:
		g.hash(gap, depth)
	default:
		if plugin || (!g.valid && g.p(5)) {
			g.plugin(gap, depth+1)
		} else {
			g.t(g.str(), gap)
		}
	}
}

func (g *gen) array(gap, depth int) {
	g.t("[", gap)
	n := g.n(4)
	if g.p(20) {
		n = 0
	}
	for i := 0; i < n && g.use(); i++ {
		if i > 0 {
			g.t(",", 1)
		}
		g.value(1, false, depth+1)
	}
	if !g.valid && g.p(2) {
		g.t(",", 1)
	}
	g.t("]", 1)
}

func (g *gen) hash(gap, depth int) {
	g.t("{", gap)
	n := g.n(4)
	if g.p(20) {
		n = 0
	}
	for i := 0; i < n && g.use(); i++ {
		gp := 2
		if i == 0 {
			gp = 1
		}
		switch g.n(4) {
		case 0:
			g.t(g.number(), gp)
		case 1:
			g.t(g.bareword(), gp)
		default:
			g.t(g.str(), gp)
		}
		g.t("=>", 1)
		g.value(1, false, depth+1)
	}
	g.t("}", 1)
}

func (g *gen) plugin(gap, depth int) {
	g.t(g.name(), gap)
	g.t("{", 1)
	n := g.n(4)
	for i := 0; i < n && g.use(); i++ {
		gp := 2
		if i == 0 {
			gp = 1
		}
		g.t(g.name(), gp)
		g.t("=>", 1)
		g.value(1, true, depth+1)
	}
	g.t("}", 1)
}

func (g *gen) rvalue(gap, depth int) {
	switch g.n(8) {
	case 0, 1:
		g.t(g.str(), gap)
	case 2:
		g.t(g.number(), gap)
	case 3, 4, 5:
		g.t(g.selector(), gap)
	case 6:
		g.array(gap, depth+1)
	default:
		g.t(g.lit('/'), gap)
	}
}

func (g *gen) expr(gap, depth int) {
	k := g.n(12)
	if depth > 4 && k < 3 {
		k = 3
	}
	switch k {
	case 0:
		g.t("(", gap)
		g.cond(1, depth+1)
		g.t(")", 1)
	case 1:
		g.t("!", gap)
		g.t("(", 1)
		g.cond(1, depth+1)
		g.t(")", 1)
	case 2:
		g.t("!", gap)
		g.t(g.selector(), 1)
	case 3, 4:
		g.rvalue(gap, depth)
		g.t("in", 1)
		g.rvalue(1, depth)
	case 5:
		g.rvalue(gap, depth)
		g.t("not", 1)
		g.t("in", 3)
		g.rvalue(1, depth)
	case 6, 7:
		g.rvalue(gap, depth)
		g.t(g.pick("==", "!=", "<=", ">=", "<", ">"), 1)
		g.rvalue(1, depth)
	case 8, 9:
		g.rvalue(gap, depth)
		g.t(g.pick("=~", "!~"), 1)
		if g.p(30) {
			g.t(g.str(), 1)
		} else {
			g.t(g.lit('/'), 1)
		}
	default:
		g.rvalue(gap, depth)
	}
}

func (g *gen) cond(gap, depth int) {
	g.expr(gap, depth)
	for g.p(30) && g.use() {
		g.t(g.pick("and", "or", "xor", "nand"), 1)
		g.expr(1, depth)
	}
}

func (g *gen) block(depth int) {
	g.t("{", 1)
	n := g.n(3)
	for i := 0; i < n && g.use(); i++ {
		g.bop(depth + 1)
	}
	g.t("}", 1)
}

func (g *gen) bop(depth int) {
	if g.p(45) && depth < 7 {
		g.t("if", 1)
		g.cond(1, 0)
		g.block(depth)
		for g.p(30) && g.use() {
			g.t("else", 1)
			g.t("if", 1)
			g.cond(1, 0)
			g.block(depth)
		}
		if g.p(35) {
			g.t("else", 1)
			g.block(depth)
		}
		return
	}
	g.plugin(1, 0)
}

func (g *gen) config() {
	n := 1 + g.n(3)
	if g.p(10) {
		n = 1 + g.n(7)
	}
	if g.p(2) {
		n = 0
	}
	for i := 0; i < n; i++ {
		g.t(g.pick("input", "filter", "output"), 1)
		g.t("{", 1)
		for k := g.n(4); k > 0 && g.use(); k-- {
			g.bop(0)
		}
		g.t("}", 1)
	}
	g.t("", 1)
}

var cmtBits = []string{"c", " c", "  two words  ", "", " ", "#", " it's", " \"q", " a } ]", "é", "\t", " x\t", " /", " { input", ",", "]", " =>", "世", "\\"}

func (g *gen) gap() string {
	var b strings.Builder
	nl := "\n"
	if g.crlf {
		nl = "\r\n"
	}
	n := 0
	for g.p(g.cmt) && n < 4 {
		n++
		if g.p(70) {
			b.WriteString(g.pick(" ", nl, nl+"  ", nl+nl, "\t", nl+nl+nl, " "+nl+" ", nl+" \t"+nl, "\r", "  "))
		}
		b.WriteString("#" + cmtBits[g.n(len(cmtBits))])
		b.WriteString(g.pick(nl, nl, nl, nl, "\n", "\r\n"))
	}
	if g.wild {
		if g.p(60) {
			b.WriteString(g.pick(" ", nl, nl+"  ", nl+nl, "\t", "  ", "\r", " "+nl+nl+" ", nl+nl+nl))
		}
	} else if g.p(85) {
		b.WriteString(g.pick(" ", " ", " ", nl, nl+"  "))
	}
	return b.String()
}

func wordy(c byte) bool { return strings.IndexByte(nameChars, c) >= 0 }

func (g *gen) render() []byte {
	var b bytes.Buffer
	for i, t := range g.ts {
		s := ""
		if t.gap > 0 {
			s = g.gap()
		}
		if t.gap == 3 {
			s = " " + s
		}
		if t.gap == 2 && (s == "" || s[0] == '#') {
			if g.valid || g.p(80) {
				s = g.pick(" ", "\n", "\t", "\r\n") + s
			}
		}
		if t.gap == 1 && s == "" && i > 0 && t.s != "" && b.Len() > 0 {
			last := b.Bytes()[b.Len()-1]
			if wordy(last) && wordy(t.s[0]) && g.p(97) {
				s = " "
			}
			if last == ']' && t.s[0] == '[' && g.p(90) {
				s = " "
			}
		}
		b.WriteString(s)
		b.WriteString(t.s)
	}
	if g.p(20) {
		return bytes.TrimRight(b.Bytes(), "\r\n")
	}
	return b.Bytes()
}

// randomConfig returns a text that is mostly accepted.
func randomConfig(r *rand.Rand, size int) []byte {
	g := &gen{r: r, size: size}
	g.wild = g.p(50)
	g.cmt = []int{0, 5, 15, 30, 50}[g.n(5)]
	g.crlf = g.p(20)
	g.valid = g.p(90)
	g.simple = g.p(40)
	g.config()
	return g.render()
}

var mutBits = []string{"{", "}", "[", "]", "(", ")", "\"", "'", "/", "#", "\n", "\r", "\t", " ", ",", "=>", "=", ">", "<", "!", "~", "\\", "-", ".", "0", "9", "a", "z", "A", "Z", "_", "if", "else", "in", "not in", "and", "or", "xor", "nand", "input", "filter", "output", "==", "=~", "!~", "<=", "é", "世", "𝄞", "\x00", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\ufeff", "\u00a0", "\u2028", "\v", "\f", "@", "`", "^", ":", "%", "|", "&", "+", "*", ";", "$", "?"}

func mutate(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	k := 1
	for r.Intn(4) == 0 {
		k++
	}
	for ; k > 0; k-- {
		if len(out) == 0 {
			return []byte(mutBits[r.Intn(len(mutBits))])
		}
		i := r.Intn(len(out))
		switch r.Intn(8) {
		case 0: // delete one byte
			out = append(out[:i], out[i+1:]...)
		case 1: // delete a range
			j := i + 1 + r.Intn(12)
			if j > len(out) {
				j = len(out)
			}
			out = append(out[:i], out[j:]...)
		case 2, 3, 4: // insert
			m := mutBits[r.Intn(len(mutBits))]
			out = append(out[:i], append([]byte(m), out[i:]...)...)
		case 5: // replace one byte
			m := mutBits[r.Intn(len(mutBits))]
			out = append(out[:i], append([]byte(m), out[i+1:]...)...)
		case 6: // truncate
			out = out[:i]
		case 7: // duplicate a range
			j := i + 1 + r.Intn(20)
			if j > len(out) {
				j = len(out)
			}
			out = append(out[:j], append(append([]byte{}, out[i:j]...), out[j:]...)...)
		}
	}
	return out
}
