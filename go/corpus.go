package main

import (
	"flag"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	config "github.com/breml/logstash-config"
)

var commands = map[string]func([]string){"gen": cmdGen, "cmp": cmdCmp, "judge": cmdJudge, "strings": cmdStrings, "probe": cmdProbe, "deep": cmdDeep, "history": cmdHistory, "other": cmdOther, "walk": cmdWalk}

// sharder spreads texts over files in_000.json, ... of about equal cost.
type sharder struct {
	dir    string
	shards [][][]int
	load   []int
	seen   map[string]bool
	n, sum int
	max    int
}

func newSharder(dir string, shards, maxChars int) *sharder {
	return &sharder{dir: dir, shards: make([][][]int, shards), load: make([]int, shards), seen: map[string]bool{}, max: maxChars}
}

// add adds a text once; it returns false if the budget is used up.
func (s *sharder) add(b []byte) bool {
	if s.seen[string(b)] {
		return s.sum < s.max
	}
	s.seen[string(b)] = true
	k := 0
	for i := range s.load {
		if s.load[i] < s.load[k] {
			k = i
		}
	}
	s.shards[k] = append(s.shards[k], encode(b))
	s.load[k] += len(b) + 20 + len(b)*len(b)/5000
	s.n++
	s.sum += len(b) + 20
	return s.sum < s.max
}

func (s *sharder) write() {
	for i, t := range s.shards {
		if len(t) > 0 {
			writeJSON(filepath.Join(s.dir, fmt.Sprintf("in_%03d.json", i)), t)
		}
	}
	fmt.Printf("{\"texts\": %d, \"chars\": %d}\n", s.n, s.sum-20*s.n)
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	dir := fs.String("dir", "", "output directory")
	seed := fs.Int64("seed", 1, "seed")
	shards := fs.Int("shards", 8, "number of files")
	kinds := fs.String("kinds", "", "kind:characters,...")
	fs.Parse(args)
	sh := newSharder(*dir, *shards, 0)
	for i, k := range strings.Split(*kinds, ",") {
		var budget int
		name, num, ok := strings.Cut(k, ":")
		if !ok {
			fail("kind %q", k)
		}
		fmt.Sscan(num, &budget)
		f, ok := corpora[name]
		if !ok {
			fail("unknown kind %q", name)
		}
		sh.max = sh.sum + budget
		f(rand.New(rand.NewSource(*seed*1000+int64(i))), sh)
	}
	sh.write()
}

var corpora = map[string]func(r *rand.Rand, sh *sharder){
	"random": func(r *rand.Rand, sh *sharder) {
		for i := 0; ; i++ {
			size := 3 + r.Intn(20)
			if r.Intn(20) == 0 {
				size = 100
			}
			if !sh.add(randomConfig(r, size)) && sh.n > 0 {
				return
			}
		}
	},
	"valid": func(r *rand.Rand, sh *sharder) {
		for {
			g := &gen{r: r, size: 3 + r.Intn(25), valid: true, wild: r.Intn(2) == 0, crlf: r.Intn(6) == 0, simple: r.Intn(3) == 0}
			g.cmt = []int{0, 10, 30}[r.Intn(3)]
			g.config()
			if !sh.add(g.render()) {
				return
			}
		}
	},
	"comments": func(r *rand.Rand, sh *sharder) {
		for {
			g := &gen{r: r, size: 3 + r.Intn(12), valid: true, wild: r.Intn(2) == 0, crlf: r.Intn(4) == 0, simple: r.Intn(2) == 0}
			g.cmt = []int{15, 40, 70}[r.Intn(3)]
			g.config()
			if !sh.add(g.render()) {
				return
			}
		}
	},
	"mutate": func(r *rand.Rand, sh *sharder) {
		for {
			b := randomConfig(r, 2+r.Intn(8))
			for k := 0; k < 4; k++ {
				if !sh.add(mutate(r, b)) {
					return
				}
			}
		}
	},
	"trunc": func(r *rand.Rand, sh *sharder) {
		for {
			b := randomConfig(r, 2+r.Intn(6))
			for i := range b {
				if !sh.add(b[:i]) {
					return
				}
			}
		}
	},
	"bytes": func(r *rand.Rand, sh *sharder) {
		for {
			n := r.Intn(40)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.Intn(256))
				if r.Intn(2) == 0 {
					b[i] = byteBits[r.Intn(len(byteBits))]
				}
			}
			if !sh.add(b) {
				return
			}
		}
	},
	"edits": func(r *rand.Rand, sh *sharder) {
		for {
			b := []byte(seedTexts[r.Intn(len(seedTexts))])
			i := r.Intn(len(b) + 1)
			var m []byte
			switch r.Intn(4) {
			case 0:
				if i == len(b) {
					continue
				}
				m = append(append([]byte{}, b[:i]...), b[i+1:]...)
			case 1, 2:
				m = append(append(append([]byte{}, b[:i]...), mutBits[r.Intn(len(mutBits))]...), b[i:]...)
			default:
				if i == len(b) {
					continue
				}
				m = append(append(append([]byte{}, b[:i]...), mutBits[r.Intn(len(mutBits))]...), b[i+1:]...)
			}
			if !sh.add(m) {
				return
			}
		}
	},
	// literals of all kinds full of backslashes, quotes, line breaks and number
	// signs, in places at all depths: the short ones all, then random ones
	"literals": func(r *rand.Rand, sh *sharder) {
		end := sh.max
		sh.max = sh.sum + (end-sh.sum)/2
		for n := 0; n < 4; n++ {
			idx := make([]int, n)
			for k := 0; k >= 0; {
				var b strings.Builder
				for _, i := range idx {
					b.WriteString(shortBits[i])
				}
				for i, f := range []string{"input{a1{b1=>\"%s\"}}", "input{a1{b1=>'%s'}}", "filter{if[a]=~/%s/{}}"} {
					if n < 3 || r.Intn(4) == 0 || i == 1 && r.Intn(2) == 0 {
						sh.add([]byte(fmt.Sprintf(f, b.String())))
					}
				}
				for k = n - 1; k >= 0; k-- {
					if idx[k]++; idx[k] < len(shortBits) {
						break
					}
					idx[k] = 0
				}
			}
		}
		for sh.max = end; ; {
			var b strings.Builder
			in := r.Intn(4)
			b.WriteString("filter{" + rep("if[i]{", in))
			for n := 1 + r.Intn(2); n > 0; n-- {
				for _, x := range literalPlaces[r.Intn(len(literalPlaces))] {
					switch x {
					case '$':
						q := []string{"\"", "'"}[r.Intn(2)]
						b.WriteString(q + literal(r, q) + q)
					case '%':
						b.WriteString("/" + literal(r, "/") + "/")
					case '@':
						for n := 1 + r.Intn(2); n > 0; n-- {
							b.WriteString("[" + strings.NewReplacer("[", "", "]", "", ",", "").Replace(literal(r, "\"")) + "x]")
						}
					default:
						b.WriteRune(x)
					}
				}
				b.WriteString("\n")
			}
			b.WriteString(rep("}", in+1))
			if !sh.add([]byte(b.String())) {
				return
			}
		}
	},
	"seeds": func(r *rand.Rand, sh *sharder) {
		for _, s := range seedTexts {
			sh.add([]byte(s))
		}
	},
	"tokens": func(r *rand.Rand, sh *sharder) {
		for {
			c := tokenContexts[r.Intn(len(tokenContexts))]
			n := 1 + r.Intn(7)
			var b strings.Builder
			b.WriteString(c.pre)
			for i := 0; i < n; i++ {
				b.WriteString(c.toks[r.Intn(len(c.toks))])
			}
			b.WriteString(c.post)
			if !sh.add([]byte(b.String())) {
				return
			}
		}
	},
	"deep": func(r *rand.Rand, sh *sharder) {
		for _, n := range []int{8, 30, 75} {
			for _, d := range deepTexts(n) {
				sh.add([]byte(d))
			}
		}
	},
	// long constructs, then texts of more than 64 KB
	"long": func(r *rand.Rand, sh *sharder) {
		budget := sh.max - sh.sum
		for _, d := range longTexts(r) {
			sh.add([]byte(d))
		}
		for end := sh.sum + budget; sh.sum < end; {
			var b strings.Builder
			for n := 66000 + r.Intn(3000); b.Len() < n; {
				g := &gen{r: r, size: 20 + r.Intn(25), valid: true, wild: r.Intn(4) == 0, crlf: r.Intn(6) == 0, simple: r.Intn(3) == 0}
				g.cmt = []int{0, 10, 30}[r.Intn(3)]
				g.config()
				d := g.render()
				if _, err := config.Parse("", d); err == nil && len(d) > 0 {
					b.Write(d)
					b.WriteString("\n")
				}
			}
			sh.add([]byte(b.String()))
		}
	},
	// long constructs without their end
	"cut": func(r *rand.Rand, sh *sharder) {
		for _, d := range longTexts(r) {
			sh.add([]byte(d[:len(d)-1]))
		}
	},
	// every token sequence up to a length given by the budget
	"alltokens": func(r *rand.Rand, sh *sharder) {
		for n := 0; n < 6; n++ {
			for _, c := range tokenContexts {
				idx := make([]int, n)
				for {
					var b strings.Builder
					b.WriteString(c.pre)
					for _, i := range idx {
						b.WriteString(c.toks[i])
					}
					b.WriteString(c.post)
					if !sh.add([]byte(b.String())) {
						return
					}
					k := n - 1
					for ; k >= 0; k-- {
						idx[k]++
						if idx[k] < len(c.toks) {
							break
						}
						idx[k] = 0
					}
					if k < 0 {
						break
					}
				}
			}
		}
	},
}

var (
	shortBits     = []string{"\\", "\"", "'", "\n", "#", "/", "x"}
	literalBits   = []string{"\\\\", "\\", "Q", "\\Q", "\"", "'", "\n", "\n  ", "\r\n", "#", "/", "\\/", "x", " ", "é", "\\n", "{", "]", "\t", "\n\n"}
	literalPlaces = []string{
		"p1{b1=>$}", "p1{b1=>$ c1=>$}", "p1{b1=>[$,$]}", "p1{b1=>{$=>$ x1=>$}}", "p1{$=>$}", "$ {}", "p1{b1=>c1{d1=>$}}", "p1{b1=>[{x1=>[$]}]}",
		"if $ in [a]{}", "if [a]==$ and $!=[b]{p1{b1=>$}}", "if [a]in[$,$]{}", "if [a] not in [b] or ($==[c]){}else if [a]==$ {}else{$ {b1=>$}}",
		"if !([a]==$){}", "p1{b1=>$}# it's \"\n p1{b1=>$}", "# '\n p1{b1=>$ # \"\n}",
		"if @{p1{b1=>$}}", "if $ in @ and ![y]{}", "if @=~%{}", "if @==$ or @!~%{}else if !@{}", "if @ in [$,1] nand $ not in @{$ {$=>$}}",
	}
)

// literal gives what stands between the quotes of a literal, most of the time
// one that ends where it should.
func literal(r *rand.Rand, q string) string {
	var t string
	for n := r.Intn(9); n > 0; n-- {
		x := strings.Replace(literalBits[r.Intn(len(literalBits))], "Q", q, 1)
		if x == q && !strings.HasSuffix(t, "\\") && r.Intn(40) > 0 { // it would end here
			x = "\\" + x
		}
		t += x
	}
	if strings.HasSuffix(t, "\\") && r.Intn(20) > 0 { // it would not end
		t += "."
	}
	return t
}

type tokenContext struct {
	pre, post string
	toks      []string
}

var tokenContexts = []tokenContext{
	{"", "", []string{"input", "filter ", "output{", "{", "}", "# c\n", "#", "\n", "\r\n", " ", "a{", "if"}},
	{"input{", "}", []string{"a", "b{", "{", "}", " ", "# c\n", "if[x]", "if", "else", "else if[y]", "\"s\"", "x=>1", "in", "\n\n"}},
	{"input{a{", "}}", []string{"b", "c=>", "=>", "1", "-2.5", "\"s\"", "'t'", "{", "}", "[", "]", ",", " ", "# c\n", "\n", "bare", "d{", "/"}},
	{"input{a{b=>[", "]}}", []string{"x1", "1", "-", ".", ",", "[", "]", "{", "}", " ", "# c\n", "\"s\"", "'", "=>", "p{"}},
	{"input{a{b=>{", "}}}", []string{"x1", "1", "=>", "[", "]", "{", "}", " ", "# c\n", "\"s\"", "'", ",", "\n", "y_", "-"}},
	{"filter{if", "{}}", []string{"[a]", "[b][c]", " ", "in", "not in", "not ", "==", "!=", "<", "<=", ">", "=~", "!~", "=", "!", "(", ")", "and", "or", "xor", "nand", "\"s\"", "1", "/r/", "[1,2]", "# c\n", "{}", "]", "["}},
	{"filter{if[a]{", "}}", []string{"}", "{", "else", "else if", "[b]", " ", "# c\n", "p{}", "if", "if[c]{", "x=>1"}},
	{"output{if[a]{}", "}", []string{"else", " ", "if", "[b]", "{", "}", "{}", "# c\n", "p{}", "(", ")", "!"}},
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func deepTexts(n int) []string {
	return []string{
		"input{a{b=>" + rep("[", n) + rep("]", n) + "}}",
		"input{a{b=>" + rep("[1,[", n) + rep("]]", n) + "}}",
		"input{a{b=>" + rep("{c1=>", n) + "1" + rep("}", n) + "}}",
		"input{a{" + rep("b=>c{", n) + rep("}", n) + "}}",
		"filter{if " + rep("(", n) + "[a]" + rep(")", n) + "{}}",
		"filter{if " + rep("!(", n) + "[a]" + rep(")", n) + "{}}",
		"filter{" + rep("if[a]{", n) + rep("}", n) + "}",
		"filter{" + rep("if[a]{b{}}else{", n) + rep("}", n) + "}",
		"filter{if[a]{}" + rep("else if[b]{}", n) + "else{}}",
		"filter{if[a]" + rep("and[b]", n) + "{}}",
		"filter{if" + rep("[a]", n) + "{}}",
		"filter{if[a]in" + rep("[1,[", n) + rep("]]", n) + "{}}",
		rep("input{}", n),
		rep("# c\n", n) + "input{}" + rep("\n#d", n),
		"input{" + rep("a{}", n) + "}",
		"input{a{" + rep("b=>1 ", n) + "}}",
		"input{a{b=>[" + rep("1,", n) + "1]}}",
		"input{a{b=>{" + rep("c1=>1 ", n) + "}}}",
		"input{a{b=>\"" + rep("x\\\"", n) + "\"}}",
		"input{a{b=>" + rep("[", n) + "}}",
		"filter{if" + rep("(", n) + "{}}",
		"input{a{b=>" + rep("1", 15) + "." + rep("1", n) + "}}",
	}
}

func longTexts(r *rand.Rand) []string {
	n := func(k int) int { return k + r.Intn(k/8) }
	seq := func(k int, f string) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, f, i)
		}
		return b.String()
	}
	return []string{
		"input{" + seq(n(520), "a%d{}\n") + "}",
		"input{a{" + seq(n(520), "b%d=>1\n") + "}}",
		"input{a{b=>[" + seq(n(700), "%d,") + "1]}}",
		"input{a{b=>{" + seq(n(520), "%d=>1 ") + "1=>2}}}",
		"filter{if[a]" + seq(n(520), "and[b%d]") + "{}}",
		"filter{if[a]" + seq(n(300), "==%d\nor[b]") + "{}}",
		"filter{if[a]{}" + seq(n(520), "else if[b]==%d{}") + "else{}}",
		"filter{" + seq(n(280), "if[a%d]{b{}}else{}") + "}",
		"filter{if" + seq(n(700), "[%d]") + "{}}",
		seq(n(520), "input{a%d{}}"),
		seq(n(520), "filter{a%d{}}output{}"),
		seq(n(520), "# c %d\n\n") + "input{" + seq(n(520), "# d %d\n") + "}" + seq(n(520), "\n#e%d"),
		"input{a{b=>\"" + rep("é\\\"x\ny", n(560)) + "\" c=>" + rep("1", 300) + "}}",
		"input{a{b=>'" + rep("xy\\ ", n(1050)) + "' \"" + rep("k", n(4100)) + "\"=>1}}",
		"input{" + rep("nm-1", n(1050)) + "{" + rep("at_2", n(300)) + "=>" + rep("bw_3", n(1050)) + "}}",
		"filter{if[a]=~/" + rep("x\\/𝄞", n(300)) + "/ and[" + rep("sél ", n(1050)) + "]{}}",
		"# " + rep("c é", n(1400)) + "\ninput" + rep(" \n\t", n(1400)) + "{" + rep(" ", n(4100)) + "a{}#" + rep("x", n(4100)) + "\n}",
		"input{a{b=>" + rep("1", 200) + "." + rep("1", n(4100)) + "}}",
		"filter{if" + rep(" \t", n(300)) + "[a]#" + rep("w", n(300)) + "\n==" + rep("\r\n", n(300)) + "1{}}",
	}
}

// seedTexts hold every construct with every optional part.
var seedTexts = []string{
	"# h\n\ninput { # c\n stdin { } }\n# g\nfilter{}output { a{b=>1} }\n# f\n",
	"input {\n  beats {\n    port => 5044\n    \"host\" => '0.0.0.0'\n  }\n}\n",
	"input { tcp { codec => json { charset => \"UTF-8\" } id => tcp_1 ssl => true } }",
	"filter { mutate { add_field => { \"a\" => \"b\" 1 => 2.5 bare => [ ] x1 => { } } } }",
	"filter { mutate { add_tag => [ \"a\", 'b', c_c, 1, [ 2 ], { d_d => -3 } ] } }",
	"filter { if [a] { b { } } else if [c] == 1 { d { } } else { e { } } }",
	"filter { if [a][b] in [ \"x\", 'y' ] and \"z\" not in [q] { } }",
	"filter { if ( [a] =~ /b\\/c/ or [d] !~ \"e\" ) xor !( [f] != 2 ) nand ![g] { h { } } }",
	"filter { if 1 <= [a] and [b] >= 2 and [c] < 3 and [d] > -4.5 and /r/ { } }",
	"filter { if [a] { if [b] { c { } } else { # x\n } } # y\n else if \"s\" { } # z\n else { d { } } }",
	"output { # a\n s { # b\n c => d_1 # e\n\n # f\n g => [ # h\n 1, # i\n 2 # j\n ] # k\n l => { # m\n n_n => 1 # o\n \"p\" => 2 # q\n } # r\n } # t\n }",
	"output # 1\n { s # 2\n { a # 3\n => # 4\n 1 b => [ 1 # 5\n , 2 ] c => { d_d # 6\n => # 7\n 1 } } }",
	"filter { if # 1\n ( # 2\n [a] # 3\n == # 4\n 1 # 5\n ) # 6\n and # 7\n ! # 8\n ( # 9\n [b] # 10\n ) # 11\n or ! # 12\n [c] # 13\n { } else # 14\n if # 15\n [d] # 16\n in # 17\n [e] # 18\n { } else # 19\n { } }",
	"filter { if [a] not # 1\n in # 2\n [b] or [c] =~ # 3\n /d/ # 4\n { } }",
	"filter { if [a] == 'it''s' { b { c => \"q\\\"r\" d => 's\\'t' } } }",
	"input{a{b=>c{d=>e{f=>[{g_g=>[1,{h_h=>i_i}]}]}}}}",
	"input { \"quoted name\" { 'k 1' => \"multi\nline\" } x-y_2 { } }",
	"input{}\r\n# a\r\n\r\nfilter\t{\r\n\tb {\r\n\t\tc => 1\r\n\t}\r\n}\r\n",
	"filter { if [1, 2] in [[a], 3] { } if [\"x\"] == ['y', z_z] { } }",
	"",
	" \n",
	"# only a comment",
	"input{é",
	"input{a{b=>\"é世𝄞\" \"世\"=>'𝄞'}} # é",
}

const byteBits = " {}[]()\"'/#\n=><!~,\\-.0aif"
