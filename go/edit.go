package main

// Edits of configurations that were read (Edit.tla): the text is parsed, the
// steps are made on the tree, and what it prints is compared and parsed again.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

func init() { commands["edit"] = cmdEdit }

type pieces struct{ nodes, attrs, conds, values, keys, comments []string }

func readPieces(name string) (p pieces) {
	b, err := os.ReadFile(name)
	if err != nil {
		fail("%v", err)
	}
	var m map[string][]any
	if err := json.Unmarshal(b, &m); err != nil {
		fail("%v", err)
	}
	texts := func(k string) (out []string) {
		for _, x := range m[k] {
			out = append(out, mtext(x))
		}
		return out
	}
	return pieces{texts("nodes"), texts("attrs"), texts("conds"), texts("values"), texts("keys"), texts("comments")}
}

type editStep struct {
	Op  string  `json:"op"`
	Pt  string  `json:"pt"`
	K   int     `json:"k"`
	A   int     `json:"a"`
	Es  []edit1 `json:"es"`
	Pa  []int   `json:"path"`
	Ed1 edit1   `json:"e"`
}

type edit1 struct {
	Op string `json:"op"`
	V  int    `json:"v"`
	A  int    `json:"a"`
	I  int    `json:"i"`
	J  int    `json:"j"`
}

// What is inserted is read, too, anew for each use.
func readNode(text string) ast.BranchOrPlugin {
	v, err := config.Parse("", []byte("filter{"+text+"}"))
	if err != nil {
		panic(fmt.Sprintf("the piece %q is rejected: %v", text, err))
	}
	return v.(ast.Config).Filter[0].BranchOrPlugins[0]
}

func readAttr(text string) ast.Attribute {
	return readNode("pp{" + text + "}").(ast.Plugin).Attributes[0]
}

// An element of an array is a value without a name.
func readValue(text string) ast.Attribute {
	return readAttr("aa=>[" + text + "]").(ast.ArrayAttribute).Attributes[0]
}

func (p pieces) node(a int) ast.BranchOrPlugin { return readNode(p.nodes[a-1]) }
func (p pieces) attr(a int) ast.Attribute      { return readAttr(p.attrs[a-1]) }
func (p pieces) value(a int) ast.Attribute     { return readValue(p.values[a-1]) }
func (p pieces) cond(a int) ast.Condition {
	return readNode("if " + p.conds[a-1] + "{}").(ast.Branch).IfBlock.Condition
}
func (p pieces) comment(a int) ast.Comment { return ast.NewComment(p.comments[a-1], false) }
func (p pieces) key(a int) ast.HashEntryKey {
	return readAttr("aa=>{" + p.keys[a-1] + "=>1}").(ast.HashAttribute).Entries[0].Key
}

func (p pieces) plugin(x *ast.Plugin, e edit1) {
	switch e.Op {
	case "attr":
		x.Attributes = append(x.Attributes, p.attr(e.A))
	case "first":
		x.Attributes = append([]ast.Attribute{p.attr(e.A)}, x.Attributes...)
	case "setattr":
		x.Attributes[e.I-1] = p.attr(e.A)
	case "dropattr":
		x.Attributes = append(x.Attributes[:e.I-1], x.Attributes[e.I:]...)
	case "elem", "unelem":
		a := x.Attributes[e.I-1].(ast.ArrayAttribute)
		if e.Op == "elem" {
			a.Attributes = append(a.Attributes, p.value(e.A))
		} else {
			a.Attributes = a.Attributes[1:]
		}
		x.Attributes[e.I-1] = a
	case "entry", "unentry":
		h := x.Attributes[e.I-1].(ast.HashAttribute)
		if e.Op == "entry" {
			h.Entries = append(h.Entries, ast.NewHashEntry(p.key(e.J), p.value(e.A)))
		} else {
			h.Entries = h.Entries[1:]
		}
		x.Attributes[e.I-1] = h
	case "note":
		x.Comment = append(x.Comment, p.comment(e.A))
	case "foot":
		x.FooterComment = append(x.FooterComment, p.comment(e.A))
	default:
		fail("unknown edit %q", e.Op)
	}
}

func (p pieces) branch(x *ast.Branch, e edit1) {
	n := len(x.ElseIfBlock)
	switch e.Op {
	case "cond", "join", "bool", "cut", "lead":
		c := &x.IfBlock.Condition
		if e.J > 0 {
			c = &x.ElseIfBlock[e.J-1].Condition
		}
		switch e.Op {
		case "cond":
			*c = p.cond(e.A)
		case "join":
			more := p.cond(e.A).Expression
			more[0].SetBoolOperator(joins[e.I-1])
			c.Expression = append(c.Expression, more...)
		case "bool":
			c.Expression[e.I-1].SetBoolOperator(joins[e.A-1])
		case "cut":
			c.Expression = c.Expression[:len(c.Expression)-1]
		default:
			c.Expression = c.Expression[1:]
			c.Expression[0].SetBoolOperator(ast.BooleanOperator{Op: ast.NoOperator})
		}
	case "else":
		x.ElseBlock = ast.NewElseBlock(p.node(e.A))
	case "noelse":
		x.ElseBlock = ast.ElseBlock{}
	case "elseif":
		x.ElseIfBlock = append(x.ElseIfBlock, ast.NewElseIfBlock(p.cond(e.J), p.node(e.A)))
	case "noelseif":
		x.ElseIfBlock = append(x.ElseIfBlock[:e.J-1], x.ElseIfBlock[e.J:]...)
	case "into", "bnote", "bfoot":
		var l *[]ast.BranchOrPlugin
		var c, f *ast.CommentBlock
		switch {
		case e.J == 0:
			l, c, f = &x.IfBlock.Block, &x.IfBlock.Comment, &x.IfBlock.FooterComment
		case e.J <= n:
			b := &x.ElseIfBlock[e.J-1]
			l, c, f = &b.Block, &b.Comment, &b.FooterComment
		default:
			l, c, f = &x.ElseBlock.Block, &x.ElseBlock.Comment, &x.ElseBlock.FooterComment
		}
		switch e.Op {
		case "into":
			*l = append(*l, p.node(e.A))
		case "bnote":
			*c = append(*c, p.comment(e.A))
		default:
			*f = append(*f, p.comment(e.A))
		}
	default:
		fail("unknown edit %q", e.Op)
	}
}

var joins = []ast.BooleanOperator{{Op: ast.And}, {Op: ast.Or}, {Op: ast.Xor}, {Op: ast.Nand}}

// branchAt makes the edit of the branch at the path.
func (p pieces) branchAt(l []ast.BranchOrPlugin, path []int, e edit1) {
	b := l[path[0]-1].(ast.Branch)
	switch {
	case len(path) == 1:
		p.branch(&b, e)
	case path[1] == 0:
		p.branchAt(b.IfBlock.Block, path[2:], e)
	case path[1] <= len(b.ElseIfBlock):
		p.branchAt(b.ElseIfBlock[path[1]-1].Block, path[2:], e)
	default:
		p.branchAt(b.ElseBlock.Block, path[2:], e)
	}
	l[path[0]-1] = b
}

func (p pieces) step(c *ast.Config, s editStep) {
	list := map[string]*[]ast.PluginSection{"input": &c.Input, "filter": &c.Filter, "output": &c.Output}[s.Pt]
	if s.Op == "add" {
		*list = append(*list, ast.NewPluginSections(ptOf[s.Pt], p.node(s.A))...)
		return
	}
	sec := &(*list)[s.K-1]
	switch s.Op {
	case "remove":
		*list = append((*list)[:s.K-1], (*list)[s.K:]...)
	case "append":
		sec.BranchOrPlugins = append(sec.BranchOrPlugins, p.node(s.A))
	case "snote":
		sec.CommentBlock = append(sec.CommentBlock, p.comment(s.A))
	case "sfoot":
		sec.FooterComment = append(sec.FooterComment, p.comment(s.A))
	case "branch":
		p.branchAt(sec.BranchOrPlugins, s.Pa, s.Ed1)
	case "walk":
		n, k := 0, 0
		sec.BranchOrPlugins = astutil.ApplyPlugins(sec.BranchOrPlugins, func(cur *astutil.Cursor) {
			n++
			if k >= len(s.Es) || s.Es[k].V != n {
				return
			}
			e := s.Es[k]
			k++
			switch e.Op {
			case "del":
				cur.Delete()
			case "rep":
				cur.Replace(p.node(e.A))
			case "before":
				cur.InsertBefore(p.node(e.A))
			case "after":
				cur.InsertAfter(p.node(e.A))
			default:
				x := *cur.Plugin()
				p.plugin(&x, e)
				cur.Replace(x)
			}
		})
	default:
		fail("unknown step %q", s.Op)
	}
}

func cmdEdit(args []string) {
	fs := flag.NewFlagSet("edit", flag.ExitOnError)
	answers := fs.String("answers", "", "what the specification says")
	in := fs.String("in", "", "texts and pieces")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	p := readPieces(*in)
	readLines(*answers, func(i int, m map[string]any) {
		const prop = "C22"
		rep.Evaluations++
		codes0, _ := codes(m["text"])
		text := decode(codes0)
		raw, _ := json.Marshal(m["log"])
		var steps []editStep
		if err := json.Unmarshal(raw, &steps); err != nil {
			fail("%v", err)
		}
		bad := func(format string, a ...any) {
			rep.add(prop, text, "after %s: %s", clip(string(raw)), fmt.Sprintf(format, a...))
		}
		crash := noPanic(func() {
			a, err := config.Parse("", text)
			b, err2 := config.Parse("", text)
			if err != nil || err2 != nil {
				bad("rejected: %v", err)
				return
			}
			c, d := a.(ast.Config), b.(ast.Config)
			before := pConfig(d)
			for _, s := range steps {
				p.step(&c, s)
			}
			got := c.String()
			want, _ := codes(m["fmt"])
			if e := layoutDiffer(want, got); e != "" {
				bad("printed otherwise: %s", e)
				return
			}
			if e := differ(before, pConfig(d), aspects{true, true, true, true}, "config"); e != "" {
				bad("another result of the same parse is changed: %s", e)
			}
			o := parse([]byte(got))
			if !o.ok {
				bad("printed as an invalid configuration: %s%s: %q", o.err, o.panic, clip(got))
				return
			}
			rep.Accepted++
			if e := differ(conv(m["conf"], nil), dropPos(pConfig(o.conf)), aspects{tree: true, comments: true}, "config"); e != "" {
				bad("reads as another configuration: %s", e)
			}
		})
		if crash != "" {
			bad("panic: %s", crash)
		}
	})
	writeJSON(*out, rep)
}
