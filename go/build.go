package main

// Configurations built by hand (LSBuild.tla): the nodes are built with the
// constructors of package ast, printed, and what they print is parsed again.

import (
	"encoding/json"
	"flag"
	"fmt"
	"strconv"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

var (
	opOf = map[string]int{"": ast.NoOperator, "and": ast.And, "or": ast.Or, "xor": ast.Xor, "nand": ast.Nand}
	coOf = map[string]int{"==": ast.Equal, "!=": ast.NotEqual, "<=": ast.LessOrEqual, ">=": ast.GreaterOrEqual,
		"<": ast.LessThan, ">": ast.GreaterThan}
	roOf = map[string]int{"=~": ast.RegexpMatch, "!~": ast.RegexpNotMatch}
	ptOf = map[string]ast.PluginType{"input": ast.Input, "filter": ast.Filter, "output": ast.Output}
	saOf = map[string]ast.StringAttributeType{"dq": ast.DoubleQuoted, "sq": ast.SingleQuoted, "bare": ast.Bareword}
)

func mtext(v any) string {
	c, ok := codes(v)
	if !ok {
		fail("not a text: %v", v)
	}
	return string(decode(c))
}

func mlist(v any) []any { l, _ := v.([]any); return l }

func bComments(v any) ast.CommentBlock {
	var cs []ast.Comment
	for _, x := range mlist(v) {
		m := x.(map[string]any)
		c := ast.NewComment(mtext(m["x"]), m["b"].(bool))
		c.SpaceAfter = m["a"].(bool)
		cs = append(cs, c)
	}
	return ast.NewCommentBlock(cs...)
}

func bAttr(v any) ast.Attribute {
	m := v.(map[string]any)
	name := ""
	if m["n"] != nil {
		name = mtext(m["n"])
	}
	switch t := m["t"].(string); t {
	case "nil":
		return nil
	case "dq", "sq", "bare":
		a := ast.NewStringAttribute(name, mtext(m["x"]), saOf[t])
		a.Comment = bComments(m["c"])
		return a
	case "number":
		f, err := strconv.ParseFloat(mtext(m["x"]), 64)
		if err != nil {
			fail("number: %v", err)
		}
		a := ast.NewNumberAttribute(name, f)
		a.Comment = bComments(m["c"])
		return a
	case "array":
		var vs []ast.Attribute
		for _, x := range mlist(m["vs"]) {
			vs = append(vs, bAttr(x))
		}
		a := ast.NewArrayAttribute(name, vs...)
		a.Comment, a.FooterComment = bComments(m["c"]), bComments(m["fc"])
		return a
	case "hash":
		var es []ast.HashEntry
		for _, x := range mlist(m["es"]) {
			es = append(es, bEntry(x))
		}
		a := ast.NewHashAttribute(name, es...)
		a.Comment, a.FooterComment = bComments(m["c"]), bComments(m["fc"])
		return a
	case "pa":
		a := ast.NewPluginAttribute(name, bPlugin(m["v"]))
		a.Comment = bComments(m["c"])
		return a
	}
	fail("unknown attribute %v", m)
	return nil
}

func bEntry(v any) ast.HashEntry {
	m := v.(map[string]any)
	e := ast.NewHashEntry(bAttr(m["k"]).(ast.HashEntryKey), bAttr(m["v"]))
	e.Comment = bComments(m["c"])
	return e
}

func bPlugin(v any) ast.Plugin {
	m := v.(map[string]any)
	var as []ast.Attribute
	for _, x := range mlist(m["as"]) {
		as = append(as, bAttr(x))
	}
	p := ast.NewPlugin(mtext(m["n"]), as...)
	p.Comment, p.FooterComment = bComments(m["c"]), bComments(m["fc"])
	return p
}

func bSelector(m map[string]any, names bool) ast.Selector {
	var xs []string
	var es []ast.SelectorElement
	for _, x := range mlist(m["es"]) {
		xs = append(xs, mtext(x))
		es = append(es, ast.NewSelectorElement(mtext(x)))
	}
	if names {
		return ast.NewSelectorFromNames(xs...)
	}
	return ast.NewSelector(es)
}

func bRvalue(v any) ast.Rvalue {
	m := v.(map[string]any)
	switch m["t"] {
	case "selector":
		return bSelector(m, len(mlist(m["es"]))%2 == 1)
	case "regexp":
		return ast.NewRegexp(mtext(m["x"]))
	}
	return bAttr(v).(ast.Rvalue)
}

// bExpr builds an expression; late: the operator is set afterwards.
func bExpr(v any, late bool) ast.Expression {
	m := v.(map[string]any)
	if m["t"] == "nil" {
		return nil
	}
	op := ast.BooleanOperator{Op: opOf[m["op"].(string)]}
	use := op
	if late {
		use = ast.BooleanOperator{Op: ast.NoOperator}
	}
	var e ast.Expression
	switch m["k"] {
	case "par":
		e = ast.NewConditionExpression(use, bCond(m["cond"], late))
	case "npar":
		e = ast.NewNegativeConditionExpression(use, bCond(m["cond"], late))
	case "nsel":
		e = ast.NewNegativeSelectorExpression(use, bSelector(m["r"].(map[string]any), late))
	case "rv":
		e = ast.NewRvalueExpression(use, bRvalue(m["r"]))
	case "in":
		e = ast.NewInExpression(use, bRvalue(m["l"]), bRvalue(m["r"]))
	case "notin":
		e = ast.NewNotInExpression(use, bRvalue(m["l"]), bRvalue(m["r"]))
	case "cmp":
		e = ast.NewCompareExpression(use, bRvalue(m["l"]), ast.CompareOperator{Op: coOf[m["o"].(string)]}, bRvalue(m["r"]))
	case "re":
		e = ast.NewRegexpExpression(use, bRvalue(m["l"]), ast.RegexpOperator{Op: roOf[m["o"].(string)]}, bRvalue(m["r"]).(ast.StringOrRegexp))
	default:
		fail("unknown expression %v", m)
	}
	if late {
		e.SetBoolOperator(op)
	}
	return e
}

func bCond(v any, late bool) ast.Condition {
	var es []ast.Expression
	for _, x := range mlist(v.(map[string]any)["es"]) {
		es = append(es, bExpr(x, late))
	}
	return ast.NewCondition(es...)
}

func bBody(v any, late bool) []ast.BranchOrPlugin {
	var bs []ast.BranchOrPlugin
	for _, x := range mlist(v) {
		bs = append(bs, bBop(x, late))
	}
	return bs
}

func bBop(v any, late bool) ast.BranchOrPlugin {
	m := v.(map[string]any)
	switch m["t"] {
	case "nil":
		return nil
	case "plugin":
		return bPlugin(v)
	}
	i := m["if"].(map[string]any)
	ib := ast.NewIfBlock(bCond(i["cond"], late), bBody(i["b"], late)...)
	ib.Comment, ib.FooterComment = bComments(i["c"]), bComments(i["fc"])
	var eis []ast.ElseIfBlock
	for _, x := range mlist(m["ei"]) {
		e := x.(map[string]any)
		eb := ast.NewElseIfBlock(bCond(e["cond"], late), bBody(e["b"], late)...)
		eb.Comment, eb.FooterComment = bComments(e["c"]), bComments(e["fc"])
		eis = append(eis, eb)
	}
	l := m["el"].(map[string]any)
	el := ast.NewElseBlock(bBody(l["b"], late)...)
	el.Comment, el.FooterComment = bComments(l["c"]), bComments(l["fc"])
	return ast.NewBranch(ib, el, eis...)
}

func bSections(v any, late bool) []ast.PluginSection {
	var ss []ast.PluginSection
	for _, x := range mlist(v) {
		m := x.(map[string]any)
		bs := bBody(m["b"], late)
		var s ast.PluginSection
		if late {
			s = ast.NewPluginSections(ptOf[m["pt"].(string)], bs...)[0]
		} else {
			s = ast.NewPluginSection(ptOf[m["pt"].(string)], bs...)
		}
		s.CommentBlock, s.FooterComment = bComments(m["c"]), bComments(m["fc"])
		ss = append(ss, s)
	}
	return ss
}

func bConfig(m map[string]any, late bool) ast.Config {
	c := ast.NewConfig(bSections(m["input"], late), bSections(m["filter"], late), bSections(m["output"], late))
	c.FooterComment = bComments(m["fc"])
	return c
}

// dropPos removes the positions of a projection.
func dropPos(v any) any {
	switch t := v.(type) {
	case L:
		for i := range t {
			t[i] = dropPos(t[i])
		}
	case M:
		delete(t, "p")
		delete(t, "opp")
		delete(t, "op2")
		for k := range t {
			t[k] = dropPos(t[k])
		}
	}
	return v
}

// lines gives the text of a document of the specification.
func docText(v any) []int {
	var out []int
	for i, l := range mlist(v) {
		if i > 0 {
			out = append(out, '\n')
		}
		c, _ := codes(l)
		out = append(out, c...)
	}
	return out
}

// ownTexts are what the node prints by itself.
func ownTexts(n map[string]any, late bool) (texts []string) {
	switch n["t"] {
	case "dq", "sq", "bare", "number", "array", "hash", "pa":
		a := bAttr(n)
		texts = []string{a.String(), a.Name() + " => " + a.ValueString()}
		if s, ok := a.(fmt.Stringer); ok {
			texts = append(texts, fmt.Sprint(s))
		}
	case "selector", "regexp":
		r := bRvalue(n)
		texts = []string{r.String(), r.ValueString(), fmt.Sprint(r)}
	case "entry":
		e := bEntry(n)
		texts = []string{e.String(), e.Comment.String() + e.Name() + " => " + e.ValueString()}
	case "plugin", "branch":
		texts = []string{fmt.Sprint(bBop(n, late))}
	case "expr":
		texts = []string{fmt.Sprint(bExpr(n, late))}
	case "cond":
		texts = []string{bCond(n, late).String()}
	}
	return texts
}

func judgeBuilt(m map[string]any, late bool) (text, problem string) {
	defer func() {
		if r := recover(); r != nil {
			problem = fmt.Sprintf("panic: %v", r)
		}
	}()
	n := m["n"].(map[string]any)
	if own := docText(m["own"]); len(own) > 0 {
		for _, got := range ownTexts(n, late) {
			if d := layoutDiffer(own, got); d != "" {
				return got, fmt.Sprintf("the %v prints another text: %s", n["t"], d)
			}
		}
	}
	c := bConfig(m["w"].(map[string]any), late)
	text = c.String()
	want, _ := codes(m["text"])
	if d := layoutDiffer(want, text); d != "" {
		return text, "the configuration prints another text: " + d
	}
	if again := c.String(); again != text {
		return text, "printed a second time the text differs"
	}
	v, err := config.Parse("", []byte(text))
	if err != nil {
		return text, fmt.Sprintf("the printed text is rejected: %v", err)
	}
	if d := differ(conv(m["conf"], nil), dropPos(pConfig(v.(ast.Config))), aspects{tree: true, comments: true}, "config"); d != "" {
		return text, "the printed text reads as another configuration: " + d
	}
	return text, ""
}

func init() { commands["build"] = cmdBuild }

func cmdBuild(args []string) {
	fs := flag.NewFlagSet("build", flag.ExitOnError)
	answers := fs.String("answers", "", "BUILD documents")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	kinds := map[string]int{}
	n := 0
	var samples []any
	violations := M{}
	readLines(*answers, func(i int, m map[string]any) {
		n++
		kinds[m["n"].(map[string]any)["t"].(string)]++
		for _, late := range []bool{false, true} {
			text, problem := judgeBuilt(m, late)
			if problem != "" && violations["C19"] == nil {
				node, _ := json.Marshal(m["n"])
				violations["C19"] = M{"text": text, "detail": problem, "node": json.RawMessage(node)}
			}
			if len(samples) < 3 && n%997 == 1 && !late {
				samples = append(samples, text)
			}
		}
	})
	writeJSON(*out, M{"evaluations": n, "kinds": kinds, "samples": samples, "violations": violations})
}
