package main

// Projection of the real syntax tree to the shape of the specification
// (LSParse.tla): maps, lists and strings; a position is [line, column, offset].

import (
	"fmt"
	"strings"

	"github.com/breml/logstash-config/ast"
)

type M = map[string]any
type L = []any

func jpos(p ast.Pos) any { return [3]int{p.Line, p.Column, p.Offset} }

func pComments(cb ast.CommentBlock) L {
	out := L{}
	for _, c := range cb {
		s := c.String()
		if c.SpaceBefore {
			s = strings.TrimPrefix(s, "\n")
		}
		if c.SpaceAfter {
			s = strings.TrimSuffix(s, "\n")
		}
		s = strings.TrimSuffix(strings.TrimPrefix(s, "# "), "\n")
		out = append(out, M{"x": s, "b": c.SpaceBefore, "a": c.SpaceAfter})
	}
	return out
}

func pConfig(c ast.Config) M {
	return M{"input": pSections(c.Input), "filter": pSections(c.Filter), "output": pSections(c.Output),
		"fc": pComments(c.FooterComment)}
}

func pSections(ss []ast.PluginSection) L {
	out := L{}
	for _, s := range ss {
		out = append(out, M{"pt": sectionKind[s.PluginType], "b": pBops(s.BranchOrPlugins), "fc": pComments(s.FooterComment),
			"c": pComments(s.CommentBlock), "p": jpos(s.Pos())})
	}
	return out
}

func pBops(bs []ast.BranchOrPlugin) L {
	out := L{}
	for _, b := range bs {
		out = append(out, pBop(b))
	}
	return out
}

func pBop(b ast.BranchOrPlugin) any {
	switch t := b.(type) {
	case ast.Plugin:
		return pPlugin(t)
	case *ast.Plugin:
		return pPlugin(*t)
	case ast.Branch:
		eis := L{}
		for _, e := range t.ElseIfBlock {
			eis = append(eis, M{"cond": pCond(e.Condition), "b": pBops(e.Block), "fc": pComments(e.FooterComment),
				"c": pComments(e.Comment), "p": jpos(e.Pos())})
		}
		return M{"t": "branch",
			"if": M{"cond": pCond(t.IfBlock.Condition), "b": pBops(t.IfBlock.Block), "fc": pComments(t.IfBlock.FooterComment),
				"c": pComments(t.IfBlock.Comment), "p": jpos(t.IfBlock.Pos())},
			"ei": eis,
			"el": M{"b": pBops(t.ElseBlock.Block), "fc": pComments(t.ElseBlock.FooterComment),
				"c": pComments(t.ElseBlock.Comment), "p": jpos(t.ElseBlock.Pos())}}
	}
	return fmt.Sprintf("unexpected %T", b)
}

func pPlugin(p ast.Plugin) M {
	as := L{}
	for _, a := range p.Attributes {
		as = append(as, pAttr(a))
	}
	return M{"t": "plugin", "n": p.Name(), "p": jpos(p.Pos()), "c": pComments(p.Comment), "as": as,
		"fc": pComments(p.FooterComment)}
}

func attrComment(a ast.Attribute) L {
	switch t := a.(type) {
	case ast.StringAttribute:
		return pComments(t.Comment)
	case ast.NumberAttribute:
		return pComments(t.Comment)
	case ast.ArrayAttribute:
		return pComments(t.Comment)
	case ast.HashAttribute:
		return pComments(t.Comment)
	case ast.PluginAttribute:
		return pComments(t.Comment)
	}
	return L{fmt.Sprintf("unexpected %T", a)}
}

// pAttr projects the attribute of a plugin: the position is the one of the
// name, the position of the value cannot be observed (except of a plugin).
func pAttr(a ast.Attribute) any {
	if a == nil {
		return "nil attribute"
	}
	v := pValue(a)
	if m, ok := v.(M); ok && m["t"] != "plugin" {
		m["p"] = nil
	}
	return M{"n": a.Name(), "v": v, "p": jpos(a.Pos()), "c": attrComment(a)}
}

var (
	sectionKind = map[ast.PluginType]string{ast.Input: "input", ast.Filter: "filter", ast.Output: "output"}
	boolKind    = map[int]string{ast.NoOperator: "", ast.And: "and", ast.Or: "or", ast.Xor: "xor", ast.Nand: "nand"}
	cmpKind     = map[int]string{ast.Equal: "==", ast.NotEqual: "!=", ast.LessOrEqual: "<=", ast.GreaterOrEqual: ">=",
		ast.LessThan: "<", ast.GreaterThan: ">"}
	reKind = map[int]string{ast.RegexpMatch: "=~", ast.RegexpNotMatch: "!~"}
)

var quoteKind = map[ast.StringAttributeType]string{ast.DoubleQuoted: "dq", ast.SingleQuoted: "sq", ast.Bareword: "bare"}

// number is the double value of a number in the tree.
type number float64

func pValue(v any) any {
	switch t := v.(type) {
	case ast.StringAttribute:
		return M{"t": quoteKind[t.StringAttributeType()], "x": t.Value(), "p": jpos(t.Pos())}
	case ast.NumberAttribute:
		return M{"t": "number", "x": number(t.Value()), "p": jpos(t.Pos())}
	case ast.ArrayAttribute:
		vs := L{}
		for _, e := range t.Value() {
			if e == nil {
				vs = append(vs, "nil element")
				continue
			}
			m := M{"v": pValue(e), "c": attrComment(e)}
			if e.Name() != "" {
				m["name"] = e.Name()
			}
			vs = append(vs, m)
		}
		return M{"t": "array", "vs": vs, "fc": pComments(t.FooterComment), "p": jpos(t.Pos())}
	case ast.HashAttribute:
		es := L{}
		for _, e := range t.Value() {
			m := M{"k": pValue(e.Key), "v": pValue(e.Value), "p": jpos(e.Pos()), "c": pComments(e.Comment)}
			if e.Value != nil && e.Value.Name() != "" {
				m["name"] = e.Value.Name()
			}
			es = append(es, m)
		}
		return M{"t": "hash", "es": es, "fc": pComments(t.FooterComment), "p": jpos(t.Pos())}
	case ast.PluginAttribute:
		return pPlugin(t.Value())
	case ast.Regexp:
		return M{"t": "regexp", "x": t.Regexp, "p": jpos(t.Pos())}
	case ast.Selector:
		es := L{}
		for _, e := range t.Elements {
			s := e.String()
			if len(s) >= 2 {
				s = s[1 : len(s)-1]
			}
			es = append(es, M{"x": s, "p": jpos(e.Pos())})
		}
		return M{"t": "selector", "es": es, "p": jpos(t.Pos())}
	case nil:
		return "nil"
	}
	return fmt.Sprintf("unexpected %T", v)
}

func pCond(c ast.Condition) L {
	out := L{}
	for _, e := range c.Expression {
		out = append(out, pExpr(e))
	}
	return out
}

func pExpr(e ast.Expression) any {
	bo := e.BoolOperator()
	op, ok := boolKind[bo.Op]
	if !ok {
		op = fmt.Sprintf("unknown operator %d", bo.Op)
	}
	m := M{"op": op, "opp": jpos(bo.Pos()), "p": jpos(e.Pos())}
	switch t := e.(type) {
	case ast.ConditionExpression:
		m["k"] = "par"
		m["cond"] = pCond(t.Condition)
	case ast.NegativeConditionExpression:
		m["k"] = "npar"
		m["cond"] = pCond(t.Condition)
	case ast.NegativeSelectorExpression:
		m["k"] = "nsel"
		m["sel"] = pValue(t.Selector)
	case ast.InExpression:
		m["k"], m["l"], m["r"] = "in", pValue(t.LValue), pValue(t.RValue)
	case ast.NotInExpression:
		m["k"], m["l"], m["r"] = "notin", pValue(t.LValue), pValue(t.RValue)
	case ast.CompareExpression:
		m["k"], m["l"], m["r"] = "cmp", pValue(t.LValue), pValue(t.RValue)
		m["o"], m["op2"] = cmpKind[t.CompareOperator.Op], jpos(t.CompareOperator.Pos())
	case ast.RegexpExpression:
		m["k"], m["l"], m["r"] = "re", pValue(t.LValue), pValue(t.RValue)
		m["o"], m["op2"] = reKind[t.RegexpOperator.Op], jpos(t.RegexpOperator.Pos())
	case ast.RvalueExpression:
		m["k"], m["r"] = "rv", pValue(t.RValue)
	default:
		return fmt.Sprintf("unexpected %T", e)
	}
	return m
}
