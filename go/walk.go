package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"reflect"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

type walkItem struct {
	T  string       `json:"t"`
	ID int          `json:"id"`
	Ls [][]walkItem `json:"ls"`
}

type walkTrace struct {
	Init []walkItem `json:"init"`
	Log  []struct {
		E    string   `json:"e"`
		Item walkItem `json:"item"`
		New  walkItem `json:"new"`
		At   struct {
			List  []int `json:"list"`
			Index int   `json:"index"`
		} `json:"at"`
	} `json:"log"`
	Final []walkItem `json:"final"`
}

func walkPlugin(id int) ast.Plugin {
	p := ast.NewPlugin(fmt.Sprintf("p%d", id), ast.NewNumberAttribute("n", float64(id)), ast.NewStringAttribute("s", "x", ast.DoubleQuoted))
	p.Start = ast.Pos{Line: id, Column: 2, Offset: 10 * id}
	p.Comment = ast.NewCommentBlock(ast.NewComment(fmt.Sprintf("c%d", id), false))
	p.FooterComment = ast.NewCommentBlock(ast.NewComment(fmt.Sprintf("f%d", id), false))
	return p
}

func walkCond(id, k int) ast.Condition {
	return ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames(fmt.Sprintf("b%d_%d", id, k))))
}

func walkList(items []walkItem) []ast.BranchOrPlugin {
	out := make([]ast.BranchOrPlugin, 0, len(items))
	for _, x := range items {
		out = append(out, walkNode(x))
	}
	return out
}

func walkNode(x walkItem) ast.BranchOrPlugin {
	switch x.T {
	case "p":
		return walkPlugin(x.ID)
	case "n":
		return nil
	case "b":
		n := len(x.Ls)
		ifb := ast.NewIfBlock(walkCond(x.ID, 0), walkList(x.Ls[0])...)
		var els []ast.ElseIfBlock
		for k := 1; k < n-1; k++ {
			els = append(els, ast.NewElseIfBlock(walkCond(x.ID, k), walkList(x.Ls[k])...))
		}
		b := ast.NewBranch(ifb, ast.NewElseBlock(walkList(x.Ls[n-1])...), els...)
		b.IfBlock.Comment = ast.NewCommentBlock(ast.NewComment(fmt.Sprintf("b%d", x.ID), false))
		b.ElseBlock.FooterComment = ast.NewCommentBlock(ast.NewComment(fmt.Sprintf("e%d", x.ID), false))
		return b
	}
	fail("unknown item %v", x)
	return nil
}

// label names a node the way the specification does, 0 for nil.
func label(n ast.BranchOrPlugin) string {
	switch t := n.(type) {
	case nil:
		return "nil"
	case ast.Plugin:
		return t.Name()
	case ast.Branch:
		if len(t.IfBlock.Comment) == 1 {
			return t.IfBlock.Comment[0].String()
		}
		return "branch"
	}
	return fmt.Sprintf("%T", n)
}

// types of the items by id
func (x walkItem) kinds(m map[int]string) {
	m[x.ID] = x.T
	for _, l := range x.Ls {
		for _, y := range l {
			y.kinds(m)
		}
	}
}

func labels(l []ast.BranchOrPlugin) []string {
	out := make([]string, len(l))
	for i := range l {
		out[i] = label(l[i])
	}
	return out
}

// normal gives empty and nil slices the same face.
func normalTree(l []ast.BranchOrPlugin) []any {
	out := []any{}
	for _, n := range l {
		switch t := n.(type) {
		case ast.Branch:
			x := []any{"branch", normalTree(t.IfBlock.Block)}
			t.IfBlock.Block = nil
			x = append(x, t.IfBlock)
			for _, e := range t.ElseIfBlock {
				x = append(x, normalTree(e.Block))
				e.Block = nil
				x = append(x, e)
			}
			x = append(x, normalTree(t.ElseBlock.Block))
			t.ElseBlock.Block = nil
			out = append(out, append(x, t.ElseBlock))
		case ast.Plugin:
			out = append(out, t)
		case nil:
			out = append(out, nil)
		default:
			out = append(out, fmt.Sprintf("%T", n))
		}
	}
	return out
}

func replayWalk(t walkTrace) (problem string) {
	defer func() {
		if r := recover(); r != nil && problem == "" {
			problem = fmt.Sprintf("panic: %v", r)
		}
	}()
	kinds := map[int]string{}
	for _, x := range append(append([]walkItem{}, t.Init...), t.Final...) {
		x.kinds(kinds)
	}
	for _, e := range t.Log {
		e.New.kinds(kinds)
	}
	name := func(id int) string {
		switch kinds[id] {
		case "n":
			return "nil"
		case "p":
			return fmt.Sprintf("p%d", id)
		}
		return label(walkNode(walkItem{T: "b", ID: id, Ls: [][]walkItem{{}, {}}}))
	}
	bad := func(format string, a ...any) {
		if problem == "" {
			problem = fmt.Sprintf(format, a...)
		}
	}
	k := 0
	look := func(c *astutil.Cursor, when string) {
		e := t.Log[k]
		want := make([]string, len(e.At.List))
		for i, id := range e.At.List {
			want[i] = name(id)
		}
		if got := labels(c.Parent()); !reflect.DeepEqual(want, got) {
			bad("%s %d: list %v, want %v", when, k, got, want)
			return
		}
		if e.At.Index < 0 {
			return
		}
		if c.Index() != e.At.Index {
			bad("%s %d: index %d, want %d", when, k, c.Index(), e.At.Index)
			return
		}
		p := c.Plugin()
		got := "nil"
		if p != nil {
			got = p.Name()
		}
		w := name(e.Item.ID)
		if e.Item.T != "p" {
			w = "nil"
		}
		if got != w {
			bad("%s %d: plugin %s, want %s", when, k, got, w)
		}
	}
	tree := walkList(t.Init)
	result := astutil.ApplyPlugins(tree, func(c *astutil.Cursor) {
		if problem != "" {
			return
		}
		if k >= len(t.Log) {
			bad("visit after the last one: index %d of %v", c.Index(), labels(c.Parent()))
			return
		}
		if t.Log[k].E != "visit" {
			bad("visit %d not expected", k)
			return
		}
		look(c, "visit")
		k++
		for k < len(t.Log) && t.Log[k].E != "visit" && problem == "" {
			e := t.Log[k]
			switch e.E {
			case "delete":
				c.Delete()
			case "replace":
				c.Replace(walkNode(e.New))
			case "before":
				c.InsertBefore(walkNode(e.New))
			case "after":
				c.InsertAfter(walkNode(e.New))
			default:
				fail("unknown edit %s", e.E)
			}
			look(c, "after "+e.E)
			k++
		}
	})
	if problem != "" {
		return problem
	}
	if k != len(t.Log) {
		return fmt.Sprintf("%d of %d steps, plugins were not visited", k, len(t.Log))
	}
	if w, g := normalTree(walkList(t.Final)), normalTree(result); !reflect.DeepEqual(w, g) {
		return fmt.Sprintf("result %v, want %v", g, w)
	}
	return ""
}

// cmdWalk replays behaviours of Walk.tla on astutil.ApplyPlugins.
func cmdWalk(args []string) {
	fs := flag.NewFlagSet("walk", flag.ExitOnError)
	answers := fs.String("answers", "", "behaviours of Walk.tla")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	readLines(*answers, func(i int, m map[string]any) {
		b, _ := json.Marshal(m)
		var t walkTrace
		if err := json.Unmarshal(b, &t); err != nil {
			fail("%v", err)
		}
		rep.Evaluations++
		if d := replayWalk(t); d != "" {
			rep.add("C12", b, "%s", d)
		}
		if len(rep.Samples) < 2 && len(b) > 300 {
			rep.Samples = append(rep.Samples, string(b))
		}
	})
	writeJSON(*out, rep)
}
