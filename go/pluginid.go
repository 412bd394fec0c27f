package main

import (
	"errors"
	"flag"
	"fmt"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

func init() { commands["pluginid"] = cmdPluginID }

// flatAttr turns an attribute [n, v] of PluginId.tla into a node of LSBuild.tla.
func flatAttr(a map[string]any) map[string]any {
	v, ok := a["v"].(map[string]any)
	if !ok {
		return map[string]any{"t": "nil"}
	}
	if v["t"] == "plugin" {
		var as []any
		for _, x := range mlist(v["as"]) {
			as = append(as, flatAttr(x.(map[string]any)))
		}
		return map[string]any{"t": "pa", "n": a["n"], "v": map[string]any{"n": v["n"], "as": as}}
	}
	out := map[string]any{}
	for k, x := range v {
		out[k] = x
	}
	out["n"] = a["n"]
	if vs, ok := v["vs"]; ok {
		var ws []any
		for _, x := range mlist(vs) {
			ws = append(ws, x.(map[string]any)["v"])
		}
		out["vs"] = ws
	}
	return out
}

func cmdPluginID(args []string) {
	fs := flag.NewFlagSet("pluginid", flag.ExitOnError)
	answers := fs.String("answers", "", "what the specification says")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	readLines(*answers, func(i int, m map[string]any) {
		rep.Evaluations++
		var as []ast.Attribute
		for _, x := range mlist(m["as"]) {
			as = append(as, bAttr(flatAttr(x.(map[string]any))))
		}
		p := ast.NewPlugin("p", as...)
		id := m["id"].(map[string]any)
		st, value := id["st"].(string), mtext(id["x"])
		text := p.String()
		rep.judgeID(text, "built by hand", p, st, value)
		v, err := config.Parse("", []byte("filter{"+text+"}"))
		if err != nil {
			rep.add("C21", []byte(text), "printed as no valid configuration: %v", err)
			return
		}
		q, ok := v.(ast.Config).Filter[0].BranchOrPlugins[0].(ast.Plugin)
		if !ok {
			rep.add("C21", []byte(text), "read as %T", v.(ast.Config).Filter[0].BranchOrPlugins[0])
			return
		}
		rep.judgeID(text, "parsed", q, st, value)
	})
	writeJSON(*out, rep)
}

func (rep *report) judgeID(text, how string, p ast.Plugin, st, value string) {
	bad := func(format string, a ...any) {
		rep.add("C21", []byte(text), "%s: %s", how, fmt.Sprintf(format, a...))
	}
	var got string
	var err error
	before := p.String()
	if c := noPanic(func() { got, err = p.ID() }); c != "" {
		bad("panic: %s", c)
		return
	}
	if p.String() != before {
		bad("ID changes the plugin")
	}
	if ast.IsNotFoundError(err) != (st == "none") || ast.IsNotFoundError(fmt.Errorf("file: %w", err)) != (st == "none") {
		bad("want %s, got %q, %v (not found: %v)", st, got, err, ast.IsNotFoundError(err))
		return
	}
	switch st {
	case "str":
		rep.Accepted++
		if err != nil || got != value {
			bad("want id %q, got %q, %v", value, got, err)
		}
	default:
		rep.Rejected++
		if err == nil || got != "" {
			bad("want an error (%s), got %q, %v", st, got, err)
		}
		if st == "none" {
			var nf ast.NotFounder
			if !errors.As(err, &nf) || nf.Error() != err.Error() {
				bad("no NotFounder: %v", err)
			}
		}
	}
}
