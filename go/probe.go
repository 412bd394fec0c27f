package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

// cmdProbe shows whether a known finding is still there:
// probe property name argument
func cmdProbe(args []string) {
	name, arg := args[1], ""
	if err := json.Unmarshal([]byte(args[2]), &arg); err != nil {
		fail("%s: %v", args[2], err)
	}
	valid := func(token string) bool {
		_, err := config.Parse("", []byte("input{a{b=>"+token+" c=>1}}"))
		return err == nil
	}
	switch args[0] + " " + name {
	case "C05 array-reads-as-selector":
		o := parse([]byte(arg))
		if !o.ok {
			return
		}
		s, _ := printed(o.conf)
		o2 := parse([]byte(s))
		if !o2.ok || differ(pConfig(o.conf), pConfig(o2.conf), aspects{tree: true}, "config") != "" {
			fmt.Printf("still formatted to %q, which means something else\n", s)
		}
	case "C07 only-comments":
		if o := parse([]byte(arg)); o.ok {
			if s, _ := printed(o.conf); strings.TrimSpace(s) == "" {
				fmt.Println("still formatted to an empty text")
			}
		}
	case "C01 number-too-large":
		n := "1" + strings.Repeat("0", 309)
		if !valid(n) {
			fmt.Println("still rejects a number of 310 digits")
		}
	case "C14 trailing-backslash":
		if t := astutil.QuoteWithEscape(arg, ast.DoubleQuoted); !valid(t) {
			fmt.Printf("still quoted as %s, which is no valid string\n", t)
		}
	case "C14 short-bareword":
		if t := astutil.QuoteWithEscape(arg, ast.Bareword); !valid(t) {
			fmt.Printf("still returns %q, which is no valid bareword\n", t)
		}
	case "C09 memoize-loses-warnings":
		a, b := parse([]byte(arg), config.ExceptionalCommentsWarning(true)), parse([]byte(arg), config.ExceptionalCommentsWarning(true), config.Memoize(true))
		if a.ok && b.ok && len(b.conf.Warnings) < len(a.conf.Warnings) {
			fmt.Printf("still gives %d instead of %d warnings with Memoize(true)\n", len(b.conf.Warnings), len(a.conf.Warnings))
		}
	case "C19 array-reads-as-selector":
		one := ast.NewArrayAttribute("", ast.NewStringAttribute("", arg, ast.DoubleQuoted))
		e := ast.NewInExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames("f"), one)
		b := ast.NewBranch(ast.NewIfBlock(ast.NewCondition(e)), ast.NewElseBlock())
		c := ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, b), nil)
		if o := parse([]byte(c.String())); !o.ok || differ(pConfig(c), dropPos(pConfig(o.conf)), aspects{tree: true}, "config") != "" {
			fmt.Printf("still prints an array with the element %q as %q, which reads as a selector\n", arg, e.String())
		}
	case "C11 deep-nesting":
		c := exec.Command(os.Args[0], "deep", arg)
		b, err := c.CombinedOutput()
		if err != nil && strings.Contains(string(b), "stack overflow") {
			fmt.Println("still ends the process with a stack overflow")
		}
	default:
		fail("unknown finding %s %s", args[0], name)
	}
}

// cmdDeep parses an array nested as deep as the argument says.
func cmdDeep(args []string) {
	var n int
	fmt.Sscan(args[0], &n)
	_, err := config.Parse("", []byte("input{a{b=>"+strings.Repeat("[", n)+strings.Repeat("]", n)+"}}"))
	fmt.Println(err == nil)
}
