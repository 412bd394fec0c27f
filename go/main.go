// Harness of /verif: binds the specification to the real code.  It is built
// inside the module of /repo with go build -overlay, nothing in /repo changes.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

type observed struct {
	ok    bool
	conf  ast.Config
	err   string
	far   string
	panic string
}

func parse(b []byte, opts ...config.Option) (o observed) {
	defer func() {
		if r := recover(); r != nil {
			o = observed{panic: fmt.Sprint(r)}
		}
	}()
	v, err := config.Parse("t.conf", b, opts...)
	if err != nil {
		o.err = err.Error()
		o.far, _ = config.GetFarthestFailure()
		return o
	}
	c, ok := v.(ast.Config)
	if !ok {
		o.panic = fmt.Sprintf("neither an error nor a configuration: %T", v)
		return o
	}
	o.ok, o.conf = true, c
	return o
}

func printed(c fmt.Stringer) (s string, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	return c.String(), ""
}

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

func readTexts(file string) [][]int {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var t [][]int
	if err := json.Unmarshal(b, &t); err != nil {
		fail("%s: %v", file, err)
	}
	return t
}

func writeJSON(file string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fail("%v", err)
	}
}

// readLines calls f for each line of an ndjson file.
// patience is the time the real code may take for one line of a file.
const patience = 90 * time.Second

// hung ends the process with the stacks of all goroutines.
func hung(file string, i int, line []byte) *time.Timer {
	return time.AfterFunc(patience, func() {
		if len(line) > 2000 {
			line = line[:2000]
		}
		fmt.Fprintf(os.Stderr, "fatal error: no end of line %d of %s: %s\n\n", i, file, line)
		b := make([]byte, 1<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
		os.Exit(2)
	})
}

func readLines(file string, f func(i int, v map[string]any)) {
	h, err := os.Open(file)
	if err != nil {
		fail("%v", err)
	}
	defer h.Close()
	rd := bufio.NewReaderSize(h, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(strings.TrimSpace(string(line))) > 0 {
			var m map[string]any
			if e := json.Unmarshal(line, &m); e != nil {
				fail("%s:%d: %v", file, i, e)
			}
			t := hung(file, i, line)
			f(i, m)
			t.Stop()
		}
		if err != nil {
			return
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: harness command arguments")
	}
	cmd, ok := commands[os.Args[1]]
	if !ok {
		fail("unknown command %s", os.Args[1])
	}
	cmd(os.Args[2:])
}
