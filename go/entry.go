package main

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"syscall"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

func init() { commands["entry"] = cmdEntry }

var errReader = errors.New("the reader failed")

// scripted delivers bytes in the pieces of a script.
type scripted struct {
	pieces [][]byte
	ends   []string // "open", "eof", "error": what comes with the piece
	i      int
}

func (s *scripted) Read(p []byte) (int, error) {
	if s.i >= len(s.pieces) {
		return 0, io.EOF
	}
	n := copy(p, s.pieces[s.i])
	s.pieces[s.i] = s.pieces[s.i][n:]
	if len(s.pieces[s.i]) > 0 {
		return n, nil
	}
	e := s.ends[s.i]
	s.i++
	switch e {
	case "eof":
		s.i = len(s.pieces)
		return n, io.EOF
	case "error":
		s.i = len(s.pieces)
		return n, errReader
	}
	return n, nil
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fail("%v", err)
	}
	return len(d)
}

var placeRe = regexp.MustCompile(`(?m)^\d+:\d+ \(\d+\)`)

func cmdEntry(args []string) {
	fs := flag.NewFlagSet("entry", flag.ExitOnError)
	answers := fs.String("answers", "", "what the specification says")
	dir := fs.String("dir", "", "scratch directory")
	out := fs.String("out", "", "report")
	fs.Parse(args)
	rep := &report{Counts: map[string]int{}, Violations: map[string]violation{}}
	a, _ := filepath.Abs(*answers)
	o, _ := filepath.Abs(*out)
	if err := os.MkdirAll(filepath.Join(*dir, "sub"), 0o755); err != nil {
		fail("%v", err)
	}
	if err := os.Chdir(*dir); err != nil {
		fail("%v", err)
	}
	debug.SetGCPercent(-1) // no file is closed by the garbage collector
	k := 0
	readLines(a, func(i int, m map[string]any) {
		if k++; k%50 == 0 {
			debug.FreeOSMemory()
		}
		rep.entry(m)
	})
	writeJSON(o, rep)
}

func (rep *report) entry(m map[string]any) {
	const prop = "C20"
	rep.Evaluations++
	text, _ := codes(m["text"])
	given, _ := codes(m["given"])
	pad, long, way, name := int(m["pad"].(float64)), int(m["long"].(float64)), m["way"].(string), m["name"].(string)
	all := m["all"] == true
	want := m["r"].(map[string]any)
	st := want["st"].(string)
	short := decode(text)
	whole := short
	if all && long > 1 {
		h := decode(text[:pad-1])
		whole = append(append(append([]byte{}, h...), bytes.Repeat([]byte(" "), long)...), decode(text[pad:])...)
	}
	effective := whole
	if !all {
		effective = decode(given)
	}
	var pieces [][]byte
	var ends []string
	rest := whole
	reads, _ := m["reads"].([]any)
	for j, x := range reads {
		r := x.(map[string]any)
		n := int(r["n"].(float64))
		last := all
		for _, y := range reads[j+1:] {
			last = last && y.(map[string]any)["n"].(float64) == 0
		}
		if n == -1 || last && n > 0 {
			n = len(rest)
		}
		pieces, ends = append(pieces, append([]byte{}, rest[:n]...)), append(ends, r["e"].(string))
		rest = rest[n:]
	}
	opts := []config.Option{}
	if m["any"] == true {
		opts = append(opts, config.AllowInvalidUTF8(true))
	}
	if m["warn"] == true {
		opts = append(opts, config.ExceptionalCommentsWarning(true))
	}
	d := fmt.Sprintf("%s %q pieces %v, %d blanks", way, name, reads, long)
	bad := func(format string, a ...any) { rep.add(prop, short, "%s: %s", d, fmt.Sprintf(format, a...)) }

	var v any
	var err error
	before := 0
	crash := noPanic(func() {
		switch way {
		case "bytes":
			buf := append([]byte{}, whole...)
			v, err = config.Parse(name, buf, opts...)
			if !bytes.Equal(buf, whole) {
				bad("the bytes given were changed")
			}
			for i := range buf { // the result must not depend on them any more
				buf[i] = '~'
			}
		case "reader":
			v, err = config.ParseReader(name, &scripted{pieces: pieces, ends: ends}, opts...)
		default:
			switch way {
			case "file":
				if e := os.WriteFile(name, whole, 0o644); e != nil {
					fail("%v", e)
				}
			case "directory":
				if e := os.Mkdir(name, 0o755); e != nil {
					fail("%v", e)
				}
			case "pipe":
				if e := syscall.Mkfifo(name, 0o644); e != nil {
					fail("%v", e)
				}
				done := make(chan struct{})
				go func() {
					defer close(done)
					h, e := os.OpenFile(name, os.O_WRONLY, 0)
					if e != nil {
						return
					}
					defer h.Close()
					for _, p := range pieces {
						if len(p) > 0 {
							if _, e := h.Write(p); e != nil {
								return
							}
						}
					}
				}()
				defer func() { <-done }()
			}
			before = openFiles()
			v, err = config.ParseFile(name, opts...)
		}
	})
	if before > 0 {
		if n := openFiles(); n > before {
			bad("%d files are left open", n-before)
		}
		if way == "file" {
			if b, e := os.ReadFile(name); e != nil || !bytes.Equal(b, whole) {
				bad("the file was changed")
			}
		}
		os.Remove(name)
	}
	if crash != "" {
		bad("panic: %s", crash)
		return
	}
	switch st {
	case "error":
		rep.Died++
		switch {
		case err == nil:
			bad("no error: %v", v)
		case v != nil:
			bad("a result beside the error %v: %v", err, v)
		case way == "reader" && !errors.Is(err, errReader):
			bad("not the error of the reader: %v", err)
		case way == "missing" && !errors.Is(err, os.ErrNotExist):
			bad("not the error of the file: %v", err)
		}
		return
	case "ok":
		rep.Accepted++
		if err != nil {
			bad("rejected: %v", err)
			return
		}
		c, ok := v.(ast.Config)
		if !ok {
			bad("no configuration: %T", v)
			return
		}
		base := given
		tab := posTable(base)
		w := conv(want["v"], tab)
		if x := differ(w, pConfig(c), aspects{true, true, true, true}, "config"); x != "" {
			bad("%s", x)
		}
		if ws := prescribedWarnings(want["w"], base, tab); !equalWarnings(ws, c.Warnings) {
			bad("want warnings %q, got %q", ws, c.Warnings)
		}
	default:
		rep.Rejected++
		if err == nil {
			bad("accepted: %v", v)
			return
		}
		msg, _ := want["m"].(string)
		if strings.HasPrefix(msg, "expect closing") && !strings.Contains(err.Error(), msg) {
			bad("the error must say %q: %v", msg, err)
		}
	}
	if st != "ok" {
		_, plain := config.Parse("", effective, opts...)
		if plain == nil {
			bad("accepted as bytes")
			return
		}
		w := plain.Error()
		if name != "" {
			w = placeRe.ReplaceAllStringFunc(w, func(p string) string { return name + ":" + p })
		}
		if err.Error() != w {
			bad("want the error %q, got %q", w, err.Error())
		}
	}
}
