package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Runs histories of mustache commands, each in a directory of its own.

type hFile struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // "missing", "dir", "text", "other"
	B    []byte `json:"b"`
	R    bool   `json:"r"`
	W    bool   `json:"w"`
	Link string `json:"link"` // "", "symbolic", "hard" or "null" (to the null device)
	To   string `json:"to"`   // name of the file a link stands for
}

type hStep struct {
	Args   []string `json:"args"`
	Exit   int      `json:"exit"`
	Out    []byte   `json:"out"`
	Err    []byte   `json:"err"`
	After  []hFile  `json:"after"`
	Others bool     `json:"others"`
}

type hist struct {
	Files []hFile `json:"files"`
	Steps []hStep `json:"steps"`
}

const nobody = 65534

var late atomic.Int32 // commands that had to be ended

// other says whether commands can be run as another user.
func other() bool {
	c := exec.Command("true")
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	return c.Run() == nil
}

func check(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func (h *hist) run(bin, d string, drop bool) {
	check(os.MkdirAll(filepath.Join(d, "sub"), 0o777))
	extra := map[string]string{"keep.conf": "input{a{}}", "sub/keep": "filter { b { } }\n"}
	for n, b := range extra {
		check(os.WriteFile(filepath.Join(d, n), []byte(b), 0o644))
	}
	modes := map[string]os.FileMode{}
	for _, f := range h.Files {
		p := filepath.Join(d, f.Name)
		switch {
		case f.Link != "":
		case f.Kind == "dir":
			check(os.Mkdir(p, 0o755))
			check(os.WriteFile(filepath.Join(p, "in.conf"), []byte("input{a{}}"), 0o666))
			extra[f.Name+"/in.conf"] = "input{a{}}"
		case f.Kind == "text" && !f.R && !drop:
			l, err := net.Listen("unix", p)
			check(err)
			l.(*net.UnixListener).SetUnlinkOnClose(false)
			l.Close()
		case f.Kind == "text":
			check(os.WriteFile(p, f.B, 0o644))
			mode := os.FileMode(0)
			if f.R {
				mode |= 0o444
			}
			if f.W {
				mode |= 0o222
			}
			check(os.Chmod(p, mode))
			modes[f.Name] = mode
		}
	}
	for i := range h.Files {
		f := &h.Files[i]
		p, to := filepath.Join(d, f.Name), filepath.Join(d, f.To)
		if _, ok := modes[f.To]; !ok && f.Link == "hard" {
			f.Link = "symbolic"
		}
		switch f.Link {
		case "symbolic":
			rel, err := filepath.Rel(filepath.Dir(p), to)
			check(err)
			check(os.Symlink(rel, p))
		case "hard":
			check(os.Link(to, p))
			modes[f.Name] = modes[f.To]
		case "null":
			check(os.Symlink(os.DevNull, p))
		}
	}
	check(os.Chmod(d, 0o777))
	check(os.Chmod(filepath.Join(d, "sub"), 0o777))
	for k := range h.Steps {
		s := &h.Steps[k]
		c := exec.Command(bin, s.Args...)
		var out, errb bytes.Buffer
		c.Dir, c.Stdout, c.Stderr = d, &out, &errb
		c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + d, "XDG_CONFIG_HOME=" + d + "/none", "LANG=C"}
		if drop {
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		}
		check(c.Start())
		wait := 60 * time.Second
		if late.Load() > 3 {
			wait = 5 * time.Second
		}
		t := time.AfterFunc(wait, func() { late.Add(1); c.Process.Kill() })
		c.Wait()
		t.Stop()
		s.Exit, s.Out, s.Err = c.ProcessState.ExitCode(), out.Bytes(), errb.Bytes()
		known := map[string]bool{".": true, "sub": true}
		for _, f := range h.Files {
			known[f.Name] = true
			g := hFile{Name: f.Name, Kind: "other"}
			p := filepath.Join(d, f.Name)
			st, err := os.Lstat(p)
			symbolic := err == nil && st.Mode()&os.ModeSymlink != 0
			if symbolic {
				st, err = os.Stat(p)
			}
			to, _ := os.Stat(filepath.Join(d, f.To))
			switch {
			case (f.Link == "symbolic" || f.Link == "null") != symbolic:
			case f.Link == "null":
				if to, _ := os.Stat(os.DevNull); err == nil && os.SameFile(st, to) {
					g.Kind = "text"
				}
			case f.Link == "hard" && (err != nil || to == nil || !os.SameFile(st, to)):
			case err != nil:
				g.Kind = "missing"
			case st.IsDir():
				g.Kind = "dir"
			case st.Mode().IsRegular():
				if m, ok := modes[f.Name]; ok && st.Mode() != m {
					break
				}
				g.Kind = "text"
				g.B, err = os.ReadFile(p)
				check(err)
			case st.Mode()&os.ModeSocket != 0:
				g.Kind, g.B = "text", f.B
			}
			s.After = append(s.After, g)
		}
		for n, b := range extra {
			known[n] = true
			if x, err := os.ReadFile(filepath.Join(d, n)); err != nil || string(x) != b {
				s.Others = true
			}
		}
		filepath.Walk(d, func(p string, _ os.FileInfo, err error) error {
			if r, _ := filepath.Rel(d, p); err == nil && !known[r] {
				s.Others = true
			}
			return nil
		})
	}
	os.RemoveAll(d)
}

func cmdHistory(args []string) {
	fs := flag.NewFlagSet("history", flag.ExitOnError)
	bin := fs.String("bin", "", "the command")
	dir := fs.String("dir", "", "scratch directory")
	in := fs.String("in", "", "histories")
	out := fs.String("out", "", "histories with what happened")
	fs.Parse(args)
	syscall.Umask(0)
	var hs []hist
	b, err := os.ReadFile(*in)
	check(err)
	check(json.Unmarshal(b, &hs))
	drop := other()
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < 10; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				hs[i].run(*bin, filepath.Join(*dir, strconv.Itoa(i)), drop)
			}
		}()
	}
	for i := range hs {
		next <- i
	}
	close(next)
	wg.Wait()
	writeJSON(*out, map[string]any{"dropped": drop, "hists": hs})
}

func cmdOther([]string) { os.Stdout.WriteString(strconv.FormatBool(other()) + "\n") }
