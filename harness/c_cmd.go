package main

// C41: the golisp command. The program of /repo/main is built once per worker and run in processes of
// its own: with files to load and lines to read afterwards, and with tests to run.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

var (
	cmdBin string
	cmdErr string
)

func setupCmd() {
	setupPrims()
	cmdBin = filepath.Join(scratch(), "golisp")
	b := exec.Command("go", "build", "-o", cmdBin, ".")
	b.Dir = filepath.Join(filepath.Dir(filepath.Dir(libFile("x"))), "main")
	if out, err := b.CombinedOutput(); err != nil {
		cmdErr = fmt.Sprintf("%v: %s", err, out)
	}
}

// runCmd runs the command in dir; hung is set when it does not end
func runCmd(dir, stdin string, args ...string) (stdout string, err error, hung bool) {
	cmd := exec.Command(cmdBin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "TERM=dumb", "INPUTRC=/dev/null", "PATH=" + os.Getenv("PATH"), "LC_ALL=C"}
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err = cmd.Start(); err != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		hung = true
	}
	if err != nil {
		err = fmt.Errorf("%v: %s", err, tailOf(errb.String()))
	}
	return out.String(), err, hung
}

// cForm is one form of a file or line of the session; run gives what it prints and what becomes of it
type cForm struct {
	text string
	run  func(m *cModel, repl bool) (val string, out cOutcome)
}

type cOutcome int

const (
	cOK cOutcome = iota
	cFail
	cQuit
)

type cFn struct {
	v string
	k int
}

type cModel struct {
	r      *rand.Rand
	vars   map[string]int // of the global environment
	local  map[string]int // of the REPL
	fns    map[string]cFn
	files  map[string][]cForm
	broken map[string]bool // ends in the middle of a form
	names  []string
	want   []string // lines printed; "\x03" begins an error whose text is not compared
	loads  int
	fails  int
}

func (m *cModel) print(f string, a ...interface{}) { m.want = append(m.want, fmt.Sprintf(f, a...)) }

func (m *cModel) load(n string, repl bool) cOutcome {
	m.loads++
	fs, ok := m.files[n]
	if !ok {
		return cFail
	}
	for _, f := range fs {
		if _, o := f.run(m, repl); o != cOK {
			return o
		}
	}
	if m.broken[n] {
		return cFail
	}
	return cOK
}

func (m *cModel) get(v string, repl bool) (int, bool) {
	if repl {
		if x, ok := m.local[v]; ok {
			return x, true
		}
	}
	x, ok := m.vars[v]
	return x, ok
}

// form makes a random form. Files nest only towards higher numbers.
func (m *cModel) form(above int, top bool) cForm {
	r := m.r
	v := fmt.Sprintf("v%d", r.Intn(4))
	fn := fmt.Sprintf("f%d", r.Intn(3))
	k := r.Intn(90)
	inFile := !top
	switch r.Intn(14) {
	case 0, 1, 2:
		return cForm{fmt.Sprintf("(define %s %d)", v, k), func(m *cModel, repl bool) (string, cOutcome) {
			if inFile {
				m.vars[v] = k
			} else {
				m.local[v] = k
			}
			return fmt.Sprint(k), cOK
		}}
	case 3, 4:
		return cForm{fmt.Sprintf("(set! %s (+ %s %d))", v, v, k), func(m *cModel, repl bool) (string, cOutcome) {
			x, ok := m.get(v, !inFile)
			if !ok {
				return "", cFail
			}
			x += k
			if _, ok := m.local[v]; ok && !inFile {
				m.local[v] = x
			} else {
				m.vars[v] = x
			}
			return fmt.Sprint(x), cOK
		}}
	case 5, 6, 7:
		return cForm{fmt.Sprintf("(format #t \"%d is ~A~%%\" %s)", k, v), func(m *cModel, repl bool) (string, cOutcome) {
			x, ok := m.get(v, !inFile)
			if ok {
				m.print("%d is %d", k, x)
			} else {
				m.print("%d is ()", k)
			}
			return "*", cOK
		}}
	case 8:
		return cForm{fmt.Sprintf("(define (%s a)\x01(set! %s (+ %s a %d))\x01(format #t \"%s ~A~%%\" %s)\x01%s)", fn, v, v, k, fn, v, v), func(m *cModel, repl bool) (string, cOutcome) {
			if inFile { // the session defines none
				m.fns[fn] = cFn{v, k}
			}
			return "*", cOK
		}}
	case 9, 10:
		return cForm{fmt.Sprintf("(%s %d)", fn, k), func(m *cModel, repl bool) (string, cOutcome) {
			f, ok := m.fns[fn]
			if !ok {
				return "", cFail
			}
			x, ok := m.vars[f.v]
			if !ok {
				return "", cFail
			}
			m.vars[f.v] = x + k + f.k
			m.print("%s %d", fn, m.vars[f.v])
			return fmt.Sprint(m.vars[f.v]), cOK
		}}
	case 11:
		n := "nosuch.lsp"
		if above+1 < len(m.names) && r.Intn(8) > 0 {
			n = m.names[above+1+r.Intn(len(m.names)-above-1)]
		}
		return cForm{fmt.Sprintf("(load \"%s\")", n), func(m *cModel, repl bool) (string, cOutcome) {
			return "*", m.load(n, repl)
		}}
	case 12:
		switch r.Intn(9) {
		case 0:
			return cForm{"(quit)", func(m *cModel, repl bool) (string, cOutcome) {
				if repl {
					return "", cQuit
				}
				return "()", cOK
			}}
		case 1, 2, 3:
			return cForm{fmt.Sprintf("(on-error\x01(begin (error \"e%d\") (format #t \"not here~%%\"))\x01(lambda (e) (format #t \"handled %d~%%\")))", k, k), func(m *cModel, repl bool) (string, cOutcome) {
				m.print("handled %d", k)
				return "*", cOK
			}}
		}
	}
	if inFile && r.Intn(3) == 0 {
		return cForm{[]string{"()", "nil", "'()", "#f"}[r.Intn(4)], func(m *cModel, repl bool) (string, cOutcome) { return "*", cOK }}
	}
	if r.Intn(3) > 0 {
		return cForm{"\"; a string \\\" (error \\\"x\\\")\"", func(m *cModel, repl bool) (string, cOutcome) { return "*", cOK }}
	}
	return cForm{[]string{"(error \"stop\")", "(+ 1 'a)", "(begin (car 1 2) 3)", "(nofunction 1)"}[r.Intn(4)], func(m *cModel, repl bool) (string, cOutcome) {
		return "", cFail
	}}
}

func c41Files(c *Case) {
	if cmdErr != "" {
		c.Inconclusive("the golisp command cannot be built: %s", cmdErr)
		return
	}
	r := c.R
	m := &cModel{r: r, vars: map[string]int{}, local: map[string]int{}, fns: map[string]cFn{}, files: map[string][]cForm{}, broken: map[string]bool{}}
	dir := filepath.Join(scratch(), fmt.Sprintf("cmd%d", c.Idx))
	os.MkdirAll(filepath.Join(dir, "sub"), 0o700)
	defer os.RemoveAll(dir)
	for i := 0; i < 1+r.Intn(5); i++ {
		m.names = append(m.names, []string{fmt.Sprintf("a%d.lsp", i), fmt.Sprintf("sub/b%d.lsp", i), fmt.Sprintf("a %d", i), filepath.Join(dir, fmt.Sprintf("c%d.txt", i))}[r.Intn(4)])
	}
	desc := ""
	for i, n := range m.names {
		var src strings.Builder
		m.files[n] = nil
		for j := r.Intn(12); j > 0; j-- {
			f := m.form(i, false)
			m.files[n] = append(m.files[n], f)
			src.WriteString(strings.ReplaceAll(f.text, "\x01", []string{" ", "\n  ", " ; ) not the end (\n\t"}[r.Intn(3)]))
			src.WriteString([]string{"\n", " ", "\n\n", "\r\n", " ; (error \"in a comment\") \"\n", "\n;;\n", ""}[r.Intn(7)])
		}
		if r.Intn(8) == 0 {
			m.broken[n] = true
			src.WriteString([]string{"\n(begin (format #t \"never~%\")", "\n(format #t \"never~%\" '(1 2)", "\n(define v0 (+ 1 2) (format #t \"never~%\""}[r.Intn(3)])
		}
		p := n
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, p)
		}
		if os.WriteFile(p, []byte(src.String()), 0o600) != nil {
			c.Inconclusive("cannot write %s", p)
			return
		}
		desc += "---- " + strings.TrimPrefix(n, dir) + "\n" + src.String() + "\n"
	}
	var args []string
	for i := r.Intn(5); i > 0; i-- {
		n := m.names[r.Intn(len(m.names))]
		if r.Intn(8) == 0 {
			n = []string{"missing.lsp", "sub", "sub/missing.lsp"}[r.Intn(3)]
		}
		args = append(args, n)
	}
	for _, a := range args {
		m.print("Loading %s", a)
		if m.load(a, false) == cFail {
			m.fails++
			m.print("\x03Error: ")
		}
	}
	m.print("Welcome to GoLisp 1.0")
	m.print("Copyright 2015 SteelSeries")
	m.print("Evaluate '(quit)' to exit.")
	m.print("")
	stdin := ""
	quit := false
	for i := r.Intn(12); i > 0 && !quit; i-- {
		if r.Intn(12) == 0 {
			stdin += "\n"
			m.print("> ")
			continue
		}
		f := m.form(-1, true)
		if strings.HasPrefix(f.text, "(define (") {
			continue
		}
		t := strings.ReplaceAll(f.text, "\x01", " ")
		stdin += t + "\n"
		if len(t) < 60 {
			m.print("> %s", t)
		} else { // readline scrolls
			m.print("\x02> ")
		}
		val, o := f.run(m, true)
		switch o {
		case cOK:
			if val == "*" {
				m.print("\x02==> ")
			} else {
				m.print("==> %s", val)
			}
		case cFail:
			m.fails++
			m.print("\x03Error in evaluation: ")
		case cQuit:
			quit = true
		}
	}
	if !quit {
		if r.Intn(2) == 0 {
			stdin += "(quit)\n"
			m.print("> (quit)")
		} else {
			m.print("\x02> ")
		}
	}
	m.print("\x03") // goodbye
	c.Desc("golisp %q\n%s---- typed\n%s", args, desc, stdin)
	out, err, hung := runCmd(dir, stdin, args...)
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig+":"+c.desc, "%s\n%s\n---- printed\n%s", fmt.Sprintf(f, a...), c.desc, head(out, 3000))
	}
	if hung {
		fail("hangs", "the command does not end")
		return
	}
	if err != nil {
		fail("exit", "the command ended with %v", err)
		return
	}
	got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if bad := matchLines(m.want, got); bad != "" {
		fail("printed", "%s", bad)
		return
	}
	c.Count("runs", 1)
	c.Count("loads", m.loads)
	c.Count("failed", m.fails)
	c.Count("lines", len(m.want))
	c.Distinct(c.desc)
}

// matchLines: want against got; after an error any lines up to the next one wanted
func matchLines(want, got []string) string {
	j := 0
	for i := 0; i < len(want); i++ {
		w := want[i]
		if j >= len(got) {
			return fmt.Sprintf("after %d lines there is no %q", j, w)
		}
		g := got[j]
		switch w[:min(1, len(w))] {
		case "\x02", "\x03":
			if !strings.HasPrefix(g, w[1:]) {
				return fmt.Sprintf("line %d is %q, want %q", j+1, g, w[1:])
			}
			j++
			if w[0] == '\x03' {
				if i == len(want)-1 {
					return ""
				}
				for j < len(got) && got[j] != want[i+1] && !(len(want[i+1]) > 0 && want[i+1][0] <= 3 && strings.HasPrefix(got[j], want[i+1][1:]) && want[i+1] != "\x03") && want[i+1] != "\x03" {
					j++
				}
			}
		default:
			if g != w {
				return fmt.Sprintf("line %d is %q, want %q", j+1, g, w)
			}
			j++
		}
	}
	if j < len(got) {
		return fmt.Sprintf("line %d is %q, which nothing should print", j+1, got[j])
	}
	return ""
}

var ranRE = regexp.MustCompile(`(?m)^Ran (\d+) tests in [0-9.e+-]+ seconds$`)
var tickRE = regexp.MustCompile(`(?m)^\*tick \d+$`)

func c41Tests(c *Case) {
	if cmdErr != "" {
		c.Inconclusive("the golisp command cannot be built: %s", cmdErr)
		return
	}
	r := c.R
	g := &tfGen{r}
	dir := filepath.Join(scratch(), fmt.Sprintf("cmdt%d", c.Idx))
	td := []string{"t", "deep/t", "t.d", "."}[r.Intn(4)]
	os.MkdirAll(filepath.Join(dir, td), 0o700)
	os.MkdirAll(filepath.Join(dir, "lisp"), 0o700)
	defer os.RemoveAll(dir)
	fw, err := os.ReadFile(libFile("testing.lsp"))
	if err != nil || os.WriteFile(filepath.Join(dir, "lisp", "testing.lsp"), fw, 0o600) != nil {
		c.Inconclusive("no test framework: %v", err)
		return
	}
	const tick = "(define (vh-tick n) (format #t \"*tick ~A~%\" n) n)\n"
	files := 1 + r.Intn(3)
	all := r.Intn(2) == 0
	pickOne := r.Intn(files)
	single := fmt.Sprintf("f%d_test.lsp", pickOne)
	var n counts
	var failures []string
	ticks, src := 0, ""
	for i := 0; i < files; i++ {
		t, m, f, e, _, k := g.file(i)
		t = tick + t
		if !all && i == pickOne {
			single = []string{single, single, "other.lsp", "test.lsp"}[r.Intn(4)]
			os.WriteFile(filepath.Join(dir, td, single), []byte(t), 0o600)
		} else {
			os.WriteFile(filepath.Join(dir, td, fmt.Sprintf("f%d_test.lsp", i)), []byte(t), 0o600)
		}
		if all || i == pickOne {
			n.p, n.f, n.e = n.p+m.p, n.f+m.f, n.e+m.e
			failures = append(append(failures, f...), e...)
			ticks += k
			src += t
		}
	}
	os.WriteFile(filepath.Join(dir, td, "helper.lsp"), []byte("(format #t \"*tick 1~%\") (error \"not a test\")"), 0o600)
	target := td
	if !all {
		target = filepath.Join(td, single)
	}
	if r.Intn(3) == 0 {
		target = filepath.Join(dir, target)
	}
	verbose := r.Intn(3) == 0
	args := []string{"-t"}
	if verbose {
		args = [][]string{{"-t", "-v"}, {"-v", "-t"}, {"-t", "-v=true"}}[r.Intn(3)]
	}
	args = append(args, target)
	if r.Intn(4) == 0 {
		args = append(args, filepath.Join(td, "helper.lsp"))
	}
	stdin := "(format #t \"*tick 77~%\")\n"
	c.Desc("golisp %q\n%s", args, src)
	out, err, hung := runCmd(dir, stdin, args...)
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig+":"+c.desc, "%s\n%s\n---- printed\n%s", fmt.Sprintf(f, a...), c.desc, head(out, 3000))
	}
	if hung {
		fail("hangs", "the command does not end")
		return
	}
	if err != nil {
		fail("exit", "the command ended with %v", err)
		return
	}
	if k := len(tickRE.FindAllString(out, -1)); k != ticks {
		fail("ticks", "%d markers were evaluated, want %d", k, ticks)
		return
	}
	if strings.Contains(out, "Welcome to GoLisp") {
		fail("session", "the tests are followed by a session")
		return
	}
	ran := ranRE.FindAllStringSubmatch(out, -1)
	if len(ran) != 1 || ran[0][1] != fmt.Sprint(n.p+n.f+n.e) || strings.Count(out, fmt.Sprintf("\n%d passes, %d failures, %d errors\n", n.p, n.f, n.e)) != 1 {
		fail("summary", "the summary does not show %d passes, %d failures, %d errors", n.p, n.f, n.e)
		return
	}
	// the report names each failure and error; the names of contexts appear elsewhere only when asked for
	var named []string
	at := strings.Index(out, ran[0][0])
	for _, l := range strings.Split(out[at:], "\n") {
		if strings.HasPrefix(l, "  context ") {
			named = append(named, strings.TrimSuffix(strings.TrimSpace(l), ":"))
		}
	}
	sort.Strings(named)
	sort.Strings(failures)
	if strings.Join(named, "\n") != strings.Join(failures, "\n") {
		fail("named", "the report names\n%s\nwant\n%s", strings.Join(named, "\n"), strings.Join(failures, "\n"))
		return
	}
	if got := strings.Contains(out[:at], "context "); got != verbose {
		fail("verbose", "contexts are listed: %v, verbose: %v", got, verbose)
		return
	}
	c.Count("test_runs", 1)
	c.Count("passes", n.p)
	c.Count("failures", n.f)
	c.Count("errors", n.e)
	if all {
		c.Count("directories", 1)
	}
	if verbose {
		c.Count("verbose", 1)
	}
	c.Distinct(c.desc)
}

func init() {
	register(&Check{
		ID: "C41", Setup: setupCmd, Need: []string{"runs", "loads", "failed", "test_runs", "directories", "verbose"},
		Rule: "the golisp command, built from the tree, in processes of its own: random sets of files that define, change and print variables, load one another, fail or end in the middle of a form, named in any order and number on the command line, followed by a typed session; and random test files and directories run with -t and -v: everything printed compared with a model of global and session variables and of what each form does; distinct by files and arguments",
		Phases: []Phase{
			{Name: "files", Quick: 4000, Thorough: 200000, Run: c41Files},
			{Name: "tests", Quick: 1500, Thorough: 50000, Run: c41Tests},
		},
		Assumptions: []string{"the text of error messages and the farewell are not compared; file names contain no quotes or backslashes"},
	})
}
