package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/steelseries/golisp"
)

// ---- C35: a program has the same results and effects however it is run ---------------------------------

var deliverSeq int

// uniqueNames gives the names that a program defines a suffix, so that it can be run in the global environment
func uniqueNames(prog []V, suffix string) []V {
	gen := regexp.MustCompile(`^v\d+$`)
	pool := map[Sym]bool{}
	for _, n := range namePool {
		pool[n] = true
	}
	var walk func(V) V
	walk = func(v V) V {
		switch x := v.(type) {
		case Sym:
			if pool[x] || gen.MatchString(string(x)) {
				return x + Sym(suffix)
			}
		case *Pair:
			return &Pair{walk(x.A), walk(x.D)}
		}
		return v
	}
	var out []V
	for _, f := range prog {
		out = append(out, walk(f))
	}
	return out
}

func separator(r *rand.Rand) string {
	return []string{"\n", " ", "\n\n", "\t", "\r\n", " ; a comment (with \"parens\"\n", "\n;;; ---\n;\n", "   \n", "\n;\r\n"}[r.Intn(9)]
}

type delivery struct {
	name   string
	global bool
	pieces bool // one result per form, errors do not stop it
	run    func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error)
}

func one(d *golisp.Data, err error) ([]*golisp.Data, []error) {
	return []*golisp.Data{d}, []error{err}
}

func each(forms []string, f func(string) (*golisp.Data, error)) (ds []*golisp.Data, es []error) {
	for _, s := range forms {
		d, err := f(s)
		ds, es = append(ds, d), append(es, err)
	}
	return
}

var deliveries = []delivery{
	{"ParseAndEvalAllInEnvironment", false, false, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return one(golisp.ParseAndEvalAllInEnvironment(text, env))
	}},
	{"ParseAndEvalInEnvironment", false, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return each(forms, func(s string) (*golisp.Data, error) { return golisp.ParseAndEvalInEnvironment(s, env) })
	}},
	{"ProcessFileInEnvironment", false, false, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return one(golisp.ProcessFileInEnvironment(file, env))
	}},
	{"ParseAll and Eval", false, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) (ds []*golisp.Data, es []error) {
		all, err := golisp.ParseAll(text)
		if err != nil || len(all) != len(forms) {
			return one(nil, fmt.Errorf("ParseAll: %d forms instead of %d, %v", len(all), len(forms), err))
		}
		for _, f := range all {
			d, err := golisp.Eval(f, env)
			ds, es = append(ds, d), append(es, err)
		}
		return
	}},
	{"read from a port and eval", false, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) (ds []*golisp.Data, es []error) {
		p, err := evalText(fmt.Sprintf("(open-input-file %q)", file), env)
		if err != nil {
			return one(nil, err)
		}
		defer applyNamed("close-port", p)
		reader := golisp.Global.ValueOf(symD("read"))
		evaler := golisp.Global.ValueOf(symD("eval"))
		for range forms {
			f, err := golisp.ApplyWithoutEval(reader, golisp.InternalMakeList(p), env)
			if err != nil {
				return one(nil, err)
			}
			d, err := golisp.ApplyWithoutEval(evaler, golisp.InternalMakeList(f, golisp.EnvironmentWithValue(env)), golisp.Global)
			ds, es = append(ds, d), append(es, err)
		}
		return
	}},
	{"eval of quoted forms", false, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return each(forms, func(s string) (*golisp.Data, error) {
			return golisp.ParseAndEvalInEnvironment("(eval '"+s+")", env)
		})
	}},
	{"apply of parsed text", false, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return each(forms, func(s string) (*golisp.Data, error) {
			return golisp.Eval(golisp.InternalMakeList(symD("eval"), golisp.InternalMakeList(symD("parse"), golisp.StringWithValue(s))), env)
		})
	}},
	{"ParseAndEvalAll", true, false, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return one(golisp.ParseAndEvalAll(text))
	}},
	{"ParseAndEval", true, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return each(forms, golisp.ParseAndEval)
	}},
	{"ProcessFile", true, false, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return one(golisp.ProcessFile(file))
	}},
	{"load", true, false, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return one(golisp.ParseAndEvalInEnvironment(fmt.Sprintf("(load %q)", file), env))
	}},
	{"load through a function", true, false, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return one(golisp.ParseAndEvalInEnvironment(fmt.Sprintf("(let ((f (lambda (x) (load x)))) (f %q))", file), env))
	}},
	{"global-eval", true, true, func(text string, forms []string, file string, env *golisp.SymbolTableFrame) ([]*golisp.Data, []error) {
		return each(forms, func(s string) (*golisp.Data, error) {
			return golisp.ParseAndEvalInEnvironment("(let ((a 0) (x \"local\")) (global-eval '"+s+"))", env)
		})
	}},
}

// run f with one of the evaluator's diagnostics on; what it prints goes to a file
func withMode(mode int, f func()) (printed string) {
	if mode == 0 {
		f()
		return ""
	}
	p := filepath.Join(scratch(), "c35out")
	tmp, err := os.Create(p)
	if err != nil {
		f()
		return ""
	}
	stdout := os.Stdout
	os.Stdout = tmp
	defer func() {
		os.Stdout = stdout
		golisp.LispTrace, golisp.DebugTrace, golisp.IsInteractive = false, false, false
		tmp.Close()
	}()
	switch mode {
	case 1:
		evalText("(lisp-trace #t)", golisp.Global)
	case 2:
		evalText("(debug-trace #t)", golisp.Global)
	case 3:
		golisp.IsInteractive = true
	}
	f()
	switch mode {
	case 1:
		evalText("(lisp-trace #f)", golisp.Global)
	case 2:
		evalText("(debug-trace #f)", golisp.Global)
	}
	b, _ := os.ReadFile(p)
	return string(b)
}

var modeNames = []string{"plain", "lisp-trace", "debug-trace", "interactive"}

func c35Programs(c *Case) {
	r := c.R
	weights := map[string]int{"fail": 1}
	if r.Intn(3) == 0 {
		weights = map[string]int{"fail": 3, "onerror": 10}
	}
	g := newGen(r, weights)
	prog := g.Program(2+r.Intn(5), 2+r.Intn(2))
	in := newRef(6000)
	for _, f := range prog {
		in.Trace = nil
		if _, _, _, over := in.Run(f, in.G); over {
			return
		}
	}
	del := deliveries[c.Idx%len(deliveries)]
	mode := 0
	if r.Intn(3) == 0 {
		mode = 1 + r.Intn(3)
	}
	deliverSeq++
	suffix := ""
	if del.global {
		suffix = fmt.Sprintf("-%d-%d", os.Getpid(), deliverSeq)
	}
	prog = uniqueNames(prog, suffix)
	for n := r.Intn(3); n > 0; n-- { // forms that are nothing but a datum, the empty list among them
		i := r.Intn(len(prog) + 1)
		v := []V{Nil, Sym("nil"), false, true, Str(""), int64(0), &Bytes{nil}, &FrameV{map[string]V{}}, list(Sym("quote"), Nil), list(Sym("quote"), Sym("abc")), float32(1.5)}[r.Intn(11)]
		prog = append(prog[:i:i], append([]V{v}, prog[i:]...)...)
		c.Count("datum_forms", 1)
	}
	var forms []string
	text := ""
	if r.Intn(3) == 0 {
		text = separator(r)
	}
	padding := ""
	padAt := -1
	if r.Intn(15) == 0 { // a program text larger than any buffer
		padding = strings.Repeat([]string{" ", "; filler ( \" [\n", "\n"}[r.Intn(3)], 1+r.Intn(20000))
		padding += ";" + strings.Repeat("-", []int{100, 4096, 66000, 140000}[r.Intn(4)]+r.Intn(50)) + "\n"
		padAt = r.Intn(len(prog))
	}
	for i, f := range prog {
		forms = append(forms, show(f))
		if i > 0 {
			text += separator(r)
		}
		if i == padAt {
			text += "\n" + padding
		}
		text += show(f)
	}
	broken := ""
	if !del.pieces && r.Intn(5) == 0 { // the text ends inside a form
		broken = []string{" (vh-tick 1", "\n(vh-tick 2 '", " \"abc", " {a: 1", " [1 2", "\n(1 . "}[r.Intn(6)]
		text += broken
	} else if r.Intn(3) > 0 {
		text += separator(r)
	}
	if padAt >= 0 {
		c.Desc("%s, %s, with %d bytes of white space and comments for %%PADDING%%:\n%s", del.name, modeNames[mode], len(padding), strings.Replace(text, padding, "%PADDING%\n", 1))
		c.Count("large_texts", 1)
	} else {
		c.Desc("%s, %s:\n%s", del.name, modeNames[mode], text)
	}

	// form by form, in an environment of its own
	base := freshEnv()
	var wantOut []string
	var wantErr []error
	var wantTrace [][]string
	rec.take()
	for _, s := range forms {
		d, err := golisp.Eval(mustParse(s), base)
		wantOut = append(wantOut, showOutcome(d, err))
		wantErr = append(wantErr, err)
		wantTrace = append(wantTrace, rec.take())
	}
	stopped := len(forms)
	if !del.pieces {
		var out string
		var err error
		var tr []string
		for i := range forms {
			tr = append(tr, wantTrace[i]...)
			out, err = wantOut[i], wantErr[i]
			if err != nil {
				stopped = i
				break
			}
		}
		if broken != "" && err == nil {
			out, err = "ERROR", fmt.Errorf("broken text")
		}
		wantOut, wantErr, wantTrace = []string{out}, []error{err}, [][]string{tr}
	}
	file := filepath.Join(scratch(), "c35.lsp")
	if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
		return
	}
	env := freshEnv()
	var ds []*golisp.Data
	var es []error
	printed := withMode(mode, func() { ds, es = del.run(text, forms, file, env) })
	trace := rec.take()
	if len(ds) != len(wantOut) {
		c.Fail("forms:"+c.desc, "%d results instead of %d, first error %v\n%s", len(ds), len(wantOut), es[0], c.desc)
		return
	}
	var wt []string
	for i := range ds {
		wt = append(wt, wantTrace[i]...)
		got := showOutcome(ds[i], es[i])
		if got != wantOut[i] && stripErrStrings(got) != stripErrStrings(wantOut[i]) {
			c.Fail("result:"+c.desc, "result %d is %s (%v), form by form it is %s (%v)\n%s", i, got, es[i], wantOut[i], wantErr[i], c.desc)
			return
		}
		if es[i] != nil && wantErr[i] != nil && !(broken != "" && stopped == len(forms)) && !strings.Contains(es[i].Error(), lastLine(wantErr[i].Error())) {
			c.Fail("error:"+c.desc, "error %d is %v, form by form it is %v\n%s", i, es[i], wantErr[i], c.desc)
			return
		}
		if es[i] != nil {
			c.Count("errors", 1)
		}
	}
	for _, l := range [][]string{wt, trace} {
		for i := range l {
			l[i] = stripErrStrings(l[i])
		}
	}
	if strings.Join(wt, "\n") != strings.Join(trace, "\n") {
		c.Fail("effects:"+c.desc, "effects %v\nform by form %v\n%s", trace, wt, c.desc)
		return
	}
	// what the program defined is the same afterwards
	where := env
	if del.global {
		where = golisp.Global
	}
	for _, n := range namePool {
		name := string(n) + suffix
		a, b := canonD(base.ValueOf(symD(name))), canonD(where.ValueOf(symD(name)))
		if stopped == len(forms) && a != b && stripErrStrings(a) != stripErrStrings(b) {
			c.Fail("defined:"+c.desc, "afterwards %s is %s, form by form it is %s\n%s", name, b, a, c.desc)
			return
		}
	}
	if mode == 1 {
		if len(trace) > 0 && !strings.Contains(printed, "vh-") {
			c.Fail("trace:"+c.desc, "the trace does not show the evaluated markers\n%s", c.desc)
			return
		}
		c.Count("traced", 1)
	}
	c.Count("programs", 1)
	c.Count("events", len(trace))
	c.Count("way_"+del.name, 1)
	c.Count("mode_"+modeNames[mode], 1)
	if broken != "" {
		c.Count("broken_text", 1)
	}
	c.Distinct(del.name + text)
	if c.Idx < 3 {
		c.Sample(c.desc)
	}
}

// the trace of an expression: its first line shows the expression, its last one the result
func c35Trace(c *Case) {
	g := newGen(c.R, map[string]int{"fail": 1})
	e := g.expr([]ty{tInt, tList, tBool}[g.n(3)], 3)
	in := newRef(3000)
	if _, _, _, over := in.Run(e, in.G); over {
		return
	}
	src := show(e)
	c.Desc("trace of %s", src)
	form := mustParse(src)
	text := golisp.String(form)
	env := freshEnv()
	var d *golisp.Data
	var err error
	out := withMode(1, func() { d, err = golisp.Eval(form, env) })
	rec.take()
	lines := strings.Split(out, "\n")
	// switching the trace on and off leaves at most two lines around it
	first := -1
	for i, l := range lines {
		if strings.HasSuffix(l, "> "+text) {
			first = i
			break
		}
	}
	if first < 0 || first > 2 {
		c.Fail("trace:"+src, "the trace of %s does not begin with it:\n%s", text, head(out, 400))
		return
	}
	if err == nil {
		re := regexp.MustCompile(`^ *\d+: <-* `)
		res, n := golisp.String(d), 0
		for _, l := range lines[first:] {
			if re.MatchString(l) && re.ReplaceAllString(l, "") == res {
				n++
			}
		}
		if n == 0 {
			c.Fail("traceresult:"+src, "the trace of %s does not show its result %s:\n%s", text, res, head(out, 1000))
			return
		}
	}
	c.Count("traces", 1)
	c.Distinct(src)
}

// definition-of gives a definition of an equal function
func c35Definition(c *Case) {
	r := c.R
	g := newGen(r, nil)
	k := r.Intn(3)
	form := r.Intn(5)
	rest := (k > 0 || form == 1 || form == 3) && r.Intn(4) == 0
	params, body := g.lambdaParts(k, rest, tInt, 3)
	lam := listTail(append([]V{Sym("lambda"), params}, body...), Nil)
	name := "fun"
	var def string
	switch form {
	case 0:
		def = fmt.Sprintf("(define %s %s)", name, show(lam))
	case 1:
		def = show(listTail(append([]V{Sym("define"), &Pair{Sym(name), params}}, body...), Nil))
	case 2:
		def = fmt.Sprintf("(define %s (begin 1 %s))", name, show(lam))
	case 3:
		def = show(listTail([]V{Sym("define"), Sym(name), listTail(append([]V{Sym("named-lambda"), &Pair{Sym("fun"), params}}, body...), Nil)}, Nil))
	case 4:
		def = fmt.Sprintf("(begin (define gun %s) (define %s gun))", show(lam), name)
	}
	env, env2 := freshEnv(), freshEnv()
	c.Desc("%s", def)
	if _, err := evalText(def, env); err != nil {
		c.Fail("define:"+def, "%s failed: %v", def, err)
		return
	}
	code, err := evalText("(definition-of fun)", env)
	if err != nil {
		c.Fail("defof:"+def, "definition-of after %s failed: %v", def, err)
		return
	}
	if _, err := golisp.Eval(code, env2); err != nil {
		c.Fail("defeval:"+def, "after %s the definition is %s, evaluating it failed: %v", def, showD(code), err)
		return
	}
	printed := golisp.String(code)
	env3 := freshEnv()
	back, err := golisp.Parse(printed)
	if err == nil {
		_, err = golisp.Eval(back, env3)
	}
	if err != nil {
		c.Fail("defprint:"+def, "after %s the definition prints as %s, reading and evaluating that failed: %v", def, printed, err)
		return
	}
	callee := "fun"
	if !golisp.FunctionP(env2.ValueOf(symD("fun"))) {
		callee = "gun" // the function kept the name it was first defined by
	}
	for i := 0; i < 3; i++ {
		n := k
		if rest {
			n += r.Intn(3)
		}
		if r.Intn(6) == 0 {
			n++
		}
		args := ""
		for j := 0; j < n; j++ {
			args += fmt.Sprint(" ", g.lit())
		}
		rec.take()
		a, aerr := evalText("(fun"+args+")", env)
		at := rec.take()
		for _, e := range []*golisp.SymbolTableFrame{env2, env3} {
			b, berr := evalText("("+callee+args+")", e)
			bt := rec.take()
			x, y := showOutcome(a, aerr), showOutcome(b, berr)
			if x != y && stripErrStrings(x) != stripErrStrings(y) || stripErrStrings(strings.Join(at, " ")) != stripErrStrings(strings.Join(bt, " ")) {
				c.Fail("defdiff:"+def+args, "after %s, (fun%s) gives %s %v (%v); the function defined by the definition %s gives %s %v (%v)", def, args, x, at, aerr, printed, y, bt, berr)
				return
			}
		}
	}
	c.Count("definitions", 1)
	c.Distinct(def)
}

// ---- time and the console

func captureFd(fd int, f func()) string {
	p := filepath.Join(scratch(), fmt.Sprint("c35fd", fd))
	tmp, err := os.Create(p)
	if err != nil {
		f()
		return ""
	}
	saved, err := syscall.Dup(fd)
	if err != nil {
		f()
		return ""
	}
	syscall.Dup2(int(tmp.Fd()), fd)
	func() {
		defer func() {
			syscall.Dup2(saved, fd)
			syscall.Close(saved)
			tmp.Close()
		}()
		f()
	}()
	b, _ := os.ReadFile(p)
	return string(b)
}

// c35Exec: the program started gets its arguments, in order and unchanged
func c35Exec(c *Case) {
	r := c.R
	env := freshEnv()
	dir := filepath.Join(scratch(), fmt.Sprintf("exec%d", c.Idx))
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	prog, out := filepath.Join(dir, "prog"), filepath.Join(dir, "out")
	os.WriteFile(prog, []byte(fmt.Sprintf("#!/bin/sh\n{ printf '%%s' $#; for a in \"$@\"; do printf '\\001%%s' \"$a\"; done; } > %[1]s.tmp\nmv %[1]s.tmp %[1]s\n", out)), 0o700)
	if r.Intn(8) == 0 {
		src := fmt.Sprintf("(exec %q 1 2)", dir+"/none")
		c.Desc("%s", src)
		if d, err := evalText(src, env); err == nil {
			c.Fail("execnone", "%s of a program that does not exist gave %s", src, showD(d))
		}
		return
	}
	n := r.Intn(6)
	if r.Intn(6) == 0 {
		n = 6 + r.Intn(30)
	}
	src, want := fmt.Sprintf("(exec %q", prog), fmt.Sprint(n)
	for i := 0; i < n; i++ {
		s := []string{"\"ab c\"", "12", "'sym", "'(1 \"x\" y)", "1.5", "#t", "\"\"", "\"$HOME *\"", "\"~A %d;'\"", "[1 2]", "-7", "(+ 1 2)", "\"--long=argument\"", "\"\u00fc\u4e16\""}[r.Intn(14)]
		src += " " + s
		d, _ := evalText(s, env)
		if golisp.StringP(d) || golisp.SymbolP(d) {
			want += "\001" + golisp.StringValue(d)
		} else {
			want += "\001" + golisp.String(d)
		}
	}
	src += ")"
	c.Desc("%s", src)
	if _, err := evalText(src, env); err != nil {
		if strings.Contains(err.Error(), "text file busy") || strings.Contains(err.Error(), "resource temporarily") {
			return // another fork holds the script open: the system's doing
		}
		c.Fail("exec:"+src, "%s failed: %v", src, err)
		return
	}
	for began := time.Now(); time.Since(began) < 30*time.Second; time.Sleep(2 * time.Millisecond) {
		if b, err := os.ReadFile(out); err == nil {
			if string(b) != want {
				c.Fail("execargs:"+src, "%s started the program with %q, want %q", src, b, want)
				return
			}
			c.Count("started", 1)
			c.Distinct(src)
			return
		}
	}
	c.Fail("execnever", "%s: the program has not run", src)
}

func c35Console(c *Case) {
	r := c.R
	env := freshEnv()
	switch k := r.Intn(8); k {
	case 0, 1, 2, 3: // printing
		n := 1 + r.Intn(4)
		var vals []string
		text := ""
		for i := 0; i < n; i++ {
			s := []string{"\"ab c\"", "12", "'sym", "'(1 \"x\" y)", "1.5", "#t", "k:", "\"\"", "\"a\\nb\"", "\"~A %d %s 100%\"", "[1 2]", "'()"}[r.Intn(12)]
			vals = append(vals, s)
			d, _ := evalText(s, env)
			text += golisp.PrintString(d)
		}
		all := strings.Join(vals, " ")
		c.Desc("print %d %s", k, all)
		fd, src, want := 2, "(write-line "+all+")", text+"\n"
		switch k {
		case 1:
			fd, src, want = 1, "(write-log "+all+")", text+"\r\n"
		case 2:
			d, _ := evalText(vals[0], env)
			fd, src, want = 1, "(write "+vals[0]+")", golisp.String(d)
		case 3:
			fd, src, want = 1, "(begin (write-string \"p%d\") (newline) (write-string \"\") (format #t \"<~A>\" "+vals[0]+"))", "p%d\n<"
			d, _ := evalText(vals[0], env)
			want += golisp.PrintString(d) + ">"
		}
		var err error
		got := captureFd(fd, func() { _, err = evalText(src, env) })
		if err != nil || got != want {
			c.Fail("print:"+src, "%s printed %q (err %v), want %q", src, got, err, want)
			return
		}
		c.Count("printed", 1)
		c.Distinct(src)
	case 4: // sleep takes at least as long as it should
		ms := r.Intn(8)
		c.Desc("sleep %d", ms)
		began := time.Now()
		_, err := evalText(fmt.Sprintf("(sleep %d)", ms), env)
		took := time.Since(began)
		if err != nil || took < time.Duration(ms)*time.Millisecond {
			c.Fail(fmt.Sprint("sleep:", ms), "(sleep %d) took %v (err %v)", ms, took, err)
			return
		}
		c.Count("sleeps", 1)
		c.Distinct(fmt.Sprint("sleep", c.Idx))
	case 5: // time
		ms := r.Intn(8)
		if r.Intn(4) == 0 {
			_, err := evalText("(time (begin (vh-tick 1) (error \"boom\")))", env)
			if tr := rec.take(); err == nil || len(tr) != 1 {
				c.Fail("timeerr", "(time e) of a failing e: error %v, effects %v", err, tr)
			}
			return
		}
		c.Desc("time of sleep %d", ms)
		began := time.Now()
		d, err := evalText(fmt.Sprintf("(time (begin (vh-tick 1) (sleep %d)))", ms), env)
		took := time.Since(began)
		tr := rec.take()
		if err != nil || !golisp.IntegerP(d) || golisp.IntegerValue(d) < int64(ms) || golisp.IntegerValue(d) > took.Milliseconds() || len(tr) != 1 {
			c.Fail(fmt.Sprint("time:", ms), "(time (sleep %d)) gave %s (err %v), it took %v; effects %v", ms, showD(d), err, took, tr)
			return
		}
		c.Count("timed", 1)
	case 6: // millis
		c.Desc("millis")
		began := time.Now()
		d, err := evalText("(millis)", env)
		ended := time.Now()
		if clockStep(began) {
			return
		}
		if err != nil || !golisp.IntegerP(d) || golisp.IntegerValue(d) < began.UnixNano()/1e6 || golisp.IntegerValue(d) > ended.UnixNano()/1e6 {
			c.Fail("millis", "(millis) gave %s (err %v) between %d and %d", showD(d), err, began.UnixNano()/1e6, ended.UnixNano()/1e6)
			return
		}
		c.Count("clocks", 1)
	case 7: // random-byte
		c.Desc("random-byte")
		seen := map[int64]int{}
		for i := 0; i < 6000; i++ {
			d, err := evalText("(random-byte)", env)
			if err != nil || !golisp.IntegerP(d) || golisp.IntegerValue(d) < 0 || golisp.IntegerValue(d) > 255 {
				c.Fail("random-byte", "(random-byte) gave %s (err %v)", showD(d), err)
				return
			}
			seen[golisp.IntegerValue(d)]++
		}
		if len(seen) < 250 {
			c.Fail("random-byte-range", "6000 random bytes had %d values only", len(seen))
			return
		}
		c.Count("random", 1)
	}
}

func init() {
	register(&Check{
		ID: "C35", Setup: setupPrims,
		Need: []string{"programs", "events", "errors", "broken_text", "traced", "traces", "definitions", "printed", "sleeps", "timed", "clocks", "random", "started", "mode_interactive", "way_load", "way_ProcessFile", "way_global-eval"},
		Rule: "random programs run form by form and again through one of 13 ways of giving a program to the interpreter (whole text, file, load, port, eval, parse, global-eval, ...), with random white space and comments, texts that end inside a form, and with tracing or interactive mode on: results, errors, marker events and definitions must agree; traces, definition-of, the printing built-ins, sleep, time, millis, random-byte and exec are judged on their own; distinct by way and text",
		Phases: []Phase{
			{Name: "programs", Quick: 26000, Thorough: 300000, Run: c35Programs},
			{Name: "trace", Quick: 3000, Thorough: 50000, Run: c35Trace},
			{Name: "definition", Quick: 8000, Thorough: 100000, Run: c35Definition},
			{Name: "console", Quick: 800, Thorough: 8000, Run: c35Console},
			{Name: "exec", Quick: 160, Thorough: 2000, Run: c35Exec},
		},
		Assumptions: []string{"load, ProcessFile, ParseAndEvalAll and global-eval use the global environment by definition; names are made unique for them"},
	})
}
