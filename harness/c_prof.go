package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/steelseries/golisp"
)

// ---- C32: the profiler ------------------------------------------------------------------
//
// Three observers that do not depend on the profiler say what should be in the profile:
//   - the bodies of all built-ins and special forms are wrapped (their Body is an exported
//     field), so that every call of one is logged with the time it began and ended;
//   - the reference interpreter lists the calls of functions, built-ins and forms in a program;
//   - functions of the workload emit marker events as they begin and end.

type watched struct {
	enter bool
	kind  string
	name  string
	t     int64
}

var watchLog []watched
var watchOn bool
var watchOnce sync.Once

func setupProf() {
	setupLanes()
	watchOnce.Do(func() {
		for _, b := range golisp.Global.Bindings {
			if b.Val == nil || golisp.TypeOf(b.Val) != golisp.PrimitiveType {
				continue
			}
			f := golisp.PrimitiveValue(b.Val)
			body, kind, name := f.Body, "prim", golisp.StringValue(b.Sym)
			if f.Special {
				kind = "form"
			}
			f.Body = func(args *golisp.Data, env *golisp.SymbolTableFrame) (d *golisp.Data, err error) {
				if !watchOn || name == "profile" {
					return body(args, env)
				}
				watchLog = append(watchLog, watched{true, kind, name, time.Now().UnixNano()})
				d, err = body(args, env)
				watchLog = append(watchLog, watched{false, kind, name, time.Now().UnixNano()})
				return
			}
		}
	})
}

type profRec struct {
	t     int64
	guid  int64
	enter bool
	kind  string
	name  string
}

var profRe = regexp.MustCompile(`^\{time: (\d+) guid: (\d+) mode: '(enter|exit) type: '(func|prim|form) name: '(.*)\}$`)

func parseProfile(text string) (rs []profRec, bad string) {
	if text == "" {
		return nil, ""
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, "last line is incomplete"
	}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		m := profRe.FindStringSubmatch(l)
		if m == nil {
			return nil, "not a record: " + l
		}
		t, _ := strconv.ParseInt(m[1], 10, 64)
		g, _ := strconv.ParseInt(m[2], 10, 64)
		rs = append(rs, profRec{t, g, m[3] == "enter", m[4], m[5]})
	}
	return
}

func (p profRec) call() string {
	if p.enter {
		return "enter " + p.kind + " " + p.name
	}
	return "exit " + p.kind + " " + p.name
}

func callsOf(rs []profRec) (out []string) {
	for _, p := range rs {
		out = append(out, p.call())
	}
	return
}

// wellNested: every enter has its exit, with the same id, kind and name, and calls nest.
func wellNested(rs []profRec) string {
	seen := map[int64]bool{}
	var stack []profRec
	for i, p := range rs {
		if p.enter {
			if seen[p.guid] {
				return fmt.Sprintf("record %d: id %d is used for another call (%s)", i, p.guid, p.call())
			}
			seen[p.guid] = true
			stack = append(stack, p)
			continue
		}
		if len(stack) == 0 {
			return fmt.Sprintf("record %d: %s id %d without an enter", i, p.call(), p.guid)
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if top.guid != p.guid || top.kind != p.kind || top.name != p.name {
			return fmt.Sprintf("record %d: %s id %d, the call in progress is %s id %d", i, p.call(), p.guid, top.call(), top.guid)
		}
	}
	if len(stack) > 0 {
		return fmt.Sprintf("%s id %d has no exit", stack[len(stack)-1].call(), stack[len(stack)-1].guid)
	}
	return ""
}

// clockStep tells that the wall clock went back meanwhile, when the times say nothing.
func clockStep(from time.Time) bool {
	mono := time.Since(from)
	wall := time.Duration(time.Now().UnixNano() - from.UnixNano())
	return wall < mono-200*time.Microsecond || wall > mono+200*time.Millisecond
}

// timesOK: the records are in time order, and around the calls as they were watched.
func timesOK(rs []profRec, log []watched, from, to int64) string {
	last := from
	for i, p := range rs {
		if p.t < last {
			return fmt.Sprintf("record %d: time %d is before %d", i, p.t, last)
		}
		last = p.t
	}
	if last > to {
		return fmt.Sprintf("the last record's time %d is after the end %d", last, to)
	}
	k := 0
	for i, p := range rs {
		if p.kind == "func" {
			continue
		}
		if k < len(log) {
			w := log[k]
			if p.enter && p.t > w.t || !p.enter && p.t < w.t {
				return fmt.Sprintf("record %d (%s): time %d, the call was watched at %d", i, p.call(), p.t, w.t)
			}
		}
		k++
	}
	return ""
}

// against compares a profile with what was watched.
func against(rs []profRec, log []watched) string {
	k := 0
	for i, p := range rs {
		if p.kind == "func" {
			continue
		}
		if k >= len(log) {
			return fmt.Sprintf("record %d: %s, there was no such call", i, p.call())
		}
		w := log[k]
		if w.enter != p.enter || w.kind != p.kind || w.name != p.name {
			return fmt.Sprintf("record %d: %s, what happened was %v %s %s", i, p.call(), map[bool]string{true: "enter", false: "exit"}[w.enter], w.kind, w.name)
		}
		k++
	}
	if k < len(log) {
		return fmt.Sprintf("%s %s (enter %v) is missing from the profile, after %d records", log[k].kind, log[k].name, log[k].enter, len(rs))
	}
	return ""
}

var profSeq int

func profFile() string {
	profSeq++
	return filepath.Join(scratch(), fmt.Sprintf("profile-%d", profSeq%4))
}

// profiled runs f, which profiles into file, and gives back the records. how says which
// way the profile is made: 0 the profile form with a file, 1 the host's StartProfiling, 2
// the profile form printing, 3 the host's, printing.
type profRun struct {
	val  *golisp.Data
	err  error
	recs []profRec
	log  []watched
	bad  string
}

func profiled(how int, forms []*golisp.Data, env *golisp.SymbolTableFrame) (p profRun) {
	file := profFile()
	os.Remove(file)
	evalAll := func() {
		for _, f := range forms {
			p.val, p.err = golisp.Eval(f, env)
		}
	}
	began := time.Now()
	watchLog, watchOn = nil, true
	out := ""
	stdout := os.Stdout
	var tmp *os.File
	if how >= 2 {
		tmp, _ = os.Create(file)
		os.Stdout = tmp
	}
	switch how {
	case 0:
		p.val, p.err = golisp.Eval(golisp.InternalMakeList(golisp.Intern("profile"), forms[0], golisp.StringWithValue(file)), env)
	case 2:
		p.val, p.err = golisp.Eval(golisp.InternalMakeList(golisp.Intern("profile"), forms[0]), env)
	case 1:
		if err := golisp.StartProfiling(file); err != nil {
			p.bad = "StartProfiling: " + err.Error()
		}
		evalAll()
		golisp.EndProfiling()
	case 3:
		golisp.StartProfiling("")
		evalAll()
		golisp.EndProfiling()
	}
	watchOn = false
	p.log, watchLog = watchLog, nil
	ended := time.Now()
	// what is evaluated afterwards is not profiled
	evalText("(vh-same (+ 1 2))", env)
	if how >= 2 {
		os.Stdout = stdout
		tmp.Close()
	}
	b, err := os.ReadFile(file)
	if err != nil {
		p.bad = "the profile was not written: " + err.Error()
		return
	}
	out = string(b)
	if p.bad != "" {
		return
	}
	if golisp.ProfileEnabled {
		p.bad = "profiling is still on afterwards"
		golisp.ProfileEnabled = false
		return
	}
	p.recs, p.bad = parseProfile(out)
	if p.bad == "" {
		p.bad = wellNested(p.recs)
	}
	if p.bad == "" {
		p.bad = against(p.recs, p.log)
	}
	if p.bad == "" && !clockStep(began) {
		p.bad = timesOK(p.recs, p.log, began.UnixNano(), ended.UnixNano())
	}
	return
}

func withoutQuotes(calls []string) (out []string) {
	for _, s := range calls {
		if !strings.HasSuffix(s, " form quote") {
			out = append(out, s)
		}
	}
	return
}

func profPrograms(c *Case) {
	r := c.R
	var weights map[string]int
	if r.Intn(2) == 0 {
		weights = map[string]int{"fail": 3, "onerror": 10}
	}
	g := newGen(r, weights)
	prog := g.Program(2+r.Intn(4), 2+r.Intn(2))
	in := newRef(6000)
	in.Prof = true
	type want struct {
		out   string
		trace []string
		calls []string
	}
	var ws []want
	for _, f := range prog {
		in.Trace, in.Calls = nil, nil
		v, _, failed, over := in.Run(f, in.G)
		if over {
			return
		}
		s := canon(v)
		if failed {
			s = "ERROR"
		}
		ws = append(ws, want{s, in.Trace, in.Calls})
	}
	plainEnv, env := freshEnv(), freshEnv()
	how := r.Intn(4)
	var texts []string
	for _, f := range prog {
		texts = append(texts, show(f))
	}
	text := strings.Join(texts, "\n")
	c.Desc("profile (way %d):\n%s", how, text)
	calls, errs := 0, 0
	for i, f := range prog {
		src := show(f)
		rec.take()
		pv, perr := golisp.Eval(mustParse(src), plainEnv)
		plainTrace := rec.take()
		p := profiled(how, []*golisp.Data{mustParse(src)}, env)
		trace := rec.take()
		if p.bad != "" {
			c.Fail("profile:"+src, "form %d: %s\n%s\n%s", i, src, p.bad, text)
			return
		}
		if a, b := showOutcome(pv, perr), showOutcome(p.val, p.err); a != b && stripErrStrings(a) != stripErrStrings(b) {
			c.Fail("result:"+src, "form %d: %s\nresult %s, profiled %s (%v)\n%s", i, src, a, b, p.err, text)
			return
		}
		if perr != nil && !strings.Contains(p.err.Error(), lastLine(perr.Error())) {
			c.Fail("error:"+src, "form %d: %s\nerror %v\nprofiled %v\n%s", i, src, perr, p.err, text)
			return
		}
		if strings.Join(plainTrace, "\n") != strings.Join(trace, "\n") {
			c.Fail("effects:"+src, "form %d: %s\neffects %v\nprofiled %v\n%s", i, src, plainTrace, trace, text)
			return
		}
		w := withoutQuotes(ws[i].calls)
		got := withoutQuotes(callsOf(p.recs))
		if k := firstDiff(w, got); k >= 0 {
			at := func(l []string) string {
				if k < len(l) {
					return l[k]
				}
				return "nothing more"
			}
			c.Fail("calls:"+src, "form %d: %s\ncall record %d: the profile has %q, the program did %q\nprofile %v\nprogram %v\n%s", i, src, k, at(got), at(w), got, w, text)
			return
		}
		calls += len(p.recs) / 2
		if p.err != nil {
			errs++
			c.Count("records_failed", len(p.recs))
		}
	}
	c.Count("calls_profiled", calls)
	c.Count("forms_failing", errs)
	c.Count(fmt.Sprintf("way_%d", how), 1)
	c.Distinct(text)
	c.Sample(text)
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return addrRe.ReplaceAllString(l[len(l)-1], "0x")
}

// profLibrary: frames, macros, sorting, strings, ... : everything a built-in does is watched.
func profLibrary(c *Case) {
	r := c.R
	env := freshEnv()
	for _, s := range libText {
		evalText(s, env)
	}
	n := 2 + r.Intn(6)
	var texts []string
	for k := 0; k < n; k++ {
		t := libCalls[r.Intn(len(libCalls))]
		if strings.Contains(t, "%d") {
			t = fmt.Sprintf(t, r.Intn(12))
		}
		texts = append(texts, t)
	}
	how := r.Intn(4)
	if how == 0 || how == 2 {
		texts = []string{"(list " + strings.Join(texts, " ") + ")"}
	}
	c.Desc("profile of library calls (way %d):\n%s", how, strings.Join(texts, "\n"))
	var forms []*golisp.Data
	var want string
	for _, t := range texts {
		forms = append(forms, mustParse(t))
		d, err := evalText(t, env)
		want = showOutcome(d, err)
	}
	p := profiled(how, forms, env)
	if p.bad != "" {
		c.Fail("library:"+c.desc, "%s\n%s", p.bad, c.desc)
		return
	}
	if got := showOutcome(p.val, p.err); got != want {
		c.Fail("library-result:"+c.desc, "result %s, profiled %s\n%s", want, got, c.desc)
		return
	}
	c.Count("library_records", len(p.recs))
	c.Distinct(c.desc)
}

// profMarked: functions that mark when they begin and end, called in all the ways there are.
func profMarked(c *Case) {
	r := c.R
	env := freshEnv()
	k := 2 + r.Intn(4)
	evalText("(define fails '())", env)
	var defs []string
	for i := 0; i < k; i++ {
		body := "n"
		if i > 0 {
			j := r.Intn(i)
			f := fmt.Sprintf("mk%d", j)
			ways := []string{
				"(F n)", "(apply F (list n))", "(car (map F (list n (+ n 1))))", "(begin (for-each F (list n 2)) n)", "(length (filter (lambda (x) (even? (F x))) (list 1 n)))",
				"(reduce (lambda (a b) (F b)) 0 (list n 2 3))", "(fold-left (lambda (a b) (+ a (F b))) 0 (list n 2))", "(fold-right (lambda (b a) (F b)) 0 (list n 2))",
				"(let loop ((q 2)) (if (> q 0) (begin (F q) (loop (- q 1))) n))", "(do ((q 0 (+ q 1))) ((> q 2) n) (F q))",
				"(eval (list F n))", "(mac-F n)", "(met:> {met: (lambda (x) (F x)) } n)", "(send {met: F} met: n)", "(apply-slot {met: F} met: (list n))", "(met:> {up*: {met: F}} n)",
				"(on-error (F (car 'a 'b)) (lambda (e) (F n)))", "(on-error (begin (F n) (vh-fail n)) (lambda (e) n))", "(on-error (F n) (lambda (e) n) (lambda () (F 1) n))",
				"(let ((g F)) (g n))", "((lambda (g) (g n)) F)", "((curried F) n)", "(car (sort (list n 2 1) (lambda (a b) (F a) (< a b))))", "(-> n F)", "(=> n F)", "(cond ((F n) n) (else n))", "(case (F n) ((1) 2) (else n))",
				"(find (lambda (x) (F x) (even? x)) (list 1 n 2))", "(any (lambda (x) (F x) (even? x)) (list 1 n))", "(every (lambda (x) (F x) (odd? x)) (list 1 n))",
				"(let ((x (F n)) (y (F 1))) (+ x y))", "(car `(,(F n) ,@(list (F n))))", "(and (F n) (F 1))", "(or (F n) (F 1))", "(if (F n) (F 1) n)", "(remove (lambda (x) (even? (F x))) (list 1 n))", "(length (partition (lambda (x) (even? (F x))) (list 1 n)))",
				"(on-error (map (lambda (x) (F x) (vh-fail x)) (list n n)) (lambda (e) n))", "(reduce-left (lambda (a b) (F b)) 0 (list n 2 3))",
			}
			body = strings.ReplaceAll(ways[r.Intn(len(ways))], "F", f)
		}
		if r.Intn(12) == 0 {
			body = fmt.Sprintf("(if (> n %d) (vh-fail n) %s)", r.Intn(3), body)
		}
		name := fmt.Sprintf("mk%d", i)
		d := ""
		switch r.Intn(3) {
		case 0:
			d = fmt.Sprintf("(define (%s n) (vh-tick 'in '%s) (let ((r %s)) (vh-tick 'out '%s) r))", name, name, body, name)
		case 1:
			d = fmt.Sprintf("(define %s (named-lambda (%s n) (vh-tick 'in '%s) (let ((r %s)) (vh-tick 'out '%s) r)))", name, name, name, body, name)
		case 2:
			d = fmt.Sprintf("(define (%s . n) (vh-tick 'in '%s) (let* ((n (car n)) (r %s)) (vh-tick 'out '%s) r))", name, name, body, name)
		}
		defs = append(defs, d, fmt.Sprintf("(defmacro (mac-%s x) `(%s ,x))", name, name))
	}
	defs = append(defs, "(define (curried f) (lambda (x) (f x)))")
	call := fmt.Sprintf("(mk%d %d)", k-1, r.Intn(6))
	c.Desc("%s\nprofile %s", strings.Join(defs, "\n"), call)
	for _, d := range defs {
		if _, err := evalText(d, env); err != nil {
			c.Fail("setup:"+d, "%s: %v", d, err)
			return
		}
	}
	rec.take()
	pd, perr := evalText(call, env)
	plain := rec.take()
	p := profiled(r.Intn(4), []*golisp.Data{mustParse(call)}, env)
	ev := rec.take()
	if p.bad != "" {
		c.Fail("marked:"+c.desc, "%s\n%s", p.bad, c.desc)
		return
	}
	if a, b := showOutcome(pd, perr), showOutcome(p.val, p.err); a != b || strings.Join(plain, ";") != strings.Join(ev, ";") {
		c.Fail("marked-result:"+c.desc, "result %s, profiled %s; events %v, profiled %v\n%s", a, b, plain, ev, c.desc)
		return
	}
	// the sequence of the workload's functions' records and of its markers
	var seq []string
	n := 0
	for _, q := range p.recs {
		if q.kind == "func" && strings.HasPrefix(q.name, "mk") {
			seq = append(seq, q.call())
		} else if q.enter && (q.name == "vh-tick" || q.name == "vh-fail") {
			if n < len(ev) {
				seq = append(seq, ev[n])
			}
			n++
		}
	}
	if n != len(ev) {
		c.Fail("marked-events:"+c.desc, "%d marker calls in the profile, %d happened\n%s", n, len(ev), c.desc)
		return
	}
	bad := ""
	fcalls := 0
	for i, s := range seq {
		switch {
		case strings.HasPrefix(s, "enter func "):
			f := s[len("enter func "):]
			fcalls++
			if i+1 >= len(seq) || seq[i+1] != "|in| |"+f+"|" {
				bad = fmt.Sprintf("entry %d: %s is not followed by the function's beginning", i, s)
			}
		case strings.HasPrefix(s, "|in| "):
			f := strings.Trim(s[len("|in| "):], "|")
			if i == 0 || seq[i-1] != "enter func "+f {
				bad = fmt.Sprintf("entry %d: the call of %s was not recorded", i, f)
			}
		case strings.HasPrefix(s, "|out| "):
			f := strings.Trim(s[len("|out| "):], "|")
			if i+1 >= len(seq) || seq[i+1] != "exit func "+f {
				bad = fmt.Sprintf("entry %d: the end of %s was not recorded", i, f)
			}
		}
		if bad != "" {
			c.Fail("marked-calls:"+c.desc, "%s\n%v\n%s", bad, seq, c.desc)
			return
		}
	}
	c.Count("function_calls_marked", fcalls)
	if p.err != nil {
		c.Count("marked_failing", 1)
	}
	c.Distinct(c.desc)
}

// profNames: names with any characters.
func profNames(c *Case) {
	r := c.R
	chars := []rune("ab%sdvnx{}'\"\\;,.|()[] 0é世<>!?*-+#@&^~`$=/")
	mk := func() string {
		n := 1 + r.Intn(8)
		if r.Intn(8) == 0 {
			n = 20 + r.Intn(90)
		}
		var b []rune
		for len(b) < n {
			b = append(b, chars[r.Intn(len(chars))])
		}
		return "vn" + string(b)
	}
	env := freshEnv()
	fname, pname := mk(), mk()
	if fname == pname || strings.Contains(fname+" "+pname, "<-") { // channel shortcuts
		return
	}
	c.Desc("profile of a function named %q and a built-in named %q", fname, pname)
	golisp.MakePrimitiveFunction(pname, "*", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
		return golisp.IntegerWithValue(7), nil
	})
	fsym, psym := golisp.Intern(fname), golisp.Intern(pname)
	defer delete(golisp.Global.Bindings, pname)
	def := golisp.InternalMakeList(golisp.Intern("define"), golisp.InternalMakeList(fsym, golisp.Intern("x")), golisp.InternalMakeList(golisp.Intern("+"), golisp.Intern("x"), golisp.InternalMakeList(psym)))
	if _, err := golisp.Eval(def, env); err != nil {
		c.Fail("names:"+c.desc, "define: %v", err)
		return
	}
	f := golisp.InternalMakeList(fsym, golisp.IntegerWithValue(1))
	how := r.Intn(4)
	file := profFile()
	old := os.Stdout
	if how >= 2 {
		tmp, _ := os.Create(file)
		os.Stdout = tmp
		defer tmp.Close()
	}
	var d *golisp.Data
	var err error
	switch how {
	case 0:
		d, err = golisp.Eval(golisp.InternalMakeList(golisp.Intern("profile"), f, golisp.StringWithValue(file)), env)
	case 2:
		d, err = golisp.Eval(golisp.InternalMakeList(golisp.Intern("profile"), f), env)
	case 1:
		golisp.StartProfiling(file)
		d, err = golisp.Eval(f, env)
		golisp.EndProfiling()
	case 3:
		golisp.StartProfiling("")
		d, err = golisp.Eval(f, env)
		golisp.EndProfiling()
	}
	os.Stdout = old
	if showOutcome(d, err) != "8" {
		c.Fail("names:"+c.desc, "gave %s (%v)", showOutcome(d, err), err)
		return
	}
	b, _ := os.ReadFile(file)
	rs, bad := parseProfile(string(b))
	if bad == "" {
		bad = wellNested(rs)
	}
	got := strings.Join(callsOf(rs), "\n")
	want := "enter func " + fname + "\nenter prim " + pname + "\nexit prim " + pname + "\nenter prim +\nexit prim +\nexit func " + fname
	if bad != "" || got != want {
		c.Fail("names:"+c.desc, "%s: profile\n%s\nwant\n%s", bad, got, want)
		return
	}
	c.Count("names", 2)
	c.Distinct(c.desc)
}

// profMisuse: profiles that cannot be made.
func profMisuse(c *Case) {
	r := c.R
	dir := scratch()
	bads := []string{`"` + dir + `/none/x"`, `"` + dir + `"`, "5", "'x", "'(1)", "#t", "[1 2]"}
	b := bads[r.Intn(len(bads))]
	src := fmt.Sprintf("(profile (vh-tick 1) %s)", b)
	c.Desc("%s", src)
	env := freshEnv()
	rec.take()
	old := os.Stdout
	tmp, _ := os.Create(filepath.Join(dir, "misuse"))
	os.Stdout = tmp
	d, err := evalText(src, env)
	ev := rec.take()
	evalText("(vh-same (+ 1 2))", env)
	os.Stdout = old
	tmp.Close()
	text, _ := os.ReadFile(filepath.Join(dir, "misuse"))
	if err == nil || golisp.ProfileEnabled || len(text) > 0 {
		c.Fail("misuse:"+src, "%s: %s err %v, profiling on afterwards %v, printed %q, effects %v", src, showOutcome(d, err), err, golisp.ProfileEnabled, text, ev)
		golisp.ProfileEnabled = false
		return
	}
	c.Count("misuses", 1)
	c.Distinct(fmt.Sprint(src, c.Idx))
}

// profThreads: several processes at once.
func profThreads(c *Case) {
	r := c.R
	lanes := 2 + r.Intn(3)
	env := freshEnv()
	depth := 2 + r.Intn(4)
	rounds := 3 + r.Intn(12)
	mode := r.Intn(2)
	c.Desc("profile of %d threads (mode %d): each %d calls of a recursion of depth %d", lanes, mode, rounds, depth)
	for i := 0; i < lanes; i++ {
		evalText(fmt.Sprintf("(define (lf%d n) (if (<= n 0) (on-error (lg%d n) (lambda (e) (vh-tick%d 0))) (begin (vh-tick%d n) (+ 1 (lf%d (- n 1))))))", i, i, i, i, i), env)
		evalText(fmt.Sprintf("(define (lg%d n) (vh-fail%d n))", i, i), env)
	}
	var forms []*golisp.Data
	want := make([][]string, lanes)
	for i := 0; i < lanes; i++ {
		f := mustParse(fmt.Sprintf("(lf%d %d)", i, depth))
		forms = append(forms, f)
		p := profiled(1, []*golisp.Data{f}, env)
		if p.bad != "" {
			c.Fail("threads:"+c.desc, "alone: %s", p.bad)
			return
		}
		for _, s := range callsOf(p.recs) {
			if own(s, i) {
				want[i] = append(want[i], s)
			}
		}
	}
	file := profFile()
	golisp.StartProfiling(file)
	par(c, lanes, mode, env, func(i int, e *golisp.SymbolTableFrame) {
		rr := rand.New(rand.NewSource(int64(i)))
		for k := 0; k < rounds; k++ {
			golisp.Eval(forms[i], e)
			pause(rr)
		}
	})
	golisp.EndProfiling()
	for i := 0; i < lanes; i++ {
		laneRec[i].take()
	}
	b, _ := os.ReadFile(file)
	rs, bad := parseProfile(string(b))
	if bad != "" {
		c.Fail("threads:"+c.desc, "%s", bad)
		return
	}
	type seenT struct{ enter, exit int }
	seen := map[int64]*seenT{}
	label := map[int64]string{}
	for i, p := range rs {
		s := seen[p.guid]
		if s == nil {
			s = &seenT{}
			seen[p.guid] = s
			label[p.guid] = p.kind + " " + p.name
		}
		if label[p.guid] != p.kind+" "+p.name {
			c.Fail("threads:"+c.desc, "record %d: id %d is used for %s %s and %s", i, p.guid, p.kind, p.name, label[p.guid])
			return
		}
		if p.enter {
			s.enter++
		} else {
			s.exit++
		}
		if s.exit > s.enter || s.enter > 1 {
			c.Fail("threads:"+c.desc, "record %d: id %d (%s): %d enter and %d exit records", i, p.guid, label[p.guid], s.enter, s.exit)
			return
		}
	}
	for g, s := range seen {
		if s.enter != 1 || s.exit != 1 {
			// the calls that fork itself makes outlive the profile in mode 1
			if strings.HasPrefix(label[g], "prim fork") {
				continue
			}
			c.Fail("threads:"+c.desc, "id %d (%s): %d enter and %d exit records", g, label[g], s.enter, s.exit)
			return
		}
	}
	for i := 0; i < lanes; i++ {
		var mine []profRec
		var got []string
		for _, p := range rs {
			if own(p.call(), i) {
				mine = append(mine, p)
				got = append(got, p.call())
			}
		}
		if bad := wellNested(mine); bad != "" {
			c.Fail("threads:"+c.desc, "thread %d: %s", i, bad)
			return
		}
		var w []string
		for k := 0; k < rounds; k++ {
			w = append(w, want[i]...)
		}
		if k := firstDiff(w, got); k >= 0 {
			c.Fail("threads:"+c.desc, "thread %d: its records differ from record %d on: %d records, want %d", i, k, len(got), len(w))
			return
		}
	}
	c.Count("thread_records", len(rs))
	c.Distinct(fmt.Sprint(c.desc, c.Idx))
}

// own tells the records of thread i's own functions and markers.
func own(call string, i int) bool {
	f := strings.Fields(call)
	n := f[len(f)-1]
	d := fmt.Sprint(i)
	return n == "lf"+d || n == "lg"+d || n == "vh-tick"+d || n == "vh-fail"+d
}

func init() {
	register(&Check{
		ID:    "C32",
		Setup: setupProf,
		Need:  []string{"calls_profiled", "records_failed", "library_records", "function_calls_marked", "marked_failing", "names", "misuses", "thread_records", "way_0", "way_1", "way_2", "way_3"},
		Rule:  "expressions evaluated with and without profiling (the profile form and the host's StartProfiling, to a file and to standard output); the profile is read back and every record judged against independent observations: the wrapped bodies of all built-ins and forms, the reference interpreter's calls, marker events in functions; non-trivial: a profile with records, distinct by program",
		Phases: []Phase{
			{Name: "programs", Quick: 6000, Thorough: 150000, Run: profPrograms},
			{Name: "library", Quick: 3000, Thorough: 60000, Run: profLibrary},
			{Name: "marked", Quick: 6000, Thorough: 150000, Run: profMarked},
			{Name: "names", Quick: 400, Thorough: 6000, Run: profNames},
			{Name: "misuse", Quick: 60, Thorough: 300, Run: profMisuse},
			{Name: "threads", Quick: 200, Thorough: 5000, Run: profThreads},
		},
	})
}
