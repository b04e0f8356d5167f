package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/steelseries/golisp"
)

// ---- C23: restricted environments --------------------------------------------------------------------------
//
// The bodies of the restricted built-ins are replaced, through the host API, by stand-ins that record the call.
// Every attempt is first made in an unrestricted environment, where the stand-in must be reached (the route is
// live), then in a restricted one, where it must not, and then with a harmless built-in in place of the
// restricted one, where it must be again.

var restrictedNames = map[string][]int{"debug": {0}, "debug-on-error": {0, 1}, "add-debug-on-entry": {1}, "environment-parent": {1}, "system-global-environment": {0},
	"make-top-level-environment": {1, 2, 3}, "find-top-level-environment": {1}, "procedure-environment": {1}, "open-input-file": {1}, "open-output-file": {1, 2},
	"close-port": {1}, "write-bytes": {2}, "load": {1}, "global-eval": {1}, "panic!": {1}, "exec": {1, 2, 3}, "vh-restricted": {0, 1, 2, 3}}

var restrictedList []string

type hookLog struct {
	mu    sync.Mutex
	calls []string
	real  int32 // the originals run, after being recorded
}

var hooked hookLog

func (h *hookLog) take() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	c := h.calls
	h.calls = nil
	return c
}

func setupRestrict() {
	setupPrims()
	ok := func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
		return golisp.LispTrue, nil
	}
	golisp.MakeRestrictedPrimitiveFunction("vh-restricted", "*", ok)
	golisp.MakeRestrictedSpecialForm("vh-restricted-form", "*", ok)
	golisp.MakePrimitiveFunction("vh-free", "*", ok)
	golisp.MakeSpecialForm("vh-free-form", "*", ok)
	names := []string{"vh-restricted-form", "vh-free", "vh-free-form"}
	for n := range restrictedNames {
		names = append(names, n)
		restrictedList = append(restrictedList, n)
	}
	sortStrings(restrictedList)
	for _, n := range names {
		n := n
		d := golisp.Global.ValueOf(symD(n))
		if golisp.TypeOf(d) != golisp.PrimitiveType {
			continue // its attempts will be found dead
		}
		f := golisp.PrimitiveValue(d)
		orig := f.Body
		f.Body = func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			hooked.mu.Lock()
			hooked.calls = append(hooked.calls, n)
			hooked.mu.Unlock()
			if atomic.LoadInt32(&hooked.real) != 0 {
				return orig(args, env)
			}
			return golisp.LispTrue, nil
		}
	}
	// trusted code of the host's, which restricted code may call
	outside := golisp.NewSymbolTableFrameBelow(golisp.Global, "vh-outside")
	for _, s := range []string{"(define (vh-call f) (f))", "(define (vh-call1 f x) (f x))", "(defmacro (vh-outer-macro f . args) `(,f ,@args))", "(define (vh-map f l) (map f l))"} {
		if _, err := evalText(s, outside); err != nil {
			panic(err)
		}
	}
	for _, n := range []string{"vh-call", "vh-call1", "vh-outer-macro", "vh-map"} {
		golisp.Global.BindTo(symD(n), outside.ValueOf(symD(n)))
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

type attack struct {
	c       *Case
	prim    string
	special bool
	args    []string
	routes  []string
	swallow bool
	top     bool // evaluated directly in a top-level environment
	n       int
	text    func(prim string) string // the whole expression
	host    string                   // what the host evaluates afterwards, from outside
}

func (a *attack) route(s string) { a.routes = append(a.routes, s) }

func (a *attack) name(p string) string { a.n++; return fmt.Sprintf("%s%d", p, a.n) }

// callee: an expression for the built-in. PRIM stands for its name.
func (a *attack) callee(d int) string {
	r := a.c.R
	if a.special || d <= 0 || r.Intn(3) == 0 {
		return "PRIM"
	}
	in := a.callee(d - 1)
	k := r.Intn(13)
	rt := ""
	defer func() { a.route("callee-" + rt) }()
	switch k {
	case 0:
		rt = "define"
		n := a.name("al")
		return fmt.Sprintf("(begin (define %s %s) %s)", n, in, n)
	case 1:
		rt = "list"
		return fmt.Sprintf("(car (list %s))", in)
	case 2:
		rt = "slot"
		return fmt.Sprintf("(get-slot {f: %s} f:)", in)
	case 3:
		rt = "if"
		return fmt.Sprintf("(if #t %s 0)", in)
	case 4:
		rt = "lambda"
		return fmt.Sprintf("((lambda () %s))", in)
	case 5:
		rt = "let"
		return fmt.Sprintf("(let ((z %s)) z)", in)
	case 6:
		rt = "eval"
		return fmt.Sprintf("(eval '%s)", in)
	case 7:
		rt = "channel"
		return fmt.Sprintf("(let ((ch (make-channel 1))) (channel-write ch %s) (car (channel-read ch)))", in)
	case 8:
		rt = "param"
		return fmt.Sprintf("((lambda (q) q) %s)", in)
	case 9:
		rt = "quasiquote"
		return fmt.Sprintf("(car `(,%s))", in)
	case 10:
		rt = "intern"
		return "(eval (intern \"PRIM\"))"
	case 11:
		if a.top {
			rt = "lookup"
			return "(environment-lookup (the-environment) 'PRIM)"
		}
		rt = "copy"
		return fmt.Sprintf("(cadr (copy (list 1 %s)))", in)
	default:
		rt = "set"
		n := a.name("al")
		return fmt.Sprintf("(begin (define %s 1) (set! %s %s) %s)", n, n, in, n)
	}
}

// call: an expression that calls it
func (a *attack) call(d int) string {
	r := a.c.R
	f := a.callee(2)
	args := strings.Join(a.args, " ")
	direct := strings.TrimRight(fmt.Sprintf("(%s %s)", f, args), " ")
	if a.special {
		a.route("call-special")
		return direct
	}
	rt := ""
	defer func() { a.route("call-" + rt) }()
	switch k := r.Intn(16); {
	case k < 3:
		rt = "direct"
		return direct
	case k < 5:
		rt = "apply"
		return fmt.Sprintf("(apply %s (list %s))", f, args)
	case k == 5 && len(a.args) > 0:
		rt = "apply-spread"
		return fmt.Sprintf("(apply %s %s '())", f, args)
	case k == 6:
		rt = "eval-list"
		return fmt.Sprintf("(eval (list %s %s))", f, strings.ReplaceAll(args, "'", "''"))
	case k == 7:
		rt = "outer-macro"
		return fmt.Sprintf("(vh-outer-macro %s %s)", f, args)
	case k == 8 && a.top:
		rt = "eval-env"
		return fmt.Sprintf("(eval '(%s %s) (the-environment))", f, args)
	case len(a.args) == 1:
		rt = []string{"map", "for-each", "any", "every", "filter", "remove", "find", "memp", "find-tail", "chain", "tap", "slot-apply"}[r.Intn(12)]
		switch rt {
		case "chain":
			return fmt.Sprintf("(-> %s (%s))", a.args[0], f)
		case "tap":
			return fmt.Sprintf("(=> %s (%s))", a.args[0], f)
		case "slot-apply":
			return fmt.Sprintf("(send {m: (lambda (q) (%s q))} m: %s)", f, a.args[0])
		}
		return fmt.Sprintf("(%s %s (list %s))", rt, f, a.args[0])
	case len(a.args) == 2:
		rt = []string{"reduce", "reduce-left", "reduce-right", "fold-left", "fold-right", "map2", "for-each2", "chain2"}[r.Intn(8)]
		switch rt {
		case "map2", "for-each2":
			return fmt.Sprintf("(%s %s (list %s) (list %s))", rt[:len(rt)-1], f, a.args[0], a.args[1])
		case "chain2":
			return fmt.Sprintf("(-> %s (%s %s))", a.args[0], f, a.args[1])
		}
		return fmt.Sprintf("(%s %s %s (list 1 %s))", rt, f, a.args[0], a.args[1])
	}
	rt = "direct"
	return direct
}

// wrap: the call within something else
func (a *attack) wrap(e string, d int) string {
	r := a.c.R
	if d <= 0 {
		return e
	}
	rt := ""
	k := r.Intn(32)
	if k < 30 {
		a.top = false
	}
	out := e
	switch k {
	case 0:
		rt, out = "let", fmt.Sprintf("(let ((z 1)) %s)", e)
	case 1:
		rt, out = "let*", fmt.Sprintf("(let* ((z 1) (y z)) %s)", e)
	case 2:
		rt, out = "letrec", fmt.Sprintf("(letrec ((z (lambda () %s))) (z))", e)
	case 3:
		rt, out = "lambda", fmt.Sprintf("((lambda (z) %s) 1)", e)
	case 4:
		rt, out = "do", fmt.Sprintf("(do ((i 0 (+ i 1))) ((== i 1) 'done) %s)", e)
	case 5:
		rt, out = "do-result", fmt.Sprintf("(do ((i 0 (+ i 1))) ((== i 1) %s))", e)
	case 6:
		rt, out = "named-let", fmt.Sprintf("(let loop ((i 0)) (if (== i 1) %s (loop (+ i 1))))", e)
	case 7:
		rt, out = "cond", fmt.Sprintf("(cond (#f 1) (else %s))", e)
	case 8:
		rt, out = "case", fmt.Sprintf("(case 3 ((3) %s) (else 0))", e)
	case 9:
		rt, out = "when", fmt.Sprintf("(when #t %s)", e)
	case 10:
		rt, out = "on-error-body", fmt.Sprintf("(on-error %s (lambda (er) 'caught))", e)
		a.swallow = true
	case 11:
		rt, out = "on-error-handler", fmt.Sprintf("(on-error (error \"x\") (lambda (er) %s))", e)
	case 12:
		rt, out = "on-error-success", fmt.Sprintf("(on-error 1 (lambda (er) 0) (lambda () %s))", e)
	case 13:
		rt, out = "fork", fmt.Sprintf("(join (fork (lambda (pr) %s)))", e)
		a.swallow = true
	case 14:
		rt, out = "schedule", fmt.Sprintf("(join (schedule 0 (lambda (pr) %s)))", e)
		a.swallow = true
	case 15:
		rt, out = "send", fmt.Sprintf("(send {m: (lambda () %s)} m:)", e)
	case 16:
		rt, out = "send-shortcut", fmt.Sprintf("(m:> {parent*: {m: (lambda () %s)}})", e)
	case 17:
		rt, out = "apply-slot", fmt.Sprintf("(apply-slot {m: (lambda () %s)} m: '())", e)
	case 18:
		rt, out = "super", fmt.Sprintf("(send {parent*: {m: (lambda () %s)} m: (lambda () (m:^))} m:)", e)
	case 19:
		n := a.name("mac")
		rt, out = "macro-argument", fmt.Sprintf("(begin (defmacro (%s x) `(begin ,x)) (%s %s))", n, n, e)
	case 20:
		n := a.name("mac")
		rt, out = "macro-expansion", fmt.Sprintf("(begin (defmacro (%s) '%s) (%s))", n, e, n)
	case 21:
		n := a.name("mac")
		rt, out = "macro-body", fmt.Sprintf("(begin (defmacro (%s) (begin %s ''x)) (%s))", n, e, n)
	case 22:
		rt, out = "quasiquote", fmt.Sprintf("(car `(,%s 1))", e)
	case 23:
		rt, out = "eval", fmt.Sprintf("(eval '%s)", e)
	case 24:
		n := a.name("fn")
		rt, out = "define-function", fmt.Sprintf("(begin (define (%s) %s) (%s))", n, e, n)
	case 25:
		rt, out = "trusted-callback", fmt.Sprintf("(vh-call (lambda () %s))", e)
	case 26:
		rt, out = "trusted-map", fmt.Sprintf("(vh-map (lambda (z) %s) '(1 2))", e)
	case 27:
		rt, out = "map-lambda", fmt.Sprintf("(map (lambda (z) %s) '(1))", e)
	case 28:
		rt, out = "closure-in-channel", fmt.Sprintf("(let ((ch (make-channel 1))) (channel-write ch (lambda () %s)) ((car (channel-read ch))))", e)
	case 29:
		n := a.name("fn")
		rt, out = "nested-closure", fmt.Sprintf("(begin (define %s (let ((z 1)) (lambda () (let ((y 2)) %s)))) (%s))", n, e, n)
	case 30:
		rt, out = "begin", fmt.Sprintf("(begin 1 %s)", e)
	default:
		rt, out = "expand", fmt.Sprintf("(if (list 1) %s 0)", e)
	}
	a.route("wrap-" + rt)
	return a.wrap(out, d-1)
}

var attackArgs = []string{"'sym", "\"str\"", "5", "'(a b)", "\"/nonexistent/vh\"", "#t", "car"}

func c23Attack(c *Case) {
	r := c.R
	a := &attack{c: c, top: true}
	a.prim = restrictedList[c.Idx%len(restrictedList)]
	ns := restrictedNames[a.prim]
	n := ns[r.Intn(len(ns))]
	free := "vh-free"
	if r.Intn(12) == 0 {
		a.prim, a.special, n, free = "vh-restricted-form", true, r.Intn(3), "vh-free-form"
	}
	for i := 0; i < n; i++ {
		a.args = append(a.args, attackArgs[r.Intn(len(attackArgs))])
	}
	depth := r.Intn(4)
	how := r.Intn(6)
	if depth > 0 || how == 3 || how == 2 || how == 5 {
		a.top = false
	}
	tmpl := a.wrap(a.call(2), depth)
	hostTmpl := ""
	switch r.Intn(6) {
	case 0: // defined in the environment, called by the host or by other code from outside
		tmpl = fmt.Sprintf("(define (vh-entry) %s)", tmpl)
		hostTmpl = "(vh-entry-fn)"
		a.route("host-calls-function")
	case 1:
		tmpl = fmt.Sprintf("(define vh-frame {m: (lambda () %s)})", tmpl)
		hostTmpl = "(send vh-frame-fr m:)"
		a.route("host-sends-message")
	}
	howName := []string{"restrict-environment", "host flag", "scope below", "let", "restricted twice", "function scope"}[how]
	run := func(prim string, restricted bool) (calls []string, d *golisp.Data, err error, env *golisp.SymbolTableFrame) {
		s := strings.ReplaceAll(tmpl, "PRIM", prim)
		env = golisp.NewSymbolTableFrameBelow(golisp.Global, "vh-restrict")
		outer := env
		c.Desc("%s, restricted %v (%s), then %s", s, restricted, howName, hostTmpl)
		if restricted {
			switch how {
			case 0, 4:
				_, err = evalText("(restrict-environment)", env)
				if err == nil && how == 4 {
					_, err = evalText("(restrict-environment)", env)
				}
			case 1:
				env.IsRestricted = true
			case 2:
				env.IsRestricted = true
				env = golisp.NewSymbolTableFrameBelow(env, "vh-below")
			}
			if err != nil {
				c.Fail("restrict:"+howName, "restrict-environment failed: %v", err)
				return
			}
		}
		hooked.take()
		switch how {
		case 3:
			if restricted {
				s = fmt.Sprintf("(let () (restrict-environment) %s)", s)
			} else {
				s = fmt.Sprintf("(let () 1 %s)", s)
			}
			if hostTmpl != "" { // the definition must be seen outside the let
				s = strings.Replace(s, "(define (vh-entry) ", "(set! vh-entry (lambda () ", 1)
				s = strings.Replace(s, "(define vh-frame ", "(set! vh-frame ", 1)
				if strings.Contains(s, "(set! vh-entry") {
					s += ")"
				}
				evalText("(define vh-entry 0)", env)
				evalText("(define vh-frame 0)", env)
			}
		case 5:
			x := "1"
			if restricted {
				x = "(restrict-environment)"
			}
			if hostTmpl == "" {
				s = fmt.Sprintf("(begin (define (vh-fs) %s %s) (vh-fs))", x, s)
			} else if restricted {
				_, err = evalText(x, env)
			}
		}
		d, err = evalText(s, env)
		if err == nil && hostTmpl != "" {
			if early := hooked.take(); len(early) > 0 {
				calls = append(calls, early...)
			}
			outside := golisp.NewSymbolTableFrameBelow(golisp.Global, "vh-caller")
			outside.BindLocallyTo(symD("vh-entry-fn"), env.ValueOf(symD("vh-entry")))
			outside.BindLocallyTo(symD("vh-frame-fr"), env.ValueOf(symD("vh-frame")))
			d, err = evalText(hostTmpl, outside)
		}
		calls = append(calls, hooked.take()...)
		if restricted && how != 3 && how != 5 {
			if !outer.IsRestricted {
				c.Fail("lifted:"+s, "the restriction of the environment was lifted by %s", s)
			}
		}
		if golisp.Global.IsRestricted {
			c.Fail("global:"+s, "the global environment became restricted after %s", s)
			golisp.Global.IsRestricted = false
		}
		return
	}
	text := strings.ReplaceAll(tmpl, "PRIM", a.prim)
	key := howName + ":" + text + hostTmpl

	calls, _, err, _ := run(a.prim, false)
	if len(calls) == 0 {
		c.Count("routes_dead", 1)
		if err != nil && strings.Contains(err.Error(), "restricted from execution") {
			c.Fail("control:"+key, "in an unrestricted environment %s failed: %v", text, err)
		}
		return
	}
	c.Count("controls_reached", 1)
	for _, rt := range a.routes {
		c.Count("live_"+rt, 1)
	}
	c.Count("live_prim_"+a.prim, 1)

	calls, d, err, _ := run(a.prim, true)
	if len(calls) > 0 {
		c.Fail("executed:"+key, "restricted by %s, %s executed %v (result %s, error %v)", howName, text, calls, golisp.String(d), err)
		return
	}
	if err == nil && !a.swallow {
		c.Fail("noerror:"+key, "restricted by %s, %s gave %s instead of an error", howName, text, golisp.String(d))
		return
	}
	c.Count("attempts_refused", 1)
	c.Count("restricted_by_"+strings.ReplaceAll(howName, " ", "_"), 1)

	calls1, d1, err1, _ := run(free, false)
	calls2, d2, err2, _ := run(free, true)
	if fmt.Sprint(calls1) != fmt.Sprint(calls2) || (err1 == nil) != (err2 == nil) || showOutcome(d1, err1) != showOutcome(d2, err2) {
		c.Fail("free:"+key, "an unrestricted built-in behaves differently when restricted by %s: %s\ncalls %v and %v, errors %v and %v", howName, strings.ReplaceAll(tmpl, "PRIM", free), calls1, calls2, err1, err2)
		return
	}
	if len(calls2) > 0 {
		c.Count("unrestricted_reached", 1)
	}
	c.Distinct(key)
	if c.Idx < 3 {
		c.Sample(text)
	}
}

// the real bodies, in a private directory: no file, evaluation, port or environment appears
func c23Effects(c *Case) {
	r := c.R
	dir := filepath.Join(scratch(), fmt.Sprintf("c23-%d", c.Idx))
	os.Mkdir(dir, 0o700)
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	src := filepath.Join(dir, "src.lsp")
	os.WriteFile(src, []byte("(vh-tick 'loaded)"), 0o600)
	portFile := filepath.Join(dir, "port")
	port, err := os.Create(portFile)
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer port.Close()
	forms := []string{
		fmt.Sprintf("(open-output-file %q)", out), fmt.Sprintf("(open-output-file %q #t)", out), fmt.Sprintf("(open-input-file %q)", src),
		fmt.Sprintf("(load %q)", src), "(global-eval '(vh-tick 'escaped))", "(write-bytes (list->bytearray '(65 66)) the-port)", "(close-port the-port)",
		fmt.Sprintf("(exec \"touch\" %q)", out), "(system-global-environment)", "(environment-parent the-env)", "(make-top-level-environment \"vh-made\")",
		"(find-top-level-environment \"vh-restrict\")", "(procedure-environment (lambda () 1))", "(debug-on-error #t)", "(panic! \"vh\")", "(add-debug-on-entry 'no-such-function)"}
	form := forms[c.Idx%len(forms)]
	tmpl := form
	a := &attack{c: c}
	tmpl = a.wrap(tmpl, r.Intn(3))
	env := golisp.NewSymbolTableFrameBelow(golisp.Global, "vh-restrict")
	env.BindLocallyTo(symD("the-port"), golisp.PortWithValue(port))
	env.BindLocallyTo(symD("the-env"), golisp.EnvironmentWithValue(env))
	if _, err := evalText("(restrict-environment)", env); err != nil {
		c.Fail("restrict", "restrict-environment failed: %v", err)
		return
	}
	c.Desc("%s", tmpl)
	rec.take()
	debugBefore := golisp.DebugOnError
	atomic.StoreInt32(&hooked.real, 1)
	d, err := evalText(tmpl, env)
	atomic.StoreInt32(&hooked.real, 0)
	tr := rec.take()
	hooked.take()
	bad := ""
	if _, e := os.Stat(out); e == nil {
		bad = "a file was created"
	}
	if len(tr) > 0 {
		bad = fmt.Sprintf("code ran outside: %v", tr)
	}
	if b, _ := os.ReadFile(portFile); len(b) > 0 {
		bad = fmt.Sprintf("bytes %v were written", b)
	}
	if _, e := port.Write([]byte("x")); e != nil {
		bad = "the port was closed"
	}
	if err == nil && (golisp.EnvironmentP(d) || golisp.PortP(d)) {
		bad = "it returned " + golisp.String(d)
	}
	if golisp.DebugOnError != debugBefore {
		golisp.DebugOnError = debugBefore
		bad = "debug-on-error changed"
	}
	if golisp.DebugOnEntry.Has("no-such-function") {
		golisp.DebugOnEntry.Remove("no-such-function")
		bad = "debugging was switched on"
	}
	if err == nil && !a.swallow {
		bad = "it gave " + golisp.String(d) + " instead of an error"
	}
	if bad != "" {
		c.Fail("effect:"+strings.ReplaceAll(tmpl, dir, "DIR"), "in a restricted environment %s: %s", strings.ReplaceAll(tmpl, dir, "DIR"), bad)
		return
	}
	c.Count("effects_absent", 1)
	c.Distinct(strings.ReplaceAll(tmpl, dir, "DIR"))
}

func init() {
	need := []string{"controls_reached", "attempts_refused", "unrestricted_reached", "effects_absent", "live_wrap-fork", "live_wrap-schedule", "live_wrap-macro-body", "live_wrap-macro-expansion",
		"live_wrap-on-error-handler", "live_wrap-super", "live_call-map", "live_call-reduce", "live_call-fold-right", "live_call-find", "live_call-chain", "live_call-tap", "live_call-outer-macro", "live_call-eval-list",
		"live_call-special", "live_callee-lookup", "live_host-calls-function", "live_host-sends-message"}
	register(&Check{ID: "C23",
		Rule: "attack: a random route to a restricted built-in (obtaining it, calling it, and up to three surrounding constructs, possibly entered by the host) is run with recording stand-ins in an unrestricted environment (must reach it), in a restricted one (must not, and must report an error unless the route catches it) and with an unrestricted built-in in its place; effects: the real built-ins under monitors of files, ports, evaluation, debugger state and returned values. Distinct: the route and expression.",
		Assumptions: []string{"the restricted built-ins are the seventeen the pinned tree restricts, and those the host registers as restricted",
			"trusted functions defined outside may use restricted built-ins themselves; scopes that existed before the restriction are not covered"},
		Setup: setupRestrict,
		Need:  need,
		Phases: []Phase{
			{"attack", 40000, 600000, c23Attack},
			{"effects", 1600, 16000, c23Effects},
		}})
}
