package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/steelseries/golisp"
)

// ---- C28: processes ------------------------------------------------------------------

var procOnce sync.Once
var procEpoch = time.Now()

func nowNs() int64 { return int64(time.Since(procEpoch)) }

type procLog struct {
	mu  sync.Mutex
	ev  map[string][]string // per tag, the canonical arguments of every call
	at  map[string][]int64
	seq int
}

var plog procLog

func (p *procLog) reset() {
	p.mu.Lock()
	p.ev, p.at = map[string][]string{}, map[string][]int64{}
	p.mu.Unlock()
}
func (p *procLog) calls(tag string) []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.ev[tag]...)
}
func (p *procLog) times(tag string) []int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]int64(nil), p.at[tag]...)
}

func setupProc() {
	setupConc()
	procOnce.Do(func() {
		plog.reset()
		// (vh-event tag value ...) records that this was reached, and when
		golisp.MakePrimitiveFunction("vh-event", ">=1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			t := nowNs()
			tag := golisp.StringValue(golisp.Car(args))
			s := argsCanon(golisp.Cdr(args))
			plog.mu.Lock()
			plog.ev[tag] = append(plog.ev[tag], s)
			plog.at[tag] = append(plog.at[tag], t)
			plog.mu.Unlock()
			return nil, nil
		})
		golisp.MakePrimitiveFunction("vh-now", "0", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			return golisp.IntegerWithValue(nowNs()), nil
		})
		golisp.MakePrimitiveFunction("vh-panic", "*", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			panic("vh-panic")
		})
		golisp.MakePrimitiveFunction("vh-pause", "1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			time.Sleep(time.Duration(golisp.IntegerValue(golisp.Car(args))) * time.Microsecond)
			return nil, nil
		})
	})
}

type procCase struct {
	c   *Case
	r   *rand.Rand
	env *golisp.SymbolTableFrame
	log []string
	bad bool
}

func newProcCase(c *Case) *procCase {
	plog.reset()
	return &procCase{c: c, r: c.R, env: freshEnv()}
}

func (p *procCase) text() string { return strings.Join(p.log, "\n") }

// do evaluates a form; errWant: -1 must succeed, 1 must fail, 0 either
func (p *procCase) do(errWant int, f string, a ...interface{}) *golisp.Data {
	src := f
	if len(a) > 0 {
		src = fmt.Sprintf(f, a...)
	}
	p.log = append(p.log, src)
	p.c.Desc("%s", p.text())
	d, err := evalText(src, p.env)
	if errWant == -1 && err != nil {
		p.fail("error:"+src, "%s failed: %v", src, err)
	}
	if errWant == 1 && err == nil {
		p.fail("noerror:"+src, "%s is not an error but gives %s", src, canonD(d))
	}
	return d
}

func (p *procCase) fail(sig, f string, a ...interface{}) {
	p.bad = true
	p.c.Fail(sig+"\n"+p.text(), "%s\nprogram:\n%s", fmt.Sprintf(f, a...), p.text())
}

func (p *procCase) want(src, want string) {
	d := p.do(-1, "%s", src)
	if p.bad {
		return
	}
	if got := canonD(d); got != want {
		p.fail("value:"+src, "%s gave %s, want %s", src, got, want)
	}
}

func (p *procCase) ran(tag string, want ...string) {
	got := plog.calls(tag)
	if strings.Join(got, "|") != strings.Join(want, "|") || len(got) != len(want) {
		p.fail("runs:"+tag, "process function %s ran %d times with [%s], should have run %d times with [%s]", tag, len(got), strings.Join(got, "|"), len(want), strings.Join(want, "|"))
	}
}

const hour = 3600000

// forkJoin: several processes, of the same and of different functions.
func procForkJoin(c *Case) {
	p := newProcCase(c)
	r := p.r
	n := 1 + r.Intn(6)
	sched := r.Intn(2) == 0
	// the function all of them run: arguments in, a value out, once each
	p.do(-1, "(define runs (atomic 0))")
	p.do(-1, "(define gate (make-channel 64))")
	p.do(-1, "(define (helper-join q) (join q))")
	p.do(-1, "(define (helper2 q k) (if (eqv? k 0) (helper-join q) (helper2 q (- k 1))))")
	shapes := []string{
		"(define (f p tag a b) (vh-event tag a b) (atomic-add! runs 1) (list tag (+ a b)))",
		"(define (f p tag a . b) (vh-event tag a (car b)) (atomic-add! runs 1) (list tag (apply + a b)))",
		"(define (f p tag a b) (vh-event tag a b) (atomic-add! runs 1) (let ((x (+ a b))) (join p) (list tag x)))",
		"(define (f p tag a b) (vh-event tag a b) (helper-join p) (atomic-add! runs 1) (list tag (+ a b)))",
		"(define (f p tag a b) (vh-event tag a b) (map (lambda (x) (helper2 p 3)) '(1 2)) (atomic-add! runs 1) (list tag (+ a b)))",
		"(define (f p tag a b) (vh-event tag a b) (proc-sleep p 0) (atomic-add! runs 1) ((lambda (q) (let* ((z (join q))) (list tag (+ a b)))) p))",
		"(define f (let ((k 0)) (lambda (p tag a b) (vh-event tag a b) (atomic-add! runs 1) (list tag (+ a b k)))))",
		"(define (f p tag a b) (vh-event tag a b) (channel-read gate) (atomic-add! runs 1) (list tag (+ a b)))",
		"(define (f p tag a b) (vh-event tag a b) (atomic-add! runs 1) (join (fork (lambda (q) (join q) (list tag (+ a b))))))",
		"(define (f p tag a b) (vh-event tag a b) (atomic-add! runs 1) (on-error (error \"x\") (lambda (e) (join p) (list tag (+ a b)))))",
	}
	si := r.Intn(len(shapes))
	gated := si == 7
	p.do(-1, "%s", shapes[si])
	type pr struct {
		tag  string
		a, b int
		t0   int64
		d    int
	}
	var ps []pr
	for i := 0; i < n; i++ {
		q := pr{tag: fmt.Sprintf("t%d", i), a: r.Intn(100), b: r.Intn(100) - 50}
		how := fmt.Sprintf("f \"%s\" %d %d", q.tag, q.a, q.b)
		if r.Intn(4) == 0 {
			how = fmt.Sprintf("f (str \"t\" %d) (+ 1 %d) (car (list %d)))", i, q.a-1, q.b)
			how = strings.TrimSuffix(how, ")")
		}
		q.t0 = nowNs()
		call := "fork " + how
		if sched && r.Intn(2) == 0 {
			q.d = r.Intn(12)
			call = fmt.Sprintf("schedule %d %s", q.d, how)
			c.Count("scheduled", 1)
		} else {
			c.Count("forked", 1)
		}
		switch r.Intn(3) {
		case 0:
			p.do(-1, "(define p%d (%s))", i, call)
		case 1:
			p.do(-1, "(define p%d (let ((z 1)) (%s)))", i, call)
		case 2:
			p.do(-1, "(define p%d ((lambda () (%s))))", i, call)
		}
		ps = append(ps, q)
		if p.bad {
			return
		}
	}
	if gated {
		// only now do they get what they wait for: they run beside the caller
		for i := 0; i < n; i++ {
			p.do(-1, "(channel-write gate %d)", i)
		}
		c.Count("gated", n)
	}
	order := r.Perm(n)
	for _, i := range order {
		q := ps[i]
		want := fmt.Sprintf("(\"%s\" %d)", q.tag, q.a+q.b)
		switch r.Intn(4) {
		case 0: // joined by another process that runs a function of its own
			p.want(fmt.Sprintf("(join (fork (lambda (q) (join p%d))))", i), want)
		case 1: // several at once: one of them gets the value
			k := 2 + r.Intn(3)
			outs := make([]string, k)
			par(c, k, r.Intn(2), p.env, func(j int, env *golisp.SymbolTableFrame) {
				d, err := golisp.Eval(mustParse(fmt.Sprintf("(join p%d)", i)), env)
				outs[j] = showOutcome(d, err)
			})
			won := 0
			for _, o := range outs {
				if o == want {
					won++
				} else if o != "ERROR" {
					p.fail("joins", "of %d simultaneous joins of p%d one gave %s, want %s or an error", k, i, o, want)
				}
			}
			if won != 1 {
				p.fail("joins", "of %d simultaneous joins of p%d %d gave the value: %v", k, i, won, outs)
			}
			c.Count("simultaneous_joins", k)
		default:
			p.want(fmt.Sprintf("(join p%d)", i), want)
		}
		if p.bad {
			return
		}
		p.ran(q.tag, fmt.Sprintf("%d %d", q.a, q.b))
		if t := plog.times(q.tag); len(t) == 1 && t[0]-q.t0 < int64(q.d)*1e6 {
			p.fail("early", "a function scheduled after %d ms ran after %d ns", q.d, t[0]-q.t0)
		}
		if r.Intn(2) == 0 {
			p.do(1, "(join p%d)", i)
			c.Count("second_joins", 1)
		}
		c.Count("joined", 1)
	}
	if p.bad {
		return
	}
	p.want("(atomic-load runs)", fmt.Sprint(n))
	for i := 0; i < n; i++ {
		p.do(1, "(join p%d)", i)
		p.ran(ps[i].tag, fmt.Sprintf("%d %d", ps[i].a, ps[i].b))
	}
	c.Distinct(p.text())
	c.Sample(p.text())
}

// procWake: wake reaches the process it names and no other.
func procWake(c *Case) {
	p := newProcCase(c)
	r := p.r
	n := 1 + r.Intn(5)
	p.do(-1, "(define ready (make-channel 16))")
	p.do(-1, "(define (f p go t) (channel-read go) (channel-write ready 1) (let* ((t0 (vh-now)) (w (proc-sleep p t)) (t1 (vh-now))) (list w (- t1 t0))))")
	p.do(-1, "(define (g p go t k) (channel-read go) (channel-write ready 1) (let* ((t0 (vh-now)) (w (proc-sleep p t)) (t1 (vh-now))) (list w (- t1 t0))))")
	woken := make([]bool, n)
	ts := make([]int, n)
	for i := 0; i < n; i++ {
		woken[i] = r.Intn(2) == 0
		ts[i] = hour
		if !woken[i] {
			ts[i] = r.Intn(15)
		}
		p.do(-1, "(define go%d (make-channel 1))", i)
		switch r.Intn(3) {
		case 0:
			p.do(-1, "(define p%d (fork f go%d %d))", i, i, ts[i])
		case 1:
			p.do(-1, "(define p%d (fork g go%d %d 0))", i, i, ts[i])
		case 2:
			p.do(-1, "(define p%d (schedule %d f go%d %d))", i, r.Intn(5), i, ts[i])
		}
	}
	// wake before the process sleeps, or about when it does
	wake := func(i int) {
		switch r.Intn(3) {
		case 0:
			p.do(-1, "(join (fork (lambda (q) (wake p%d))))", i)
		case 1:
			p.do(-1, "((lambda (x) (wake x)) p%d)", i)
		default:
			p.do(-1, "(wake p%d)", i)
		}
	}
	late := map[int]bool{}
	multi := r.Intn(4) == 0
	for _, i := range r.Perm(n) {
		if woken[i] && r.Intn(2) == 0 {
			wake(i)
			if multi {
				wake(i)
			}
			c.Count("wakes_before_sleep", 1)
		} else if woken[i] {
			late[i] = true
		}
		p.do(-1, "(channel-write go%d 1)", i)
	}
	if len(late) > 0 {
		for k := 0; k < n; k++ {
			p.do(-1, "(channel-read ready)")
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
	}
	for i := range late {
		wake(i)
		c.Count("wakes_about_sleep", 1)
	}
	for _, i := range r.Perm(n) {
		d := p.do(-1, "(join p%d)", i)
		if p.bad {
			return
		}
		w, el := golisp.Car(d), golisp.IntegerValue(golisp.Cadr(d))
		if !golisp.BooleanP(w) || golisp.BooleanValue(w) != woken[i] {
			p.fail("woken", "process %d was woken: %v, but its proc-sleep of %d ms returned %s", i, woken[i], ts[i], canonD(w))
		}
		if !woken[i] && el < int64(ts[i])*1e6 {
			p.fail("slept", "process %d slept %d ns instead of %d ms without being woken", i, el, ts[i])
		}
		c.Count("sleeps", 1)
		// waking what has ended does nothing and does not wait
		for k := r.Intn(4); k > 0; k-- {
			p.do(-1, "(wake p%d)", i)
		}
	}
	c.Distinct(p.text())
}

// procWakeOne: one process with its own channels, several sleeps in step.
func procWakeOne(c *Case) {
	p := newProcCase(c)
	r := p.r
	n := 1 + r.Intn(3)
	p.do(-1, "(define (f p go out) (do ((t (car (channel-read go)) (car (channel-read go)))) ((< t 0) 'done) (channel-write out (proc-sleep p t))))")
	for i := 0; i < n; i++ {
		p.do(-1, "(define go%d (make-channel 1))", i)
		p.do(-1, "(define out%d (make-channel 1))", i)
		p.do(-1, "(define p%d (%s f go%d out%d))", i, []string{"fork", "schedule 0", "schedule 3"}[r.Intn(3)], i, i)
	}
	pending := make([]bool, n)
	for k := 0; k < 3+r.Intn(10) && !p.bad; k++ {
		i := r.Intn(n)
		if r.Intn(2) == 0 {
			p.do(-1, "(wake p%d)", i)
			pending[i] = true
			continue
		}
		t := r.Intn(4)
		if pending[i] {
			t = hour
		}
		late := t != hour && r.Intn(3) == 0
		if late {
			t = hour
		}
		p.do(-1, "(channel-write go%d %d)", i, t)
		if late {
			p.do(-1, "(wake p%d)", i)
		}
		p.want(fmt.Sprintf("(car (channel-read out%d))", i), map[bool]string{true: "#t", false: "#f"}[t == hour])
		pending[i] = false
		c.Count("sleeps", 1)
	}
	for i := 0; i < n && !p.bad; i++ {
		p.do(-1, "(channel-write go%d -1)", i)
		p.want(fmt.Sprintf("(join p%d)", i), "|done|")
	}
	c.Distinct(p.text())
}

// procFaults: errors and panics end only the process they happen in.
func procFaults(c *Case) {
	p := newProcCase(c)
	r := p.r
	n := 2 + r.Intn(5)
	p.do(-1, "(define gate (make-channel 64))")
	faults := []string{"(error \"boom\")", "(vh-panic)", "(panic! \"boom\")", "(car 1 2 3)", "(undefined-function-x 1)", "(vector-ref)", "(map (lambda (x) (vh-panic)) '(1))", "(let ((x 1)) (error x))", "(apply vh-panic '())", "(channel-write 5 5)", "(join 5)", "(nth-bad)"}
	fault := faults[r.Intn(len(faults))]
	p.do(-1, "(define (f p tag bad) (vh-event tag) (if bad (begin %s 'unreached) (begin (channel-read gate) (list tag 'fine))))", fault)
	bad := make([]bool, n)
	for i := range bad {
		bad[i] = r.Intn(2) == 0
		p.do(-1, "(define p%d (%s f \"t%d\" %s))", i, []string{"fork", "schedule 1"}[r.Intn(2)], i, map[bool]string{true: "#t", false: "#f"}[bad[i]])
	}
	for _, i := range r.Perm(n) {
		if bad[i] && r.Intn(2) == 0 {
			p.want(fmt.Sprintf("(join p%d)", i), "()")
			c.Count("faults_joined", 1)
			p.ran(fmt.Sprintf("t%d", i), "")
			bad[i] = false
			p.do(1, "(join p%d)", i)
			bad[i] = true
			p.log = append(p.log, "")
			// remember it is gone
			p.do(-1, "(define p%d nil)", i)
		}
	}
	for i := 0; i < n; i++ {
		p.do(-1, "(channel-write gate 1)")
	}
	for i := range bad {
		if !bad[i] {
			p.want(fmt.Sprintf("(join p%d)", i), fmt.Sprintf("(\"t%d\" |fine|)", i))
			p.ran(fmt.Sprintf("t%d", i), "")
		} else if d, _ := evalText(fmt.Sprintf("p%d", i), p.env); golisp.NotNilP(d) {
			p.want(fmt.Sprintf("(join p%d)", i), "()")
			c.Count("faults_joined", 1)
			p.ran(fmt.Sprintf("t%d", i), "")
		}
		if p.bad {
			return
		}
	}
	// the interpreter works on
	p.want("(join (fork (lambda (q x) (* x x)) 12))", "144")
	c.Distinct(p.text())
}

// procSchedule: abandon, reset and their independence.
func procSchedule(c *Case) {
	p := newProcCase(c)
	r := p.r
	n := 1 + r.Intn(5)
	p.do(-1, "(define (f p tag x) (vh-event tag x) (list tag x))")
	kind := make([]int, n)
	delay := make([]int, n)
	t0 := make([]int64, n)
	for i := 0; i < n; i++ {
		kind[i] = r.Intn(4) // 0 left alone, 1 abandoned, 2 reset, 3 reset and abandoned
		delay[i] = r.Intn(15)
		if kind[i] == 1 || kind[i] == 3 {
			delay[i] = hour
		}
		t0[i] = nowNs()
		p.do(-1, "(define p%d (schedule %d f \"t%d\" %d))", i, delay[i], i, i*10)
	}
	type act struct {
		i  int
		op string
	}
	var acts []act
	for i := 0; i < n; i++ {
		switch kind[i] {
		case 1:
			for k := 1 + r.Intn(3); k > 0; k-- {
				acts = append(acts, act{i, "abandon"})
			}
		case 2:
			for k := 1 + r.Intn(3); k > 0; k-- {
				acts = append(acts, act{i, "reset-timeout"})
			}
		case 3:
			for k := 2 + r.Intn(3); k > 0; k-- {
				acts = append(acts, act{i, []string{"abandon", "reset-timeout"}[k%2]})
			}
		}
		if r.Intn(3) == 0 {
			acts = append(acts, act{i, "wake"})
		}
	}
	r.Shuffle(len(acts), func(a, b int) { acts[a], acts[b] = acts[b], acts[a] })
	for _, a := range acts {
		if r.Intn(4) == 0 {
			p.do(-1, "(join (fork (lambda (q) (%s p%d))))", a.op, a.i)
		} else {
			p.do(-1, "(%s p%d)", a.op, a.i)
		}
		c.Count(a.op, 1)
	}
	for _, i := range r.Perm(n) {
		tag := fmt.Sprintf("t%d", i)
		if kind[i] == 1 || kind[i] == 3 {
			p.want(fmt.Sprintf("(join p%d)", i), "()")
			p.ran(tag)
			c.Count("abandoned_never_ran", 1)
		} else {
			p.want(fmt.Sprintf("(join p%d)", i), fmt.Sprintf("(\"%s\" %d)", tag, i*10))
			p.ran(tag, fmt.Sprint(i*10))
			if t := plog.times(tag); len(t) > 0 && t[0]-t0[i] < int64(delay[i])*1e6 {
				p.fail("early", "a function scheduled after %d ms ran after %d ns", delay[i], t[0]-t0[i])
			}
			c.Count("ran_once", 1)
		}
		if p.bad {
			return
		}
		// afterwards nothing has an effect any more, and nothing waits
		for k := r.Intn(5); k > 0; k-- {
			p.do(-1, "(%s p%d)", []string{"abandon", "reset-timeout", "wake"}[r.Intn(3)], i)
		}
		p.do(1, "(join p%d)", i)
	}
	time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	for i := 0; i < n; i++ {
		tag := fmt.Sprintf("t%d", i)
		if kind[i] == 1 || kind[i] == 3 {
			p.ran(tag)
		} else {
			p.ran(tag, fmt.Sprint(i*10))
		}
	}
	c.Distinct(p.text())
}

// procReset: reset-timeout starts the delay again. A process that runs too early
// counts only if it does so again with ever longer delays, so that a machine that
// stalls for a while is not mistaken for a violation.
func procReset(c *Case) {
	r := c.R
	resets := 1 + r.Intn(3)
	var hist []string
	for _, d := range []int{20, 60, 180, 600, 1500} {
		p := newProcCase(c)
		p.do(-1, "(define (f p) (vh-event \"run\") 'ran)")
		p.do(-1, "(define p1 (schedule %d f))", d)
		var last int64
		for k := 0; k < resets; k++ {
			time.Sleep(time.Duration(d) * time.Millisecond / 2)
			last = nowNs()
			p.do(-1, "(reset-timeout p1)")
		}
		p.want("(join p1)", "|ran|")
		p.ran("run", "")
		if p.bad {
			return
		}
		t := plog.times("run")[0]
		c.Count("resets", resets)
		if t >= last+int64(d)*1e6 {
			c.Count("reset_restarted", 1)
			c.Distinct(fmt.Sprintf("%d resets of a delay of %d ms", resets, d))
			return
		}
		hist = append(hist, fmt.Sprintf("delay %d ms, %d resets half a delay apart: ran %.1f ms after the last reset", d, resets, float64(t-last)/1e6))
	}
	c.Fail("reset", "reset-timeout does not restart the delay:\n%s", strings.Join(hist, "\n"))
}

// procMisuse: what is refused, and has no effect.
func procMisuse(c *Case) {
	p := newProcCase(c)
	r := p.r
	p.do(-1, "(define (f p tag) (vh-event tag) tag)")
	p.do(-1, "(define (g p . r) r)")
	p.do(-1, "(define (h p tag . r) (vh-event tag) (list tag r))")
	// a rest parameter takes any number of further arguments, none included
	for _, s := range []string{"fork", "schedule 1"} {
		switch r.Intn(6) {
		case 0:
			p.want("(join ("+s+" g))", "()")
		case 1:
			p.want("(join ("+s+" g 1))", "(1)")
		case 2:
			p.want("(join ("+s+" g 1 2 3))", "(1 2 3)")
		case 3:
			p.want("(join ("+s+" h \"k\"))", "(\"k\" ())")
		case 4:
			p.want("(join ("+s+" h \"k\" '(1) 2))", "(\"k\" ((1) 2))")
		}
	}
	bads := []string{"(fork h)", "(schedule 0 h)", "(fork f)", "(fork f \"x\" 2)", "(fork car \"x\")", "(fork 5 \"x\")", "(fork (lambda () (vh-event \"x\")))", "(schedule 0 f)", "(schedule 1.5 f \"x\")", "(schedule \"1\" f \"x\")", "(schedule 0 car \"x\")", "(schedule 0 (lambda () (vh-event \"x\")))",
		"(join 5)", "(join nil)", "(join (atomic))", "(wake 5)", "(wake (make-channel))", "(abandon 5)", "(reset-timeout 'x)", "(proc-sleep 5 5)", "(proc-sleep (atomic) 5)"}
	for _, b := range bads {
		if r.Intn(2) == 0 {
			p.do(1, "%s", b)
		}
	}
	p.do(-1, "(define p1 (fork f \"t\"))")
	p.do(1, "(abandon p1)")
	p.do(1, "(reset-timeout p1)")
	p.do(1, "(proc-sleep p1 1.5)")
	p.want("(join p1)", "\"t\"")
	p.ran("x")
	p.ran("t", "")
	// a closure a process made, called by somebody else, joins like anybody's
	p.do(-1, "(define ch (make-channel))")
	p.do(-1, "(define gate (make-channel))")
	p.do(-1, "(define p2 (fork (lambda (p) (channel-write ch (lambda () (join p))) (channel-read gate) 'late)))")
	p.do(-1, "(define j (car (channel-read ch)))")
	p.do(-1, "(define w (fork (lambda (q) (channel-write gate 1))))")
	p.want("(j)", "|late|")
	p.do(1, "(j)")
	p.want("(join w)", "()")
	c.Distinct(p.text())
}

// procTree: processes that fork and join processes, all running one function.
// processes that take seconds: a join lasts as long as its process
func procLong(c *Case) {
	p := newProcCase(c)
	ms := 3200 + p.r.Intn(1200)
	p.do(-1, "(define (slow p n) (sleep n) (list 'slow n))")
	p.do(-1, "(define (napper p n) (list 'woken (proc-sleep p n)))")
	p.do(-1, "(define in (make-channel))")
	p.do(-1, "(define (reader p) (channel-read in))")
	p.do(-1, "(define p0 (fork slow %d))", ms)
	p.do(-1, "(define p1 (schedule %d slow 1))", ms)
	p.do(-1, "(define p2 (fork napper 3600000))")
	p.do(-1, "(define p3 (fork reader))")
	p.do(-1, "(define p4 (fork napper %d))", ms)
	p.do(-1, "(fork (lambda (p) (sleep %d) (wake p2) (channel-write in 'late)))", ms)
	p.do(-1, "(define outer (fork (lambda (p) (list (join p2) (join p3)))))")
	p.want("(join p0)", fmt.Sprintf("(|slow| %d)", ms))
	p.want("(join p1)", "(|slow| 1)")
	p.want("(car (join outer))", "(|woken| #t)")
	p.want("(join p4)", "(|woken| #f)")
	c.Count("long_processes", 1)
	c.Distinct(p.text())
}

func procTree(c *Case) {
	p := newProcCase(c)
	r := p.r
	depth := 1 + r.Intn(3)
	width := 1 + r.Intn(3)
	p.do(-1, "(define count (atomic 0))")
	join := []string{"(join q)", "((lambda (z) (join z)) q)", "(begin (wake q) (join q))"}[r.Intn(3)]
	p.do(-1, "(define (node p d) (atomic-add! count 1) (join p) (if (eqv? d 0) 1 (let ((kids (map (lambda (i) (fork node (- d 1))) (interval 1 %d)))) (join p) (apply + 1 (map (lambda (q) %s) kids)))))", width, join)
	total, level := 0, 1
	for i := 0; i <= depth; i++ {
		total += level
		level *= width
	}
	p.want(fmt.Sprintf("(join (fork node %d))", depth), fmt.Sprint(total))
	p.want("(atomic-load count)", fmt.Sprint(total))
	c.Count("tree_processes", total)
	c.Distinct(p.text())
}

// procSame: processes of one function, one waiting for the other, must not be
// taken for one another.
func procSame(c *Case) {
	p := newProcCase(c)
	r := p.r
	n := 2 + r.Intn(4)
	p.do(-1, "(define (f p prev in k) (if prev (list k (join prev)) (begin (channel-read in) (list k))))")
	p.do(-1, "(define in (make-channel))")
	p.do(-1, "(define p0 (fork f #f in 0))")
	for i := 1; i < n; i++ {
		p.do(-1, "(define p%d (fork f p%d in %d))", i, i-1, i)
	}
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	}
	p.do(-1, "(channel-write in 1)")
	want := "(0)"
	for i := 1; i < n; i++ {
		want = fmt.Sprintf("(%d %s)", i, want)
	}
	p.want(fmt.Sprintf("(join p%d)", n-1), want)
	for i := 0; i < n-1; i++ {
		p.do(1, "(join p%d)", i)
	}
	c.Count("chains", 1)
	c.Distinct(p.text())
}

func init() {
	register(&Check{
		ID:     "C28",
		Shards: 6,
		Rule: "generated scenarios of forked and scheduled processes with recorded calls, arguments, times and join results, judged against what each process must do; distinct by program text. " +
			"Lower time bounds only (a delay or sleep is never shorter than asked); everything else is decided without a clock",
		Assumptions: []string{"a process is abandoned in time when it is abandoned an hour before it is due", "reset-timeout is judged only when five attempts with growing delays all run early"},
		Setup:       setupProc,
		Need:        []string{"joined", "simultaneous_joins", "sleeps", "wakes_before_sleep", "wakes_about_sleep", "faults_joined", "abandoned_never_ran", "ran_once", "reset_restarted", "chains"},
		Phases: []Phase{
			{Name: "fork-join", Quick: 2500, Thorough: 20000, Run: procForkJoin},
			{Name: "wake", Quick: 1500, Thorough: 10000, Run: procWake},
			{Name: "wake-sequence", Quick: 1500, Thorough: 8000, Run: procWakeOne},
			{Name: "faults", Quick: 1500, Thorough: 8000, Run: procFaults},
			{Name: "schedule", Quick: 1500, Thorough: 10000, Run: procSchedule},
			{Name: "reset", Quick: 60, Thorough: 600, Run: procReset},
			{Name: "misuse", Quick: 120, Thorough: 1200, Run: procMisuse},
			{Name: "long", Quick: 6, Thorough: 30, Run: procLong},
			{Name: "tree", Quick: 200, Thorough: 1200, Run: procTree},
			{Name: "same-function", Quick: 400, Thorough: 2400, Run: procSame},
		},
	})
}
