package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/steelseries/golisp"
)

// C39: sessions with the REPL and the debugger. A model evaluates a small language, stops where
// the debugger must stop, decides there what to type, and so produces the lines of a session
// together with what must appear after each of them; a process of its own then runs the session.

// replMain is the process under observation.
func replMain() {
	golisp.MakePrimitiveFunction("tk", "2", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
		fmt.Printf("T:%s %s\n", golisp.String(golisp.Car(args)), golisp.String(golisp.Cadr(args)))
		return golisp.Cadr(args), nil
	})
	golisp.Repl()
}

type dEnv struct {
	vars         map[string]V
	parent, prev *dEnv
	code         []string // the innermost evaluation is the last
}

func (e *dEnv) find(n string) *dEnv {
	for ; e != nil; e = e.parent {
		if _, ok := e.vars[n]; ok {
			return e
		}
	}
	return nil
}

func (e *dEnv) header() string {
	if len(e.code) == 0 {
		return "Unknown code"
	}
	return e.code[len(e.code)-1]
}

type dFn struct {
	name   string
	params []string
	body   []V
	env    *dEnv
}

type dPrim string

// dStep is one line typed, the prompt it answers and what must follow it. In resp a line "*" stands
// for any lines; lines that start with \x01 may come in any order among their neighbours of that kind;
// \x02 starts the names of a printed list in any order; \x03 a beginning only.
type dStep struct {
	prompt, in string
	resp       []string
}

type dbgModel struct {
	c                      *Case
	r                      *rand.Rand
	steps                  []*dStep
	top                    *dEnv
	step, onErr            bool
	inDbg                  bool
	up                     *dEnv
	marked                 map[string]bool
	stops, returns, traced int
	fns                    []*dFn
	globals                []string
	tk                     int
	names                  int
	faults                 bool
	mustReturn             bool
	malformed              bool
	trace                  bool
	history                []string // the lines kept: all but repetitions and what the REPL cannot read
	last, dlast            string
}

var errD = errors.New("error")

func (m *dbgModel) out(s string) {
	l := m.steps[len(m.steps)-1]
	l.resp = append(l.resp, s)
}

func (e *dEnv) depth() int {
	if e.prev == nil {
		return 1
	}
	return 1 + e.prev.depth()
}

// dump: the frames with their variables
func (m *dbgModel) dump(env *dEnv) {
	i := 0
	for e := env; e != nil; e = e.prev {
		m.out(fmt.Sprintf("Frame %d: %s", i, e.header()))
		for _, b := range bindings(e) {
			m.out(b)
		}
		m.out("")
		i++
	}
}

func (m *dbgModel) in(prompt, s string) {
	m.steps = append(m.steps, &dStep{prompt: prompt, in: s})
	last := &m.last
	if prompt == "D> " {
		last = &m.dlast
	} else if m.malformed || s == "\x04" {
		return
	}
	if s != *last {
		m.history = append(m.history, s)
		*last = s
	}
}

func dShow(v V) string {
	switch x := v.(type) {
	case *dFn:
		return "<function: " + x.name + ">"
	case dPrim:
		return "<prim: " + string(x)
	case *Pair:
		if x.A == Sym("quote") {
			return "'" + dShow(x.D.(*Pair).A)
		}
		var b []string
		var t V = x
		for {
			p, ok := t.(*Pair)
			if !ok {
				break
			}
			b = append(b, dShow(p.A))
			t = p.D
		}
		return "(" + strings.Join(b, " ") + ")"
	case nil:
		return "()"
	}
	return show(v)
}

func (m *dbgModel) markedNames() (out []string) {
	for n := range m.marked {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

// debugExpr: something to type at the debugger's prompt
func (m *dbgModel) debugExpr(env *dEnv) V {
	r := m.r
	var vars []string
	for e := env; e != nil; e = e.parent {
		for n, v := range e.vars {
			switch v.(type) {
			case *dFn:
			default:
				vars = append(vars, n)
			}
		}
	}
	sort.Strings(vars)
	pick := func() V {
		if len(vars) == 0 || r.Intn(3) == 0 {
			return int64(r.Intn(50) - 10)
		}
		return Sym(vars[r.Intn(len(vars))])
	}
	switch r.Intn(5) {
	case 0:
		return pick()
	case 1:
		if len(vars) > 0 {
			return list(Sym("set!"), Sym(vars[r.Intn(len(vars))]), int64(r.Intn(90)))
		}
	case 2:
		if m.stops < 400 {
			return list(Sym("+"), pick(), pick())
		}
	case 3:
		if r.Intn(3) == 0 {
			return list(Sym("quote"), Nil)
		}
	}
	return list(Sym("list"), pick(), pick())
}

func (m *dbgModel) typed(e V, env *dEnv) (V, error) {
	m.inDbg = true
	v, err := m.eval(e, env)
	m.inDbg = false
	return v, err
}

func bindings(e *dEnv) (out []string) {
	for n, v := range e.vars {
		out = append(out, "\x01   "+n+" => "+dShow(v))
	}
	sort.Strings(out)
	return
}

// stopped: the debugger is at its prompt. The answer is the value given with :r, if any.
func (m *dbgModel) stopped(env *dEnv) (V, bool) {
	m.stops++
	m.out(env.header())
	r := m.r
	must := m.mustReturn
	defer func(s string) { m.dlast = s }(m.dlast)
	m.dlast = ""
	m.mustReturn = false
	for {
		k := r.Intn(100)
		if len(m.steps) > 70 {
			k = 0
		}
		if must && (k < 30 || k >= 50 && k < 84) {
			k = 40 // nothing that can stop again before the :r
		}
		switch {
		case k < 30:
			m.in("D> ", ":c")
			m.up, m.step, m.inDbg = nil, false, false
			return nil, false
		case k < 50:
			e := m.debugExpr(env)
			if must {
				e = int64(r.Intn(9))
			}
			if r.Intn(8) == 0 {
				m.in("D> ", ":r (list 1")
				m.inDbg = false
				m.out("\x03Error in evaluation: ")
				m.out("*")
				continue
			}
			m.in("D> ", ":r "+dShow(e))
			v, err := m.typed(e, env)
			if err != nil {
				m.out("\x03Error in evaluation: ")
				m.out("*")
				continue
			}
			if v == nil {
				v = Nil
			}
			m.up, m.step = nil, false
			m.returns++
			return v, true
		case k < 62:
			m.in("D> ", ":s")
			m.step = true
			return nil, false
		case k < 68 && m.up == nil && !m.onErr:
			m.in("D> ", ":u")
			m.up = env
			return nil, false
		case k < 84:
			e := m.debugExpr(env)
			m.in("D> ", dShow(e))
			v, err := m.typed(e, env)
			if err != nil {
				m.out("\x03Error in evaluation: ")
				m.out("*")
				continue
			}
			m.out("==> " + dShow(v))
		case k < 87:
			m.in("D> ", ":b")
			i := 0
			for e := env; e != nil; e = e.prev {
				m.out(fmt.Sprintf("Frame %d: %s", i, e.header()))
				i++
			}
			m.out("")
		case k < 90:
			n := r.Intn(4)
			m.in("D> ", fmt.Sprint(":f ", n))
			e := env
			for i := 0; i < n && e != nil; i++ {
				e = e.prev
			}
			if e == nil {
				m.out("Invalid frame selected.")
				continue
			}
			m.out(e.header())
			for _, b := range bindings(e) {
				m.out(b)
			}
			m.out("")
		case k < 92:
			m.in("D> ", ":d")
			m.dump(env)
		case k < 94:
			m.in("D> ", ":(")
			for _, n := range m.markedNames() {
				m.out("\x01" + n)
			}
		case k < 97:
			n := "nosuch"
			if len(m.fns) > 0 && r.Intn(6) > 0 {
				n = m.fns[r.Intn(len(m.fns))].name
			}
			on := r.Intn(2) == 0
			m.in("D> ", map[bool]string{true: ":(+ ", false: ":(- "}[on]+n)
			if n == "nosuch" {
				m.out("No such function")
			} else if on {
				m.marked[n] = true
			} else {
				delete(m.marked, n)
			}
		case k < 98:
			m.trace = r.Intn(2) == 0
			m.in("D> ", map[bool]string{true: ":t on", false: ":t off"}[m.trace])
		default:
			m.onErr = r.Intn(2) == 0 && m.up == nil
			m.in("D> ", map[bool]string{true: ":e on", false: ":e off"}[m.onErr])
		}
	}
}

// fault: a built-in rejects its arguments
func (m *dbgModel) fault(env *dEnv) (V, error) {
	if !m.onErr {
		return nil, errD
	}
	m.out("\x03ERROR!  ")
	m.mustReturn = true // what a built-in makes of it otherwise is its own affair
	v, _ := m.stopped(env)
	return v, nil
}

func (m *dbgModel) eval(e V, env *dEnv) (v V, err error) {
	if !m.inDbg {
		env.code = append(env.code, "Eval "+dShow(e))
	}
	if m.trace && !m.inDbg {
		n := env.depth()
		m.out(fmt.Sprintf("%3d: %s> %s", n, strings.Repeat("-", n), dShow(e)))
	}
	done := func(v V) (V, error) {
		if m.trace {
			m.traced++
		}
		if m.trace && !m.inDbg {
			n := env.depth()
			l := fmt.Sprintf("%3d: <%s %s", n, strings.Repeat("-", n), dShow(v))
			if _, ok := v.(dPrim); ok {
				l = "\x03" + l
			}
			m.out(l)
		}
		if !m.inDbg && len(env.code) > 0 {
			env.code = env.code[:len(env.code)-1]
		}
		return v, nil
	}
	if m.step {
		m.step = false
		if v, ok := m.stopped(env); ok {
			return done(v)
		}
	}
	if m.up != nil && env == m.up.prev {
		m.up = nil
		if v, ok := m.stopped(env); ok {
			return done(v)
		}
	}
	switch x := e.(type) {
	case Sym:
		if f := env.find(string(x)); f != nil {
			return done(f.vars[string(x)])
		}
		switch x {
		case "+", "<", "list", "tk", "if", "begin", "let", "let*", "set!", "debug", "error", "quote", "lisp-trace", "dump":
			return done(dPrim(x))
		}
		return done(nil)
	case *Pair:
		f, err := m.eval(x.A, env)
		if err != nil {
			return nil, err
		}
		if f == nil || isNil(f) {
			return nil, errD
		}
		if fn, ok := f.(*dFn); ok && !m.step && m.marked[fn.name] {
			if v, ok := m.stopped(env); ok {
				return done(v)
			}
		}
		as, _ := toProper(x.D)
		v, err := m.apply(f, as, env)
		if err != nil {
			return nil, err
		}
		return done(v)
	}
	return done(e)
}

func (m *dbgModel) all(es []V, env *dEnv) (out []V, err error) {
	for _, e := range es {
		v, err := m.eval(e, env)
		if err != nil {
			return nil, err
		}
		if v == nil {
			v = Nil
		}
		out = append(out, v)
	}
	return
}

func (m *dbgModel) seq(es []V, env *dEnv) (v V, err error) {
	for _, e := range es {
		if v, err = m.eval(e, env); err != nil {
			return nil, err
		}
	}
	return
}

func (m *dbgModel) apply(f V, as []V, env *dEnv) (V, error) {
	switch f := f.(type) {
	case *dFn:
		loc := &dEnv{vars: map[string]V{}, parent: f.env, prev: env}
		if len(as) != len(f.params) {
			return nil, errD
		}
		for i, a := range as { // each is bound as soon as it is evaluated
			v, err := m.eval(a, env)
			if err != nil {
				return nil, err
			}
			loc.vars[f.params[i]] = v
		}
		return m.seq(f.body, loc)
	case dPrim:
		switch f {
		case "quote":
			return as[0], nil
		case "if":
			c, err := m.eval(as[0], env)
			if err != nil {
				return nil, err
			}
			if c != nil && truthy(c) {
				return m.eval(as[1], env)
			}
			return m.eval(as[2], env)
		case "begin":
			return m.seq(as, env)
		case "let", "let*":
			loc := &dEnv{vars: map[string]V{}, parent: env, prev: env}
			ev := env
			if f == "let*" {
				ev = loc
			}
			bs, _ := toProper(as[0])
			for _, b := range bs {
				p, _ := toProper(b)
				v, err := m.eval(p[1], ev)
				if err != nil {
					return nil, err
				}
				loc.vars[string(p[0].(Sym))] = v
			}
			return m.seq(as[1:], loc)
		case "set!":
			v, err := m.eval(as[1], env)
			if err != nil {
				return nil, err
			}
			if h := env.find(string(as[0].(Sym))); h != nil {
				h.vars[string(as[0].(Sym))] = v
			}
			return v, nil
		}
		vs, err := m.all(as, env)
		if err != nil {
			return nil, err
		}
		switch f {
		case "+", "<":
			var ns []int64
			for _, v := range vs {
				n, ok := v.(int64)
				if !ok {
					return m.fault(env)
				}
				ns = append(ns, n)
			}
			if f == "<" {
				return ns[0] < ns[1], nil
			}
			return ns[0] + ns[1], nil
		case "list":
			return list(vs...), nil
		case "tk":
			m.out("T:" + dShow(vs[0]) + " " + dShow(vs[1]))
			return vs[1], nil
		case "lisp-trace":
			m.trace = vs[0].(bool)
			return vs[0], nil
		case "dump":
			m.dump(env)
			return nil, nil
		case "error":
			return m.fault(env)
		case "debug":
			m.out("Debugger")
			if v, ok := m.stopped(env); ok {
				return v, nil
			}
			return nil, nil
		}
	}
	return nil, errD // not a function
}

func (m *dbgModel) gen(d int, vars []string, fns []*dFn) V {
	r := m.r
	if d <= 0 || r.Intn(8) == 0 {
		if len(vars) > 0 && r.Intn(3) > 0 {
			return Sym(vars[r.Intn(len(vars))])
		}
		return int64(r.Intn(20) - 4)
	}
	sub := func() V { return m.gen(d-1, vars, fns) }
	switch k := r.Intn(24); {
	case k < 4:
		return list(Sym("+"), sub(), sub())
	case k < 6:
		return list(Sym("list"), sub(), sub())
	case k < 10:
		m.tk++
		return list(Sym("tk"), int64(m.tk), sub())
	case k < 15 && len(fns) > 0:
		f := fns[r.Intn(len(fns))]
		out := []V{Sym(f.name)}
		n := len(f.params)
		if m.faults && r.Intn(25) == 0 {
			n++
		}
		for i := 0; i < n; i++ {
			out = append(out, sub())
		}
		return list(out...)
	case k < 17:
		return list(Sym("if"), []V{true, false, list(Sym("<"), int64(r.Intn(9)), int64(r.Intn(9))), sub()}[r.Intn(4)], sub(), sub())
	case k < 18:
		return list(Sym("begin"), sub(), sub())
	case k < 21:
		var bs []V
		in := append([]string{}, vars...)
		for i := 1 + r.Intn(2); i > 0; i-- {
			n := []string{"x", "y", "z"}[r.Intn(3)]
			if i == 1 && len(bs) > 0 && bs[0].(*Pair).A == Sym(n) {
				continue
			}
			bs = append(bs, list(Sym(n), sub()))
			in = append(in, n)
		}
		return list(Sym([]string{"let", "let*"}[r.Intn(2)]), list(bs...), m.gen(d-1, in, fns), m.gen(d-1, in, fns))
	case k < 22 && len(vars) > 0:
		return list(Sym("set!"), Sym(vars[r.Intn(len(vars))]), sub())
	case k < 23:
		if r.Intn(6) == 0 {
			return list(Sym("dump"))
		}
		return list(Sym("debug"))
	}
	if m.faults {
		return []V{list(Sym("+"), int64(1), list(Sym("quote"), Sym("a"))), list(Sym("undefd"), sub()), list(Sym("error"), Str("m")), list(int64(3), int64(4))}[r.Intn(4)]
	}
	return list(Sym("tk"), int64(0), sub())
}

// line: one line at the REPL's prompt
func (m *dbgModel) line(e V) {
	m.top.code, m.step, m.up = nil, false, nil
	m.in("> ", dShow(e))
	v, err := m.eval(e, m.top)
	if err != nil {
		m.out("\x03Error in evaluation: ")
		m.out("*")
		if m.onErr {
			m.stopped(m.top)
		}
		return
	}
	m.out("==> " + dShow(v))
}

func (m *dbgModel) session() {
	r := m.r
	m.top = &dEnv{vars: map[string]V{}}
	m.marked = map[string]bool{}
	m.faults = r.Intn(3) > 0
	for len(m.steps) < 30+r.Intn(40) {
		switch k := r.Intn(20); {
		case k < 4 || len(m.fns) == 0:
			f := &dFn{name: fmt.Sprintf("f%d", len(m.fns)), env: m.top}
			if len(m.fns) > 2 && r.Intn(2) == 0 { // defined again
				f.name = m.fns[len(m.fns)-1].name
			}
			f.params = []string{"x", "y", "z"}[:r.Intn(4)]
			callees := []*dFn{}
			for _, g := range m.fns {
				if g.name < f.name {
					callees = append(callees, g)
				}
			}
			for i := 1 + r.Intn(2); i > 0; i-- {
				f.body = append(f.body, m.gen(3, append(append([]string{}, f.params...), m.globals...), callees))
			}
			var ps []V
			for _, p := range f.params {
				ps = append(ps, Sym(p))
			}
			m.in("> ", dShow(listTail([]V{Sym("define"), listTail([]V{Sym(f.name)}, list(ps...))}, list(f.body...))))
			m.out("==> <function: " + f.name + ">")
			m.top.vars[f.name] = f
			if n := len(m.fns); n > 0 && m.fns[n-1].name == f.name {
				m.fns[n-1] = f
			} else {
				m.fns = append(m.fns, f)
			}
		case k < 6:
			n := fmt.Sprintf("g%d", r.Intn(4))
			v := int64(r.Intn(100))
			if m.top.vars[n] == nil {
				m.globals = append(m.globals, n)
			}
			m.in("> ", fmt.Sprintf("(define %s %d)", n, v))
			m.out("==> " + fmt.Sprint(v))
			m.top.vars[n] = v
		case k < 10:
			f := m.fns[r.Intn(len(m.fns))]
			on := r.Intn(3) > 0
			if on {
				m.marked[f.name] = true
			} else {
				delete(m.marked, f.name)
			}
			m.in("> ", map[bool]string{true: "(add-debug-on-entry ", false: "(remove-debug-on-entry "}[on]+f.name+")")
			m.out("\x02" + strings.Join(m.markedNames(), " "))
		case k < 11:
			m.in("> ", "(debug-on-entry)")
			m.out("\x02" + strings.Join(m.markedNames(), " "))
		case k < 12 && m.faults:
			m.onErr = r.Intn(2) == 0
			m.in("> ", fmt.Sprintf("(debug-on-error %s)", show(m.onErr)))
			m.out("==> " + show(m.onErr))
		case k < 13:
			if r.Intn(2) == 0 {
				m.malformed = true
				m.in("> ", []string{"(list 1", ")", "(+ 1 . )", "\"abc", "(1 . 2 3)"}[r.Intn(5)])
				m.malformed = false
				if m.steps[len(m.steps)-1].in == ")" { // read as a symbol without a value
					m.steps = m.steps[:len(m.steps)-1]
					continue
				}
				m.out("\x03Error: ")
				m.out("*")
				continue
			}
			v := genVal(r, 3, valOpts{floats: true, syms: true, bytes: true, quoted: true, dotted: true})
			if bareQuote(v) {
				continue
			}
			t := "(quote " + strings.Replace(show(v), "\n", " ", -1) + ")"
			if strings.ContainsAny(t, "\t\r\x1b") || strings.IndexFunc(t, func(c rune) bool { return c > 126 || c < 32 }) >= 0 || len(t) > 900 {
				continue
			}
			m.in("> ", t)
			for _, l := range strings.Split("==> "+golisp.String(toData(v)), "\n") {
				m.out(l)
			}
			if r.Intn(4) == 0 { // the same line again
				again := m.steps[len(m.steps)-1]
				m.in("> ", t)
				m.steps[len(m.steps)-1].resp = again.resp
			}
		default:
			if r.Intn(8) == 0 {
				m.line(list(Sym("lisp-trace"), true))
			}
			m.line(m.gen(4, m.globals, m.fns))
			for m.trace { // the other lines say nothing of traces
				m.line(list(Sym("lisp-trace"), false))
			}
		}
	}
	m.end()
}

// end: the session ends with (quit), with :q, or with its input
func (m *dbgModel) end() {
	switch m.r.Intn(4) {
	case 0:
		m.in("> ", "(list 1 (debug))")
		m.out("Debugger")
		m.out("Eval (debug)")
		m.in("D> ", ":q")
	case 1:
		m.in("> ", "(+ 1 (quit))")
	case 2:
		m.in("> ", "\x04")
	default:
		m.in("> ", "(quit)")
	}
	m.out("*")
}

func matchResp(want, got []string) string {
	one := func(w, g string) bool {
		switch {
		case strings.HasPrefix(w, "\x02"):
			var names []string
			for _, n := range strings.Fields(strings.Trim(strings.TrimPrefix(g, "==> "), "()")) {
				names = append(names, strings.Trim(n, "\""))
			}
			sort.Strings(names)
			return strings.HasPrefix(g, "==> ") && strings.Join(names, " ") == w[1:]
		case strings.HasPrefix(w, "\x03"):
			return strings.HasPrefix(g, w[1:])
		case strings.HasPrefix(w, "\x01"):
			return w[1:] == g
		}
		return w == g
	}
	// neighbours of the any-order kind are put in order on both sides
	arrange := func(want, got []string, off int) {
		for i := 0; i < len(want); i++ {
			if !strings.HasPrefix(want[i], "\x01") {
				continue
			}
			j := i
			for j < len(want) && strings.HasPrefix(want[j], "\x01") {
				j++
			}
			sort.Strings(want[i:j])
			if i+off >= 0 && j+off <= len(got) {
				sort.Strings(got[i+off : j+off])
			}
			i = j
		}
	}
	gap := -1
	for i, w := range want {
		if w == "*" {
			gap = i
		}
	}
	if gap < 0 {
		if len(want) != len(got) {
			return fmt.Sprintf("%d lines, want %d", len(got), len(want))
		}
		arrange(want, got, 0)
		for i := range want {
			if !one(want[i], got[i]) {
				return fmt.Sprintf("line %q, want %q", got[i], want[i])
			}
		}
		return ""
	}
	rest := want[gap+1:]
	if len(got) < gap+len(rest) {
		return fmt.Sprintf("%d lines, want at least %d", len(got), gap+len(rest))
	}
	arrange(want[:gap], got, 0)
	for i := 0; i < gap; i++ {
		if !one(want[i], got[i]) {
			return fmt.Sprintf("line %q, want %q", got[i], want[i])
		}
	}
	off := len(got) - len(rest)
	arrange(rest, got, off)
	for i := range rest {
		if !one(rest[i], got[off+i]) {
			return fmt.Sprintf("line %q, want %q", got[off+i], rest[i])
		}
	}
	return ""
}

func c39Session(c *Case) {
	m := &dbgModel{c: c, r: c.R}
	m.session()
	var in strings.Builder
	for _, s := range m.steps {
		if s.in == "\x04" {
			break
		}
		in.WriteString(s.in + "\n")
	}
	c.Desc("%s", in.String())
	dir := filepath.Join(scratch(), fmt.Sprintf("repl%d", c.Idx))
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	m0 := m.r.Intn(3)
	var before0 []string
	for i := 0; i < m0; i++ {
		before0 = append(before0, fmt.Sprintf("(earlier %d)", c.R.Intn(1000)))
	}
	if m0 > 0 {
		os.WriteFile(filepath.Join(dir, ".golisp_history"), []byte(strings.Join(before0, "\n")+"\n"), 0o600)
	}
	cmd := exec.Command(self, "repl")
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "TERM=dumb", "INPUTRC=/dev/null", "PATH=" + os.Getenv("PATH"), "LC_ALL=C"}
	cmd.Stdin = strings.NewReader(in.String())
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		c.Inconclusive("%v", err)
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Fail("hangs:"+c.desc, "the session\n%s\ndoes not end; output so far:\n%s", c.desc, tailOf(out.String()))
		return
	}
	// a line typed after its prompt ends with the line; what follows up to the next prompt answers it
	type got struct {
		prompt string
		resp   []string
	}
	var gs []got
	for _, l := range strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n") {
		p := ""
		for _, q := range []string{"> ", "D> "} {
			if strings.HasPrefix(l, q) {
				p = q
			}
		}
		if p != "" {
			gs = append(gs, got{prompt: p})
		} else if len(gs) > 0 {
			gs[len(gs)-1].resp = append(gs[len(gs)-1].resp, l)
		}
	}
	before := func(i int) string {
		var b strings.Builder
		for j := 0; j <= i && j < len(m.steps); j++ {
			b.WriteString(m.steps[j].prompt + m.steps[j].in + "\n")
		}
		return b.String()
	}
	for i, s := range m.steps {
		if i >= len(gs) {
			c.Fail("ended:"+c.desc, "after\n%s\nthe session has ended (%v): %s %s", before(i-1), err, tailOf(out.String()), tailOf(errb.String()))
			return
		}
		if gs[i].prompt != s.prompt {
			c.Fail("prompt:"+c.desc, "after\n%sthe prompt is %q, want %q", before(i-1), gs[i].prompt, s.prompt)
			return
		}
		full := append([]string{}, gs[i].resp...)
		if bad := matchResp(append([]string{}, s.resp...), gs[i].resp); bad != "" {
			c.Fail("resp:"+c.desc, "after\n%sthere is\n%s\nwant\n%s\n(%s)", before(i), strings.Join(full, "\n"), strings.Join(s.resp, "\n"), bad)
			return
		}
	}
	if err != nil {
		c.Fail("exit:"+c.desc, "the session\n%s\nended with %v", c.desc, err)
		return
	}
	if h, _ := os.ReadFile(filepath.Join(dir, ".golisp_history")); string(h) != strings.Join(append(before0, m.history...), "\n")+"\n" {
		c.Fail("history:"+c.desc, "the session\n%s\nafter the lines %v leaves the history\n%s\nwant\n%s", c.desc, before0, h, strings.Join(m.history, "\n"))
		return
	}
	c.Count("sessions", 1)
	c.Count("lines", len(m.steps))
	c.Count("stops", m.stops)
	c.Count("returned_values", m.returns)
	c.Count("traced", m.traced)
	for _, s := range m.steps {
		if s.prompt == "D> " && strings.HasPrefix(s.in, ":") {
			c.Count("cmd_"+strings.Fields(s.in)[0], 1)
		}
		if len(s.resp) > 0 && strings.HasPrefix(s.resp[0], "\x03Error") {
			c.Count("errors", 1)
		}
	}
	c.Distinct(c.desc)
}

func tailOf(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func init() {
	register(&Check{
		ID: "C39", Setup: setupPrims,
		Need: []string{"sessions", "stops", "returned_values", "errors", "cmd_:c", "cmd_:r", "cmd_:s", "cmd_:u", "cmd_:b", "cmd_:d", "cmd_:f", "cmd_:(", "cmd_:(+", "cmd_:(-", "cmd_:e", "cmd_:t", "traced"},
		Rule: "sessions of 30 to 70 lines with the REPL in a process of its own: definitions, expressions that fail or call functions marked for debugging or stop by themselves, and every debugger command at the prompts that result; a model that evaluates the same lines says at which prompt each line is read and what follows it; distinct by session",
		Phases: []Phase{
			{Name: "sessions", Quick: 1500, Thorough: 200000, Run: c39Session},
		},
		Assumptions: []string{"functions without a name, tracing and debugger commands without their operand are not part of the debugger sessions; error messages are not compared"},
	})
}
