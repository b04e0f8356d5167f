package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C22: environments against a model ---------------------------------------------------------------------

type eVal struct {
	kind string // "int", "data", "unassigned", "macro"
	n    int64
	d    *golisp.Data
	c    string
}

type eEnv struct {
	parent int // -1: Global
	vars   map[string]eVal
	real   *golisp.SymbolTableFrame
	d      *golisp.Data
	fn     *golisp.Data // a function whose scope this is
	depth  int
}

type envWorld struct {
	c    *Case
	envs []*eEnv
	log  []string
	next int64
	tops map[string]int
}

var envBuiltins = []string{"car", "list", "if", "map"}
var envUsers = []string{"n0", "n1", "n2", "n3", "n4"}
var envNames = append(append([]string{}, envUsers...), envBuiltins...)
var envTops = []string{"top0", "top1", "top2"}

var envUserPool = []string{"n0", "n1", "n2", "n3", "n4", "n10", "x", "y?", "go!", "a->b", "a-variable-with-a-rather-long-name-for-an-environment-to-hold", "*star*", "N0", "_", "\u00fcml\u00e4ut", "+x+", "q1", "q2"}
var envTopPool = []string{"top0", "top1", "top2", "anonymous", "a top level environment with a rather long name", "a top level environment with a rather long name too", "Top0", "t\u00f6p"}

// pickNames chooses the names a history is about
func pickNames(r *rand.Rand) {
	envUsers, envTops = nil, nil
	for _, i := range r.Perm(len(envUserPool))[:5+r.Intn(len(envUserPool)-5)*r.Intn(2)] {
		envUsers = append(envUsers, envUserPool[i])
	}
	for _, i := range r.Perm(len(envTopPool))[:3] {
		envTops = append(envTops, envTopPool[i])
	}
	envNames = append(append([]string{}, envUsers...), envBuiltins...)
}

func builtinName(n string) bool { return n == "car" || n == "list" || n == "if" || n == "map" }

func (w *envWorld) fail(what, format string, args ...interface{}) {
	h := strings.Join(w.log, "\n")
	w.c.Fail(what+":"+h, "%s\nhistory:\n%s", fmt.Sprintf(format, args...), h)
}

func (w *envWorld) add(parent int, real *golisp.SymbolTableFrame, vars map[string]eVal) int {
	d := 1
	if parent >= 0 {
		d = w.envs[parent].depth + 1
	}
	w.envs = append(w.envs, &eEnv{parent: parent, vars: vars, real: real, d: golisp.EnvironmentWithValue(real), depth: d})
	return len(w.envs) - 1
}

// holder: the model environment that a name refers to from e, -1 for Global's built-in, -2 for none
func (w *envWorld) holder(e int, n string) int {
	for ; e >= 0; e = w.envs[e].parent {
		if _, ok := w.envs[e].vars[n]; ok {
			return e
		}
	}
	if builtinName(n) {
		return -1
	}
	return -2
}

func (w *envWorld) lookup(e int, n string) (eVal, bool) {
	h := w.holder(e, n)
	if h < 0 {
		return eVal{}, false
	}
	return w.envs[h].vars[n], true
}

func (w *envWorld) fresh() int64 { w.next++; return w.next }

// freshVal: a value to bind, mostly a new integer, and the form that evaluates to it
func (w *envWorld) freshVal() (*golisp.Data, eVal) {
	r := w.c.R
	v := w.fresh()
	if r.Intn(3) > 0 {
		return golisp.IntegerWithValue(v), eVal{kind: "int", n: v}
	}
	var d *golisp.Data
	switch r.Intn(10) {
	case 9: // a function
		d, err := golisp.Eval(dlist(symD("lambda"), dlist(symD("x")), golisp.IntegerWithValue(v)), golisp.Global)
		if err == nil {
			w.c.Count("function_values", 1)
			return d, eVal{kind: "data", d: d, c: canonD(d)}
		}
		return golisp.IntegerWithValue(v), eVal{kind: "int", n: v}
	case 8: // no value at all
		w.c.Count("nil_values", 1)
		return dlist(P("cdr"), quoteD(dlist(golisp.IntegerWithValue(v)))), eVal{kind: "nil"}
	case 0, 1:
		d = golisp.EmptyCons()
	case 2:
		d = golisp.LispFalse
	case 3:
		d = golisp.StringWithValue("")
	case 4:
		d = golisp.StringWithValue(fmt.Sprint("s", v))
	case 5:
		d = golisp.IntegerWithValue(0)
	case 6:
		d = dlist(golisp.IntegerWithValue(v), golisp.EmptyCons())
	default:
		d = golisp.Global.ValueOf(symD("car"))
		return d, eVal{kind: "data", d: d, c: canonD(d)}
	}
	w.c.Count("other_values", 1)
	return quoteD(d), eVal{kind: "data", d: d, c: canonD(d)}
}

// unquoted: the value a form of freshVal evaluates to
func unquoted(form *golisp.Data) *golisp.Data {
	if golisp.PairP(form) {
		if golisp.Car(form) == P("cdr") {
			return nil
		}
		return golisp.Cadr(form)
	}
	return form
}

// evalIn evaluates the form in an environment by one of several ways that must be equivalent
func (w *envWorld) evalIn(e int, form *golisp.Data) (*golisp.Data, error) {
	r := w.c.R
	k := r.Intn(3)
	via := ""
	var d *golisp.Data
	var err error
	run := func() {
		switch k {
		case 0:
			via = "host Eval"
		case 1:
			via = "(eval '... E)"
		default:
			via = fmt.Sprintf("(eval '... E) from E%d", r.Intn(len(w.envs)))
		}
	}
	run()
	w.log = append(w.log, fmt.Sprintf("in E%d by %s: %s", e, via, golisp.String(form)))
	w.c.Desc("%s", strings.Join(w.log, "\n"))
	ev := golisp.Global.ValueOf(symD("eval"))
	switch k {
	case 0:
		d, err = golisp.Eval(form, w.envs[e].real)
	case 1:
		d, err = golisp.Eval(dlist(ev, quoteD(form), w.envs[e].d), golisp.Global)
	default:
		d, err = golisp.Eval(dlist(ev, quoteD(form), w.envs[e].d), w.envs[r.Intn(len(w.envs))].real)
	}
	w.c.Count("events", 1)
	return d, err
}

func (w *envWorld) prim(name string, args ...*golisp.Data) (*golisp.Data, error) {
	form := append([]*golisp.Data{golisp.Global.ValueOf(symD(name))}, args...)
	var t []string
	for _, a := range args {
		if golisp.EnvironmentP(a) {
			for i, e := range w.envs {
				if e.real == golisp.EnvironmentValue(a) {
					t = append(t, fmt.Sprintf("E%d", i))
				}
			}
			if golisp.EnvironmentValue(a) == golisp.Global {
				t = append(t, "GLOBAL")
			}
		} else {
			t = append(t, golisp.String(a))
		}
	}
	w.log = append(w.log, fmt.Sprintf("(%s %s)", name, strings.Join(t, " ")))
	w.c.Desc("%s", strings.Join(w.log, "\n"))
	w.c.Count("events", 1)
	// evaluated anywhere: first-class operations do not depend on where they are called
	at := golisp.Global
	if w.c.R.Intn(2) == 0 {
		at = w.envs[w.c.R.Intn(len(w.envs))].real
	}
	return golisp.Eval(dlist(form...), at)
}

// callable forms must not depend on what the names of built-ins are bound to here
func P(name string) *golisp.Data { return golisp.Global.ValueOf(symD(name)) }

// audit: every environment has exactly the bindings of the model, and a name evaluates in it to what the model says
func (w *envWorld) audit() bool {
	for i, e := range w.envs {
		got := map[string]*golisp.Data{}
		e.real.Mutex.RLock()
		for n, b := range e.real.Bindings {
			got[n] = b.Val
		}
		e.real.Mutex.RUnlock()
		for n, v := range got {
			m, ok := e.vars[n]
			if !ok || !sameEVal(m, v) {
				w.fail("bindings", "E%d binds %s to %s, want %v (bound %v)", i, n, canonD(v), m, ok)
				return false
			}
		}
		if len(got) != len(e.vars) {
			w.fail("bindings", "E%d has %d bindings, want %d", i, len(got), len(e.vars))
			return false
		}
		for _, n := range envNames {
			d, err := golisp.Eval(symD(n), e.real)
			if err != nil {
				w.fail("eval", "evaluating %s in E%d failed: %v", n, i, err)
				return false
			}
			h := w.holder(i, n)
			switch {
			case h >= 0:
				if v := w.envs[h].vars[n]; !sameEVal(v, d) {
					w.fail("eval", "%s in E%d is %s, want %v of E%d", n, i, canonD(d), v, h)
					return false
				}
			case h == -1:
				if d != builtinData[n] {
					w.fail("builtin", "%s in E%d is %s, not the built-in", n, i, canonD(d))
					return false
				}
			default:
				if golisp.NotNilP(d) {
					w.fail("eval", "the unbound %s evaluates in E%d to %s", n, i, canonD(d))
					return false
				}
			}
			w.c.Count("visibility_checks", 1)
		}
	}
	return w.globalIntact()
}

var builtinData = map[string]*golisp.Data{}
var builtinBodies = map[string]string{}
var globalNames int

func (w *envWorld) globalIntact() bool {
	if len(golisp.Global.Bindings) != globalNames {
		w.fail("global", "the global environment has %d bindings, want %d", len(golisp.Global.Bindings), globalNames)
		return false
	}
	for n, d := range builtinData {
		b, ok := golisp.Global.BindingNamed(n)
		if !ok || b.Val != d || !b.Protected {
			w.fail("global", "the global binding of %s changed (present %v)", n, ok)
			return false
		}
	}
	return true
}

func sameEVal(v eVal, d *golisp.Data) bool {
	switch v.kind {
	case "int":
		return golisp.IntegerP(d) && golisp.IntegerValue(d) == v.n
	case "macro":
		return golisp.MacroP(d)
	case "data":
		return canonD(d) == v.c && (!golisp.PairP(v.d) || golisp.NilP(v.d) || d == v.d)
	}
	return golisp.NilP(d)
}

func (w *envWorld) create() bool {
	r := w.c.R
	switch k := r.Intn(6); {
	case k == 0 || len(w.envs) == 0: // by the host
		p := -1
		parent := golisp.Global
		if len(w.envs) > 0 && r.Intn(2) == 0 {
			p = r.Intn(len(w.envs))
			parent = w.envs[p].real
		}
		name := envTops[r.Intn(3)]
		w.log = append(w.log, fmt.Sprintf("E%d = host NewSymbolTableFrameBelow(E%d, %s)", len(w.envs), p, name))
		i := w.add(p, golisp.NewSymbolTableFrameBelow(parent, name), map[string]eVal{})
		if p < 0 {
			w.tops[name] = i
		}
	case k < 3: // make-top-level-environment
		name := envTops[r.Intn(3)]
		var args, names, vals []*golisp.Data
		vars := map[string]eVal{}
		args = append(args, golisp.StringWithValue(name))
		form := r.Intn(3)
		if form > 0 {
			for _, n := range envNames {
				if r.Intn(3) == 0 {
					names = append(names, symD(n))
					vars[n] = eVal{kind: "unassigned"}
					if form == 2 {
						v := w.fresh()
						vars[n] = eVal{kind: "int", n: v}
						vals = append(vals, golisp.IntegerWithValue(v))
					}
				}
			}
			args = append(args, quoteD(dlist(names...)))
			if form == 2 {
				args = append(args, quoteD(dlist(vals...)))
			}
		}
		w.log = append(w.log, fmt.Sprintf("E%d =", len(w.envs)))
		d, err := golisp.Eval(dlist(append([]*golisp.Data{P("make-top-level-environment")}, args...)...), golisp.Global)
		w.log[len(w.log)-1] += fmt.Sprintf(" (make-top-level-environment %v)", golisp.String(dlist(args...)))
		if err != nil || !golisp.EnvironmentP(d) {
			w.fail("make", "make-top-level-environment gave %s, %v", canonD(d), err)
			return false
		}
		w.tops[name] = w.add(-1, golisp.EnvironmentValue(d), vars)
	default: // the scope of a let, or of a call, kept by a function
		p := r.Intn(len(w.envs))
		if w.envs[p].depth > 6 {
			return true
		}
		vars := map[string]eVal{}
		var ns, bs, vs []*golisp.Data
		for _, n := range envUsers {
			if r.Intn(3) == 0 {
				v := w.fresh()
				vars[n] = eVal{kind: "int", n: v}
				ns = append(ns, symD(n))
				vs = append(vs, golisp.IntegerWithValue(v))
				bs = append(bs, dlist(symD(n), golisp.IntegerWithValue(v)))
			}
		}
		inner := dlist(P("lambda"), dlist(symD("form")), dlist(P("eval"), symD("form")))
		var form *golisp.Data
		if k == 3 {
			form = dlist(P([]string{"let", "let*", "letrec"}[r.Intn(3)]), dlist(bs...), inner)
		} else {
			form = dlist(append([]*golisp.Data{dlist(P("lambda"), dlist(ns...), inner)}, vs...)...)
		}
		w.log = append(w.log, fmt.Sprintf("E%d = the scope in", len(w.envs)))
		f, err := w.evalIn(p, form)
		if err != nil || !golisp.FunctionP(f) {
			w.fail("scope", "%s gave %s, %v", golisp.String(form), canonD(f), err)
			return false
		}
		d, err := golisp.Eval(dlist(P("procedure-environment"), quoteD(f)), golisp.Global)
		if err != nil || !golisp.EnvironmentP(d) {
			w.fail("scope", "procedure-environment gave %s, %v", canonD(d), err)
			return false
		}
		i := w.add(p, golisp.EnvironmentValue(d), vars)
		w.envs[i].fn = f
	}
	w.c.Count("environments", 1)
	return w.audit()
}

func c22History(c *Case) {
	r := c.R
	pickNames(r)
	w := &envWorld{c: c, tops: map[string]int{}, next: 1000}
	for i := 0; i < 2+r.Intn(4); i++ {
		if !w.create() {
			return
		}
	}
	for n := 0; n < 10+r.Intn(25); n++ {
		if len(w.envs) < 8 && r.Intn(12) == 0 {
			if !w.create() {
				return
			}
			continue
		}
		if !w.step() {
			return
		}
	}
	c.Count("histories", 1)
	c.Distinct(strings.Join(w.log, "\n"))
	if c.Idx < 3 {
		c.Sample(strings.Join(w.log, "; "))
	}
}

func (w *envWorld) step() bool {
	c, r := w.c, w.c.R
	e := r.Intn(len(w.envs))
	E := w.envs[e]
	n := envNames[r.Intn(len(envNames))]
	if r.Intn(3) > 0 {
		n = envUsers[r.Intn(len(envUsers))]
	}
	sym := symD(n)
	q := quoteD(sym)
	h := w.holder(e, n)
	switch op := r.Intn(24); {
	case op < 3: // define in the environment
		vf, v := w.freshVal()
		form := dlist(P("define"), sym, vf)
		_, err := w.evalIn(e, form)
		if err != nil {
			w.fail("define", "define failed: %v", err)
			return false
		}
		E.vars[n] = v
		c.Count("defines", 1)
	case op < 4:
		vf, v := w.freshVal()
		d, err := w.prim("environment-define", E.d, q, vf)
		_ = d
		if err != nil {
			w.fail("define", "environment-define failed: %v", err)
			return false
		}
		E.vars[n] = v
		c.Count("defines", 1)
	case op < 7: // assignment
		vf, v := w.freshVal()
		_, err := w.evalIn(e, dlist(P("set!"), sym, vf))
		if h < 0 {
			if err == nil {
				w.fail("set", "set! of %s %s succeeded", map[int]string{-1: "the built-in", -2: "the unbound"}[h], n)
				return false
			}
			c.Count("assignments_rejected", 1)
		} else {
			if err != nil {
				w.fail("set", "set! failed: %v", err)
				return false
			}
			w.envs[h].vars[n] = v
			c.Count("assignments", 1)
			if h != e {
				c.Count("assignments_to_outer", 1)
			}
		}
	case op < 9:
		vf, v := w.freshVal()
		_, err := w.prim("environment-assign!", E.d, q, vf)
		switch {
		case h >= 0:
			if err != nil {
				w.fail("assign", "environment-assign! failed: %v", err)
				return false
			}
			w.envs[h].vars[n] = v
			c.Count("assignments", 1)
		case h == -1 && err == nil:
			w.fail("assign", "environment-assign! to the built-in %s succeeded", n)
			return false
		}
	case op < 10: // host API
		vf, v := w.freshVal()
		d := unquoted(vf)
		switch k := r.Intn(3); k {
		case 0:
			w.log = append(w.log, fmt.Sprintf("[go] E%d.BindLocallyTo(%s, %v)", e, n, canonD(d)))
			if _, err := E.real.BindLocallyTo(sym, d); err != nil {
				w.fail("host", "BindLocallyTo failed: %v", err)
				return false
			}
			E.vars[n] = v
		case 1:
			w.log = append(w.log, fmt.Sprintf("[go] E%d.SetTo(%s, %v)", e, n, canonD(d)))
			_, err := E.real.SetTo(sym, d)
			if (err != nil) != (h < 0) {
				w.fail("host", "SetTo of %s: err %v", n, err)
				return false
			}
			if h >= 0 {
				w.envs[h].vars[n] = v
			}
		default:
			w.log = append(w.log, fmt.Sprintf("[go] E%d.BindTo(%s, %v)", e, n, canonD(d)))
			_, err := E.real.BindTo(sym, d)
			if (err != nil) != (h == -1) {
				w.fail("host", "BindTo of %s: err %v", n, err)
				return false
			}
			if h == -2 {
				E.vars[n] = v
			} else if h >= 0 {
				w.envs[h].vars[n] = v
			}
		}
		c.Count("host_operations", 1)
	case op < 11: // a macro
		form := dlist(P("defmacro"), dlist(sym, symD("x")), dlist(symD("quasiquote"), dlist(symD("unquote"), symD("x"))))
		if n == "list" || n == "car" || n == "if" || n == "map" {
			return true
		}
		_, err := w.evalIn(e, form)
		if err != nil {
			w.fail("macro", "defmacro failed: %v", err)
			return false
		}
		E.vars[n] = eVal{kind: "macro"}
		c.Count("macros", 1)
		if r.Intn(3) == 0 { // many at once
			for _, n := range envUsers {
				v := eVal{kind: "macro"}
				form := dlist(P("defmacro"), dlist(symD(n), symD("x")), symD("x"))
				if r.Intn(4) == 0 {
					var vf *golisp.Data
					vf, v = w.freshVal()
					form = dlist(P("define"), symD(n), vf)
				}
				if _, err := w.evalIn(e, form); err != nil {
					w.fail("macro", "%s failed: %v", golisp.String(form), err)
					return false
				}
				E.vars[n] = v
			}
			c.Count("many_macros", 1)
		}
	case op < 13: // inside a nested scope: locals hide, others reach out; the scope itself vanishes
		v, v2 := w.fresh(), w.fresh()
		other := envUsers[r.Intn(len(envUsers))]
		oh := w.holder(e, other)
		if other == n {
			return true
		}
		form := dlist(P("let"), dlist(dlist(sym, golisp.IntegerWithValue(v))), dlist(P("set!"), sym, golisp.IntegerWithValue(v2)), dlist(P("define"), symD("inner"), golisp.IntegerWithValue(v)),
			dlist(P("list"), sym, dlist(P("environment-bound?"), E.d, quoteD(symD("inner")))))
		if oh >= 0 {
			form = dlist(P("let"), dlist(dlist(sym, golisp.IntegerWithValue(v))), dlist(P("set!"), symD(other), golisp.IntegerWithValue(v2)), dlist(P("list"), sym, golisp.LispFalse))
		}
		d, err := w.evalIn(e, form)
		want := list(v2, false)
		if oh >= 0 {
			want = list(v, false)
			w.envs[oh].vars[other] = eVal{kind: "int", n: v2}
		}
		if err != nil || canonD(d) != canon(want) {
			w.fail("nested", "%s gave %s (err %v), want %s", golisp.String(form), canonD(d), err, canon(want))
			return false
		}
		c.Count("nested", 1)
	case op < 14: // through a function that has the environment as its scope: a new scope below it
		if E.fn == nil {
			return true
		}
		vf, v := w.freshVal()
		k := r.Intn(2)
		form := dlist(P([]string{"set!", "define"}[k]), sym, vf)
		w.log = append(w.log, fmt.Sprintf("(fn-of-E%d '%s)", e, golisp.String(form)))
		_, err := golisp.Eval(dlist(E.fn, quoteD(form)), w.envs[r.Intn(len(w.envs))].real)
		if k == 0 {
			if (err != nil) != (h < 0) {
				w.fail("fn", "set! in a function: err %v, holder E%d", err, h)
				return false
			}
			if h >= 0 {
				w.envs[h].vars[n] = v
			}
		} else if err != nil {
			w.fail("fn", "define in a function: err %v", err)
			return false
		}
		c.Count("through_functions", 1)
	case op < 21: // queries
		return w.query(e, n, h)
	case op < 23: // attempts on the built-ins of the global environment
		b := envBuiltins[r.Intn(4)]
		v := golisp.IntegerWithValue(w.fresh())
		gd := golisp.EnvironmentWithValue(golisp.Global)
		bs := symD(b)
		var err error
		k := r.Intn(7)
		switch k {
		case 0:
			_, err = w.prim("environment-define", gd, quoteD(bs), v)
		case 1:
			_, err = w.prim("environment-assign!", gd, quoteD(bs), v)
		case 2:
			w.log = append(w.log, "define "+b+" in GLOBAL")
			_, err = golisp.Eval(dlist(P("define"), bs, v), golisp.Global)
		case 3:
			w.log = append(w.log, "global-eval set! "+b)
			_, err = golisp.Eval(dlist(P("global-eval"), quoteD(dlist(P("set!"), bs, v))), E.real)
		case 4:
			w.log = append(w.log, "[go] Global.BindTo/SetTo/BindLocallyTo "+b)
			if _, err = golisp.Global.BindTo(bs, v); err != nil {
				if _, err = golisp.Global.SetTo(bs, v); err != nil {
					_, err = golisp.Global.BindLocallyTo(bs, v)
				}
			}
		case 5:
			w.log = append(w.log, "defmacro "+b+" in GLOBAL")
			_, err = golisp.Eval(dlist(P("defmacro"), dlist(bs, symD("x")), symD("x")), golisp.Global)
		default:
			w.log = append(w.log, "(define ("+b+" x) x) in GLOBAL")
			_, err = golisp.Eval(dlist(P("define"), dlist(bs, symD("x")), symD("x")), golisp.Global)
		}
		if err == nil {
			w.fail("protected", "attempt %d to change the built-in %s was accepted", k, b)
			return false
		}
		c.Count("protected_attempts", 1)
	default: // environments found by name, parents
		name := envTops[r.Intn(3)]
		if i, ok := w.tops[name]; ok {
			d, err := w.prim("find-top-level-environment", golisp.StringWithValue(name))
			if err != nil || !golisp.EnvironmentP(d) || golisp.EnvironmentValue(d) != w.envs[i].real {
				w.fail("find", "find-top-level-environment %s gave %s (err %v), want E%d", name, golisp.String(d), err, i)
				return false
			}
			c.Count("found_by_name", 1)
		}
		d, err := w.prim("environment-parent", E.d)
		want := golisp.Global
		if E.parent >= 0 {
			want = w.envs[E.parent].real
		}
		// the scope of a function call may have further scopes between it and the environment of the function
		if err != nil || !golisp.EnvironmentP(d) || golisp.EnvironmentValue(d) != want {
			w.fail("parent", "environment-parent of E%d gave %s (err %v), want E%d", e, golisp.String(d), err, E.parent)
			return false
		}
		// every environment but the outermost has a parent
		if d, err := w.prim("environment-has-parent?", E.d); err != nil || canonD(d) != "#t" {
			w.fail("has-parent", "environment-has-parent? of E%d gave %s, %v", e, golisp.String(d), err)
			return false
		}
		top := dlist(P("environment-has-parent?"), golisp.EnvironmentWithValue(golisp.Global))
		if d, err := golisp.Eval(top, E.real); err != nil || canonD(d) != "#f" {
			w.fail("has-parent", "environment-has-parent? of the outermost environment gave %s, %v", golisp.String(d), err)
			return false
		}
		d, err = w.evalIn(e, dlist(P("the-environment")))
		if E.parent < 0 {
			if err != nil || !golisp.EnvironmentP(d) || golisp.EnvironmentValue(d) != E.real {
				w.fail("the-environment", "the-environment in E%d gave %s, %v", e, golisp.String(d), err)
				return false
			}
		} else if err == nil {
			w.fail("the-environment", "the-environment in the nested E%d gave %s, want an error", e, golisp.String(d))
			return false
		}
	}
	return w.audit()
}

func (w *envWorld) query(e int, n string, h int) bool {
	c, r := w.c, w.c.R
	E := w.envs[e]
	q := quoteD(symD(n))
	v, _ := w.lookup(e, n)
	kind := v.kind
	switch h {
	case -1:
		kind = "builtin"
	case -2:
		kind = "unbound"
	}
	c.Count("queries_"+kind, 1)
	isB := func(d *golisp.Data, err error, want bool) bool {
		return err == nil && golisp.BooleanP(d) && golisp.BooleanValue(d) == want
	}
	switch r.Intn(9) {
	case 0, 1:
		for _, p := range []string{"environment-bound?", "environment-assignable?"} {
			d, err := w.prim(p, E.d, q)
			if !isB(d, err, h != -2) {
				w.fail("bound", "%s of %s (%s) in E%d gave %s, %v", p, n, kind, e, canonD(d), err)
				return false
			}
		}
	case 2:
		d, err := w.prim("environment-assigned?", E.d, q)
		ok := false
		switch kind {
		case "unbound", "macro":
			ok = err != nil
		case "unassigned":
			ok = isB(d, err, false)
		case "nil": // bound to nothing at all: not told from having no value
			ok = isB(d, err, false) || isB(d, err, true)
		default:
			ok = isB(d, err, true)
		}
		if !ok {
			w.fail("assigned", "environment-assigned? of %s (%s) in E%d gave %s, %v", n, kind, e, canonD(d), err)
			return false
		}
	case 3:
		d, err := w.prim("environment-lookup", E.d, q)
		ok := false
		switch kind {
		case "unbound", "macro", "unassigned":
			ok = err != nil
		case "nil":
			ok = err != nil || golisp.NilP(d)
		case "builtin":
			ok = err == nil && d == builtinData[n]
		default:
			ok = err == nil && sameEVal(v, d)
		}
		if !ok {
			w.fail("lookup", "environment-lookup of %s (%s) in E%d gave %s, %v; want %v", n, kind, e, canonD(d), err, v)
			return false
		}
	case 4:
		d, err := w.prim("environment-reference-type", E.d, q)
		want := map[string]string{"unbound": "unbound", "macro": "macro", "unassigned": "unassigned", "builtin": "normal", "int": "normal", "data": "normal"}[kind]
		if kind == "nil" && golisp.SymbolP(d) {
			want = golisp.StringValue(d)
			if want != "normal" && want != "unassigned" {
				want = "unassigned"
			}
		}
		if err != nil || !golisp.SymbolP(d) || golisp.StringValue(d) != want {
			w.fail("type", "environment-reference-type of %s in E%d gave %s (err %v), want %s", n, e, canonD(d), err, want)
			return false
		}
	case 5:
		d, err := w.prim("environment-lookup-macro", E.d, q)
		if err != nil || golisp.MacroP(d) != (kind == "macro") || kind != "macro" && !isB(d, err, false) {
			w.fail("macro", "environment-lookup-macro of %s (%s) in E%d gave %s, %v", n, kind, e, canonD(d), err)
			return false
		}
	default:
		list := func(p string) ([]*golisp.Data, bool) {
			d, err := w.prim(p, E.d)
			if err != nil {
				w.fail("list", "%s failed: %v", p, err)
				return nil, false
			}
			var out []*golisp.Data
			for ; golisp.NotNilP(d); d = golisp.Cdr(d) {
				out = append(out, golisp.Car(d))
			}
			return out, true
		}
		names, ok := list("environment-bound-names")
		if !ok {
			return false
		}
		macros, ok := list("environment-macro-names")
		if !ok {
			return false
		}
		bindings, ok := list("environment-bindings")
		if !ok {
			return false
		}
		var gn, wn, gm, wm, gb, wb []string
		for _, d := range names {
			gn = append(gn, golisp.String(d))
		}
		for _, d := range macros {
			gm = append(gm, golisp.String(d))
		}
		for _, d := range bindings {
			s := golisp.String(golisp.Car(d))
			if x := golisp.Cdr(d); golisp.NotNilP(x) {
				s += " "
				if golisp.MacroP(golisp.Car(x)) {
					s += "macro"
				} else {
					s += canonD(golisp.Car(x))
				}
			}
			gb = append(gb, strings.TrimSuffix(s, " ()"))
		}
		for x, v := range E.vars {
			wn = append(wn, x)
			switch v.kind {
			case "macro":
				wm = append(wm, x)
				wb = append(wb, x+" macro")
			case "int":
				wb = append(wb, x+" "+canon(v.n))
			case "data":
				wb = append(wb, strings.TrimSuffix(x+" "+v.c, " ()")) // (name) or (name ())
			default:
				wb = append(wb, x)
			}
		}
		for _, s := range [][]string{gn, wn, gm, wm, gb, wb} {
			sort.Strings(s)
		}
		for i, p := range [][2][]string{{gn, wn}, {gm, wm}, {gb, wb}} {
			if strings.Join(p[0], "|") != strings.Join(p[1], "|") {
				w.fail("list", "%s of E%d: %v, want %v", []string{"environment-bound-names", "environment-macro-names", "environment-bindings"}[i], e, p[0], p[1])
				return false
			}
		}
		c.Count("listings", 1)
	}
	return true
}

func setupEnv() {
	setupPrims()
	for n, b := range golisp.Global.Bindings {
		if b.Protected {
			builtinData[n] = b.Val
		}
	}
	globalNames = len(golisp.Global.Bindings)
}

func init() {
	register(&Check{ID: "C22",
		Rule:        "history: a random sequence of definitions, assignments, macros, queries, scopes and attempts on built-ins over up to eight environments (made by the host, by make-top-level-environment, by let and by calls), through eval, the environment operations and the host API; after every step the bindings of all environments, what every name evaluates to in each, and the global environment are compared with a model. Distinct: the history.",
		Assumptions: []string{"the empty list as a computed value (plain nil) is not told apart from an unassigned name; a literal '() is"},
		Setup:       setupEnv,
		Need:        []string{"histories", "assignments_to_outer", "protected_attempts", "queries_unassigned", "queries_data", "queries_macro", "queries_builtin", "queries_unbound", "nested", "through_functions", "found_by_name", "listings"},
		Phases: []Phase{
			{"history", 96000, 1000000, c22History},
		}})
}
