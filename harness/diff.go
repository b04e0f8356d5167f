package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/steelseries/golisp"
)

// diffProgram runs a program in the reference and in the interpreter and compares
// result, success/failure and event trace of every top-level form.
// Returns false if the case was not usable (reference exceeded its limits).
func diffProgram(c *Case, prog []V) bool {
	ok := diffProgram1(c, prog)
	if os.Getenv("VH_MIN") != "" && c.w.replay && len(c.w.res.Violations) > 0 {
		m := minimise(prog, func(p []V) (bad bool) {
			defer func() {
				if recover() != nil {
					bad = false
				}
			}()
			for _, f := range p {
				if !wellFormed(f) {
					return false
				}
			}
			w := newWorker(c.w.check, c.Tier, 1, 0, os.TempDir())
			c2 := &Case{R: c.R, Phase: c.Phase, Idx: 9, w: w}
			diffProgram1(c2, p)
			return len(w.res.Violations) > 0 && !strings.HasPrefix(w.res.Violations[0].Sig, "parse") && !strings.Contains(w.res.Violations[0].Detail, "prim ")
		})
		fmt.Println("MINIMISED:")
		for _, f := range m {
			fmt.Println(show(f))
		}
		c.w.sigs = map[string]bool{}
		diffProgram1(c, m)
	}
	return ok
}

func minimise(prog []V, bad func([]V) bool) []V {
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(prog); i++ {
			p := append(append([]V{}, prog[:i]...), prog[i+1:]...)
			if bad(p) {
				prog, changed = p, true
				i--
			}
		}
		for i := 0; i < len(prog); i++ {
			alts := shrinks(prog[i])
			for k := 0; k < len(alts); {
				p := append([]V{}, prog...)
				p[i] = alts[k]
				if bad(p) {
					prog, changed = p, true
					alts = shrinks(prog[i])
				} else {
					k++
				}
			}
		}
	}
	return prog
}

// shrinks: all ways to make e smaller by one step (replace a subterm by one of its
// children or by 0, or drop a list element)
func shrinks(e V) []V {
	p, ok := e.(*Pair)
	if !ok {
		return nil
	}
	var out []V
	var items []V
	var x V = p
	for {
		q, ok := x.(*Pair)
		if !ok {
			break
		}
		items = append(items, q.A)
		x = q.D
	}
	for _, it := range items {
		if s, ok := it.(Sym); !ok || refForms[s] == nil {
			out = append(out, it)
		}
	}
	out = append(out, int64(0))
	mk := func(it []V) V { return listTail(it, x) }
	for i := range items {
		if i == 0 {
			continue
		}
		out = append(out, mk(append(append([]V{}, items[:i]...), items[i+1:]...)))
	}
	for i := range items {
		for _, alt := range shrinks(items[i]) {
			it := append([]V{}, items...)
			it[i] = alt
			out = append(out, mk(it))
		}
	}
	return out
}

func diffProgram1(c *Case, prog []V) bool {
	in := newRef(20000)
	type step struct {
		out   string
		trace []string
	}
	var want []step
	for _, f := range prog {
		in.Trace = nil
		v, _, failed, over := in.Run(f, in.G)
		if over {
			c.Count("skipped_too_long", 1)
			return false
		}
		s := canon(v)
		if failed {
			s = "ERROR"
		}
		want = append(want, step{s, in.Trace})
	}
	var src []string
	for _, f := range prog {
		src = append(src, show(f))
	}
	text := strings.Join(src, "\n")
	c.Desc("%s", text)
	env := freshEnv()
	rec.take()
	ticks, errs := 0, 0
	for i := range prog {
		d, err := golisp.Parse(src[i])
		if err != nil {
			c.Fail("parse:"+src[i], "program text was rejected by the reader: %v\n%s", err, src[i])
			return true
		}
		r, err := golisp.Eval(d, env)
		got := showOutcome(r, err)
		if got != "ERROR" {
			got = stripErrStrings(got)
		}
		w := stripErrStrings(want[i].out)
		tr := rec.take()
		for k := range tr {
			tr[k] = stripErrStrings(tr[k])
		}
		wt := append([]string{}, want[i].trace...)
		for k := range wt {
			wt[k] = stripErrStrings(wt[k])
		}
		ticks += len(tr)
		if err != nil {
			errs++
		}
		if got != w {
			c.Fail("diff:"+text, "form %d: %s\n value: got %s, want %s (err=%v)\n trace got %v\n trace want %v\nprogram:\n%s", i, src[i], got, w, err, tr, wt, text)
			return true
		}
		if strings.Join(tr, "\n") != strings.Join(wt, "\n") {
			c.Fail("trace:"+text, "form %d: %s\n evaluation trace differs\n got  %v\n want %v\nprogram:\n%s", i, src[i], tr, wt, text)
			return true
		}
	}
	c.Count("programs", 1)
	c.Count("events", ticks)
	c.Count("forms", len(prog))
	c.Count("forms_failing", errs)
	for k, v := range in.Stats {
		c.Count("form:"+k, v)
	}
	if ticks > 0 {
		c.Distinct(text)
	}
	if c.Idx < 3 {
		c.Sample(text)
	}
	return true
}

// the text of error messages is not part of the comparison
func stripErrStrings(s string) string {
	for {
		k := strings.Index(s, "\"")
		if k < 0 {
			return s
		}
		// replace quoted strings that carry error text
		j := k + 1
		for j < len(s) && s[j] != '"' {
			if s[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(s) {
			return s
		}
		lit := s[k : j+1]
		repl := lit
		if strings.Contains(lit, "ERR:") || strings.Contains(lit, "Evaling") || strings.Contains(lit, "undefined") || strings.Contains(lit, "expected") || strings.Contains(lit, "boom") || strings.Contains(lit, "vh-fail") || strings.Contains(lit, "In '") {
			repl = "<errmsg>"
		} else {
			repl = "<" + lit[1:len(lit)-1] + ">"
		}
		s = s[:k] + repl + s[j+1:]
	}
}

func progPhase(name string, quick, thorough int, w map[string]int, forms, depth int) Phase {
	return Phase{Name: name, Quick: quick, Thorough: thorough, Run: func(c *Case) {
		for try := 0; try < 5; try++ {
			g := newGen(c.R, w)
			f := forms/2 + g.n(forms)
			if diffProgram(c, g.Program(f+1, depth)) {
				return
			}
		}
	}}
}

// the initial values of a letrec are evaluated where all its variables are bound: a variable outside with the same name is never seen
func c03Letrec(c *Case) {
	r := c.R
	n := 2 + r.Intn(3)
	var outer, bs, body []string
	vals := make([]string, n) // what each variable holds; "" is not specified
	for i := 0; i < n; i++ {
		outer = append(outer, fmt.Sprintf("(n%d %d)", i, 1000+i))
		init := ""
		switch k := r.Intn(5); {
		case k == 0:
			init, vals[i] = fmt.Sprint(10*i), fmt.Sprint(10*i)
		case k == 1: // a variable of the letrec, perhaps a later one
			j := r.Intn(n)
			init = fmt.Sprintf("n%d", j)
			if j < i {
				vals[i] = vals[j]
			}
		case k == 2: // the same within nested scopes
			j := r.Intn(n)
			init = fmt.Sprintf([]string{"(let ((q 1)) n%d)", "((lambda () n%d))", "(begin n%d)", "(car (list n%d))", "(let* ((q n%d)) q)"}[r.Intn(5)], j)
			if j < i {
				vals[i] = vals[j]
			}
		default: // a function that sees the final values
			j := r.Intn(n)
			init = fmt.Sprintf("(lambda () n%d)", j)
			vals[i] = fmt.Sprintf("call %d", j)
		}
		bs = append(bs, fmt.Sprintf("(n%d %s)", i, init))
	}
	var want []string
	for i := 0; i < n; i++ {
		v := vals[i]
		e := fmt.Sprintf("n%d", i)
		for hops := 0; strings.HasPrefix(v, "call ") && hops < 3; hops++ {
			var j int
			fmt.Sscanf(v, "call %d", &j)
			v, e = vals[j], "("+e+")"
		}
		if strings.HasPrefix(v, "call ") {
			v, e = "\"f\"", "(if (function? "+e+") \"f\" \"no\")"
		}
		want = append(want, v)
		body = append(body, e)
	}
	src := fmt.Sprintf("(let (%s) (letrec (%s) (list %s)))", strings.Join(outer, " "), strings.Join(bs, " "), strings.Join(body, " "))
	if r.Intn(2) == 0 {
		src = fmt.Sprintf("(let (%s) (letrec (%s) (let ((z 0)) (list %s))))", strings.Join(outer, " "), strings.Join(bs, " "), strings.Join(body, " "))
	}
	c.Desc("%s", src)
	d, err := evalText(src, freshEnv())
	if err != nil {
		c.Fail("letrec:"+src, "%s failed: %v", src, err)
		return
	}
	got := golisp.ToArray(d)
	for i, w := range want {
		g := ""
		if i < len(got) {
			g = golisp.String(got[i])
		}
		if w == "" { // a value that is not there yet: anything but what is outside
			if len(g) == 4 && strings.HasPrefix(g, "100") {
				c.Fail("letrec:"+src, "%s gives %s: variable %d has the value of a variable outside", src, golisp.String(d), i)
				return
			}
			continue
		}
		if g != w {
			c.Fail("letrec:"+src, "%s gives %s, element %d should be %s", src, golisp.String(d), i, w)
			return
		}
	}
	c.Count("letrecs", 1)
	c.Distinct(src)
}

func init() {
	register(&Check{
		ID:    "C03",
		Setup: setupPrims,
		Need:  []string{"programs", "events", "cell_programs", "cell_changes", "nested"},
		Rule:  "random programs (nested scopes, shadowed names, captured and mutated variables, recursion, higher-order calls) evaluated form by form in a fresh environment and compared (value, failure, trace of marker events) with an independent reference interpreter; non-trivial: emitted at least one marker event, distinct by program text",
		Phases: []Phase{
			progPhase("scopes", 12000, 150000, map[string]int{"let": 10, "f-counter": 8, "set": 8, "l-set": 3, "s-set": 8, "calllambda": 5, "call": 10, "s-define": 6}, 6, 5),
			{Name: "cells", Quick: 12000, Thorough: 200000, Run: c03Cells},
			{Name: "nested", Quick: 600, Thorough: 8000, Run: c03Nested},
			{Name: "letrec", Quick: 4000, Thorough: 60000, Run: c03Letrec},
			progPhase("deep", 3000, 40000, map[string]int{"let": 12, "f-counter": 6, "set": 6, "call": 8}, 4, 8),
		},
	})
	_ = fmt.Sprint
}

func elems(e V) []V {
	var items []V
	for {
		q, ok := e.(*Pair)
		if !ok {
			return items
		}
		items = append(items, q.A)
		e = q.D
	}
}

// wellFormed: shapes of special forms as the generator makes them (used by the minimiser)
func wellFormed(e V) bool {
	it := elems(e)
	if len(it) == 0 {
		return e != Nil
	}
	isPair := func(x V) bool { _, ok := x.(*Pair); return ok }
	isSym := func(x V) bool { _, ok := x.(Sym); return ok }
	all := func(xs []V) bool {
		for _, x := range xs {
			if !wellFormed(x) {
				return false
			}
		}
		return true
	}
	params := func(x V) bool {
		for _, p := range elems(x) {
			if !isSym(p) {
				return false
			}
		}
		return x == Nil || isPair(x)
	}
	s, _ := it[0].(Sym)
	switch s {
	case "quote", "quasiquote":
		return len(it) == 2
	case "unquote", "unquote-splicing":
		return false
	case "lambda":
		return len(it) >= 3 && params(it[1]) && all(it[2:])
	case "define", "named-lambda":
		if len(it) < 3 {
			return false
		}
		if isPair(it[1]) {
			return params(it[1]) && all(it[2:])
		}
		return s == "define" && len(it) == 3 && isSym(it[1]) && all(it[2:])
	case "defmacro":
		return len(it) == 3 && params(it[1])
	case "set!":
		return len(it) == 3 && isSym(it[1]) && all(it[2:])
	case "let", "let*", "letrec":
		if len(it) < 3 {
			return false
		}
		k := 1
		if isSym(it[1]) {
			k = 2
		}
		if len(it) < k+2 || it[k] != Nil && !isPair(it[k]) {
			return false
		}
		for _, b := range elems(it[k]) {
			x := elems(b)
			if len(x) != 2 || !isSym(x[0]) || !wellFormed(x[1]) {
				return false
			}
		}
		return all(it[k+1:])
	case "do":
		if len(it) < 3 || !isPair(it[1]) || len(elems(it[2])) < 2 {
			return false
		}
		for _, b := range elems(it[1]) {
			x := elems(b)
			if len(x) < 2 || len(x) > 3 || !isSym(x[0]) || !all(x[1:]) {
				return false
			}
		}
		return all(elems(it[2])) && all(it[3:])
	case "cond", "case":
		if len(it) < 2 {
			return false
		}
		k := 1
		if s == "case" {
			k = 2
		}
		for _, cl := range it[k:] {
			x := elems(cl)
			if len(x) < 2 || !all(x[1:]) || s == "case" && x[0] != Sym("else") && !isPair(x[0]) || s == "cond" && !wellFormed(x[0]) {
				return false
			}
		}
		return true
	case "if":
		return len(it) == 4 && all(it[1:])
	case "->", "=>", "begin", "when", "unless":
		return len(it) >= 3 && all(it[1:])
	case "on-error":
		return len(it) >= 3 && all(it[1:])
	}
	return all(it)
}
