package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// c03Cells writes a program of nested scopes statement by statement and keeps, at the same time, what every
// variable of every scope instance holds. Values of every kind take part (several of them are how "nothing" looks),
// closures that read and change variables travel between the scopes, and what the program sees is recorded.

type csVal struct {
	canon string // of a datum
	clo   *csClo
}

type csClo struct {
	sc   *csScope
	kind int // 0 reads, 1 changes to its argument, 2 changes to a constant, 3 reads below a binding of another name
	name string
	val  csVal
	text string
}

type csScope struct {
	vars map[string]csVal
	up   *csScope
}

func (s *csScope) find(n string) *csScope {
	for ; s != nil; s = s.up {
		if _, ok := s.vars[n]; ok {
			return s
		}
	}
	return nil
}

func (s *csScope) get(n string) csVal {
	if f := s.find(n); f != nil {
		return f.vars[n]
	}
	return csVal{canon: "()"}
}

var csLits = []string{"0", "1", "-7", "42", "2.5", "#t", "#f", "#f", "\"\"", "\"s\"", "'sym", "'()", "'()", "(cdr '(1))", "(cdr '(1))", "(list 1)", "'(1 2)", "'(())", "[]", "[1 2]", "{a: 1}", "'nil", "nil", "(list)", "(assoc 'k '())", "(make-frame)"}

type csGen struct {
	r     *rand.Rand
	want  []string
	n     int
	sets  int
	depth int
	lits  map[string]string
	count int
}

func (g *csGen) data() string { return fmt.Sprintf("v%d", g.r.Intn(5)) }
func (g *csGen) fn() string   { return fmt.Sprintf("f%d", g.r.Intn(3)) }

var csCanon = map[string]string{}

// value: an expression and what it yields, seen from scope s
func (g *csGen) value(s *csScope) (string, csVal) {
	switch g.r.Intn(8) {
	case 0:
		n := g.data()
		return n, s.get(n)
	case 1:
		if f := g.closure(s); f != "" {
			c := s.get(f).clo
			if c.kind == 0 || c.kind == 3 {
				return "(" + f + ")", c.sc.get(c.name)
			}
		}
	case 2:
		n := g.data()
		return "(let ((zz 1)) " + n + ")", s.get(n)
	}
	t := csLits[g.r.Intn(len(csLits))]
	if g.r.Intn(4) == 0 {
		t = fmt.Sprint(g.r.Intn(1000))
	}
	c, ok := csCanon[t]
	if !ok {
		c = showOutcome(evalText(t, freshEnv()))
		csCanon[t] = c
	}
	return t, csVal{canon: c}
}

func (g *csGen) closure(s *csScope) string {
	var ok []string
	for i := 0; i < 3; i++ {
		if n := fmt.Sprintf("f%d", i); s.get(n).clo != nil {
			ok = append(ok, n)
		}
	}
	if len(ok) == 0 {
		return ""
	}
	return ok[g.r.Intn(len(ok))]
}

func (g *csGen) lambda(s *csScope) (string, csVal) {
	c := &csClo{sc: s, kind: g.r.Intn(4), name: g.data()}
	if (c.kind == 1 || c.kind == 2) && s.find(c.name) == nil {
		c.kind = 0
	}
	switch c.kind {
	case 0:
		c.text = "(lambda () " + c.name + ")"
	case 1:
		c.text = "(lambda (nv) (set! " + c.name + " nv))"
	case 2:
		var t string
		for {
			t, c.val = g.value(&csScope{vars: map[string]csVal{}})
			if !strings.Contains(t, "v") && !strings.HasPrefix(t, "(f") {
				break
			}
		}
		c.text = "(lambda () (set! " + c.name + " " + t + "))"
	case 3:
		other := "v9"
		c.text = "(lambda () (let ((" + other + " 77)) " + c.name + "))"
	}
	return c.text, csVal{clo: c}
}

func (g *csGen) see(s *csScope) string {
	var names, cs []string
	for i, k := 0, 1+g.r.Intn(4); i < k; i++ {
		n := g.data()
		if f := g.fn(); s.find(f) != nil && s.get(f).clo == nil {
			n = f
		}
		names, cs = append(names, n), append(cs, s.get(n).canon)
	}
	g.n++
	g.want = append(g.want, fmt.Sprintf("%d %s", g.n, strings.Join(cs, " ")))
	return fmt.Sprintf("(vh-tick %d %s)", g.n, strings.Join(names, " "))
}

func (g *csGen) body(s *csScope, d int) string {
	var out []string
	for i, k := 0, 1+g.r.Intn(4); i < k; i++ {
		out = append(out, g.stmt(s, d))
	}
	out = append(out, g.see(s))
	return strings.Join(out, " ")
}

// scope: a form that makes a scope with variables; last is what is put at its end
func (g *csGen) scope(s *csScope, d int, last func(*csScope) string) string {
	if d > g.depth {
		g.depth = d
	}
	var names, vals []string
	in := &csScope{vars: map[string]csVal{}, up: s}
	star := g.r.Intn(4) == 0
	for i, k := 0, g.r.Intn(4); i < k; i++ {
		n := g.data()
		if _, dup := in.vars[n]; dup {
			continue
		}
		at := s
		if star {
			at = in
		}
		t, v := g.value(at)
		if star { // each in its own scope or all in one: not told apart
			in = &csScope{vars: map[string]csVal{}, up: in}
		}
		if !star {
			names, vals = append(names, n), append(vals, t)
			in.vars[n] = v
		} else {
			names, vals = append(names, n), append(vals, t)
			in.vars[n] = v
		}
	}
	pairs := ""
	for i, n := range names {
		pairs += "(" + n + " " + vals[i] + ")"
	}
	kind := g.r.Intn(7)
	if star {
		kind = -1
	}
	body := g.body(in, d+1)
	if last != nil {
		body += " " + last(in)
	}
	switch {
	case kind < 0:
		return "(let* (" + pairs + ") " + body + ")"
	case kind == 0:
		return "((lambda (" + strings.Join(names, " ") + ") " + body + ") " + strings.Join(vals, " ") + ")"
	case kind == 1 && last == nil:
		return "(do (" + pairs + "(once #f #t)) (once 0) " + body + ")"
	case kind == 2:
		return "(let once (" + pairs + ") " + body + ")"
	case kind == 3:
		return "(apply (lambda (" + strings.Join(names, " ") + ") " + body + ") (list " + strings.Join(vals, " ") + "))"
	case kind >= 5: // a method: its frame has slots of other names
		slots := []string{"", "other: 3 ", "k: {m: 1} j: (lambda () 5) "}[g.r.Intn(3)]
		fr := "{" + slots + "m: (lambda (" + strings.Join(names, " ") + ") " + body + ")}"
		args := ""
		if len(vals) > 0 {
			args = " " + strings.Join(vals, " ")
		}
		if kind == 5 {
			return "(send " + fr + " m:" + args + ")"
		}
		return "(m:> " + fr + args + ")"
	}
	return "(let (" + pairs + ") " + body + ")"
}

func (g *csGen) stmt(s *csScope, d int) string {
	g.count++
	k := g.r.Intn(12)
	if g.count > 120 {
		k = 9
	}
	switch k {
	case 0, 1: // a variable of this scope
		n := g.data()
		t, v := g.value(s)
		s.vars[n] = v
		return "(define " + n + " " + t + ")"
	case 2, 3, 4: // a change of the nearest variable
		n := g.data()
		if g.r.Intn(8) == 0 { // one that held a function
			n = g.fn()
		}
		f := s.find(n)
		if f == nil {
			return g.see(s)
		}
		t, v := g.value(s)
		f.vars[n] = v
		g.sets++
		form := "(set! " + n + " " + t + ")"
		switch g.r.Intn(8) {
		case 0:
			return "(when #t " + form + ")"
		case 1:
			return "(let ((zz 1) (yy 2)) " + form + ")"
		case 2:
			return "((lambda (zz) " + form + ") 1)"
		case 3:
			return "(cond (#f 1) (else " + form + "))"
		}
		return form
	case 5, 6:
		n := g.fn()
		t, v := g.lambda(s)
		if f := s.find(n); f != nil && g.r.Intn(3) > 0 {
			f.vars[n] = v
			return "(set! " + n + " " + t + ")"
		}
		s.vars[n] = v
		return "(define " + n + " " + t + ")"
	case 7, 8:
		n := g.closure(s)
		if n == "" {
			return g.see(s)
		}
		c := s.get(n).clo
		switch c.kind {
		case 1:
			t, v := g.value(s)
			c.sc.find(c.name).vars[c.name] = v
			g.sets++
			return "(" + n + " " + t + ")"
		case 2:
			c.sc.find(c.name).vars[c.name] = c.val
			g.sets++
			return "(" + n + ")"
		}
		g.n++
		g.want = append(g.want, fmt.Sprintf("%d %s", g.n, c.sc.get(c.name).canon))
		return fmt.Sprintf("(vh-tick %d (%s))", g.n, n)
	case 9:
		return g.see(s)
	default:
		if d > 5 {
			return g.see(s)
		}
		if g.r.Intn(3) == 0 { // a closure leaves its scope as the value of it
			n := g.fn()
			var v csVal
			form := g.scope(s, d, func(in *csScope) string {
				var t string
				t, v = g.lambda(in)
				return t
			})
			if f := s.find(n); f != nil && g.r.Intn(2) == 0 {
				f.vars[n] = v
				return "(set! " + n + " " + form + ")"
			}
			s.vars[n] = v
			return "(define " + n + " " + form + ")"
		}
		return g.scope(s, d, nil)
	}
}

func c03Cells(c *Case) {
	g := &csGen{r: c.R}
	top := &csScope{vars: map[string]csVal{}}
	env := freshEnv()
	for n := c.R.Intn(4); n > 1; n-- {
		env = golisp.NewSymbolTableFrameBelow(env, "vh-inner")
	}
	var forms []string
	for i, k := 0, 6+c.R.Intn(14); i < k; i++ {
		forms = append(forms, g.stmt(top, 0))
	}
	forms = append(forms, g.see(top))
	src := strings.Join(forms, "\n")
	c.Desc("%s", src)
	rec.take()
	for _, f := range forms {
		if _, err := evalText(f, env); err != nil {
			c.Fail("cells-error", "%s fails: %v", f, err)
			return
		}
	}
	got := rec.take()
	c.Count("events", len(got))
	for i := 0; i < len(got) || i < len(g.want); i++ {
		a, b := "nothing", "nothing"
		if i < len(got) {
			a = got[i]
		}
		if i < len(g.want) {
			b = g.want[i]
		}
		if a != b {
			c.Fail("cells-value", "event %d: the program saw %s, its variables hold %s", i, a, b)
			return
		}
	}
	c.Count("cell_programs", 1)
	c.Count("cell_changes", g.sets)
	if g.sets > 0 && g.depth > 0 {
		c.Distinct(src)
	}
}

// c03Nested: many scopes within each other; every variable is seen, and changed, from the innermost one
func c03Nested(c *Case) {
	r := c.R
	depth := 20 + r.Intn(60)
	if r.Intn(4) == 0 {
		depth = 80 + r.Intn(320)
	}
	type cell struct{ val int }
	cells := map[string]*cell{}
	var open, closing []string
	for i := 0; i < depth; i++ {
		n := fmt.Sprintf("n%d", i)
		if r.Intn(3) == 0 { // hides one further out
			n = fmt.Sprintf("n%d", r.Intn(i+1))
		}
		v := r.Intn(1000)
		cells[n] = &cell{v}
		switch r.Intn(7) {
		case 6:
			open, closing = append(open, fmt.Sprintf("(send {m: (lambda (%s) ", n)), append(closing, fmt.Sprintf(")} m: %d)", v))
		case 0:
			open, closing = append(open, fmt.Sprintf("((lambda (%s) ", n)), append(closing, fmt.Sprintf(") %d)", v))
		case 1:
			open, closing = append(open, fmt.Sprintf("(let* ((%s %d)) ", n, v)), append(closing, ")")
		case 2:
			open, closing = append(open, fmt.Sprintf("(letrec ((%s %d)) ", n, v)), append(closing, ")")
		case 3:
			open, closing = append(open, fmt.Sprintf("(let loop ((%s %d)) ", n, v)), append(closing, ")")
		case 4:
			open, closing = append(open, fmt.Sprintf("(do ((%s %d)) (#t ", n, v)), append(closing, "))")
		default:
			open, closing = append(open, fmt.Sprintf("(let ((%s %d)) ", n, v)), append(closing, ")")
		}
	}
	var names []string
	for n := range cells {
		names = append(names, n)
	}
	sort.Strings(names)
	var acts, seen []string
	var want []string
	for i, k := 0, r.Intn(6); i < k; i++ {
		n := names[r.Intn(len(names))]
		cells[n].val = 2000 + i
		acts = append(acts, fmt.Sprintf("(set! %s %d)", n, 2000+i))
	}
	for i := 0; i < 12; i++ {
		n := names[r.Intn(len(names))]
		e := n
		if r.Intn(3) == 0 {
			e = "((lambda () " + n + "))"
		}
		seen, want = append(seen, e), append(want, fmt.Sprint(cells[n].val))
	}
	for i := 0; i < 2; i++ { // global ones
		seen, want = append(seen, "vh-outermost"), append(want, "outermost")
	}
	for i, j := 0, len(closing)-1; i < j; i, j = i+1, j-1 {
		closing[i], closing[j] = closing[j], closing[i]
	}
	src := strings.Join(open, "") + strings.Join(acts, " ") + " (list " + strings.Join(seen, " ") + ")" + strings.Join(closing, "")
	c.Desc("%s", src)
	env := freshEnv()
	if _, err := evalText("(define vh-outermost 'outermost)", env); err != nil {
		c.Fail("nested-setup", "%v", err)
		return
	}
	d, err := evalText(src, env)
	if err != nil {
		c.Fail("nested-error", "scopes nested %d deep fail: %.200v", depth, err)
		return
	}
	if got, w := golisp.String(d), "("+strings.Join(want, " ")+")"; got != w {
		c.Fail("nested-value", "scopes nested %d deep: the innermost one sees %s, the variables hold %s", depth, got, w)
		return
	}
	c.Count("nested", 1)
	c.Distinct(src)
}
