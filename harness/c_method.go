package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C20: methods, against a model of receivers, scopes and super calls -------------------------------------
//
// Everything a program computes is an integer, so that any expression fits anywhere. Names v0..v3 are used for
// slots, parameters, locals and globals alike; m0..m3 for methods and global functions alike; peer for a slot
// and a global that hold a frame. Programs are s-expressions, evaluated by this file's model and, as text, by
// the interpreter.

type mFrame struct {
	id    int
	slots map[string]V // int64, *mFrame or *mFunc; keys with their colon
}

type mFunc struct {
	name   string
	params []string
	rest   string // the parameter that takes the remaining arguments; only their number is used
	body   []V
	env    *mScope
}

type mScope struct {
	vars   map[string]V
	parent *mScope
	frame  *mFrame
	method *mFunc
}

type mErr struct{ s string }
type mOver struct{}

type methodModel struct {
	trace  []string
	fuel   int
	supers int
	sends  int
	depth  int
	deep   int
}

func (f *mFrame) parents() (out []*mFrame) {
	var ks []string
	for k := range f.slots {
		if isParentSlot(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if p, ok := f.slots[k].(*mFrame); ok {
			out = append(out, p)
		}
	}
	return
}

func (f *mFrame) find(k string) (V, bool) {
	if v, ok := f.slots[k]; ok {
		return v, true
	}
	for _, p := range f.parents() {
		if v, ok := p.find(k); ok {
			return v, true
		}
	}
	return nil, false
}

func (f *mFrame) holder(fn *mFunc) *mFrame {
	for _, v := range f.slots {
		if v == V(fn) {
			return f
		}
	}
	for _, p := range f.parents() {
		if h := p.holder(fn); h != nil {
			return h
		}
	}
	return nil
}

func (s *mScope) local(n string) *mScope {
	for e := s; e != nil && e.frame == s.frame; e = e.parent {
		if _, ok := e.vars[n]; ok {
			return e
		}
	}
	return nil
}

func (s *mScope) lexical(n string) *mScope {
	for e := s; e != nil; e = e.parent {
		if _, ok := e.vars[n]; ok {
			return e
		}
	}
	return nil
}

func (m *methodModel) name(n string, s *mScope, needFunc bool) (V, bool) {
	if e := s.local(n); e != nil {
		return e.vars[n], false
	}
	if s.frame != nil {
		if v, ok := s.frame.find(n + ":"); ok {
			if _, isF := v.(*mFunc); isF {
				return v, true
			}
			if !needFunc {
				return v, false
			}
		}
	}
	if e := s.lexical(n); e != nil {
		return e.vars[n], false
	}
	return Nil, false
}

func (m *methodModel) call(f *mFunc, args []V, fr *mFrame) V {
	if m.depth++; m.depth > m.deep {
		m.deep = m.depth
	}
	defer func() { m.depth-- }()
	if len(args) != len(f.params) && (f.rest == "" || len(args) < len(f.params)) {
		panic(mErr{"arity"})
	}
	s := &mScope{vars: map[string]V{}, parent: f.env, frame: f.env.frame}
	if fr != nil {
		s.frame, s.method = fr, f
		s.vars["self"] = fr
	}
	for i, p := range f.params {
		s.vars[p] = args[i]
	}
	if f.rest != "" {
		s.vars[f.rest] = int64(len(args) - len(f.params))
	}
	return m.body(f.body, s)
}

func (m *methodModel) body(b []V, s *mScope) (v V) {
	v = Nil
	for _, e := range b {
		v = m.eval(e, s)
	}
	return
}

func (m *methodModel) frameOf(e V, s *mScope) *mFrame {
	f, ok := m.eval(e, s).(*mFrame)
	if !ok {
		panic(mErr{"not a frame"})
	}
	return f
}

func (m *methodModel) super(k string, s *mScope) *mFunc {
	if s.frame == nil {
		panic(mErr{"super outside a method"})
	}
	start := s.frame
	for e := s; e != nil && e.frame == s.frame; e = e.parent {
		if e.method == nil {
			continue
		}
		if h := s.frame.holder(e.method); h != nil {
			start = h
			break
		}
	}
	for _, p := range start.parents() {
		if v, ok := p.find(k); ok {
			if f, ok := v.(*mFunc); ok {
				m.supers++
				return f
			}
			break
		}
	}
	panic(mErr{"no method in the parents"})
}

func (m *methodModel) method(f *mFrame, k string) *mFunc {
	v, ok := f.find(k)
	if !ok {
		panic(mErr{"no slot"})
	}
	fn, ok := v.(*mFunc)
	if !ok {
		panic(mErr{"no method"})
	}
	m.sends++
	return fn
}

func (m *methodModel) eval(e V, s *mScope) V {
	if m.fuel--; m.fuel < 0 {
		panic(mOver{})
	}
	switch x := e.(type) {
	case int64, bool:
		return x
	case Sym:
		v, _ := m.name(string(x), s, false)
		return v
	}
	el := elems(e)
	if head, ok := el[0].(*Pair); ok { // ((lambda ...) args)
		f := m.eval(head, s).(*mFunc)
		return m.call(f, m.args(el[1:], s), nil)
	}
	op := string(el[0].(Sym))
	switch op {
	case "vh-tick":
		v := m.eval(el[2], s)
		m.trace = append(m.trace, canon(elems(el[1])[1])+" "+mShow(v))
		return v
	case "+":
		a, ok1 := m.eval(el[1], s).(int64)
		b, ok2 := m.eval(el[2], s).(int64)
		if !ok1 || !ok2 {
			panic(mErr{"+"})
		}
		return (a + b)
	case "modulo":
		a, ok1 := m.eval(el[1], s).(int64)
		if !ok1 {
			panic(mErr{"modulo"})
		}
		k := el[2].(int64)
		return ((a % k) + k) % k
	case "if":
		if truthy(m.eval(el[1], s)) {
			return m.eval(el[2], s)
		}
		return m.eval(el[3], s)
	case "<":
		return m.eval(el[1], s).(int64) < m.eval(el[2], s).(int64)
	case "length": // of the remaining arguments
		v, _ := m.name(string(el[1].(Sym)), s, false)
		return v
	case "vh-who":
		v := m.eval(el[1], s)
		m.trace = append(m.trace, "who "+mShow(v))
		return v
	case "begin":
		return m.body(el[1:], s)
	case "let":
		n := &mScope{vars: map[string]V{}, parent: s, frame: s.frame}
		for _, b := range elems(el[1]) {
			p := elems(b)
			n.vars[string(p[0].(Sym))] = m.eval(p[1], s)
		}
		return m.body(el[2:], n)
	case "do": // (do ((i 0 (+ i 1))) ((== i n) result) body)
		b := elems(elems(el[1])[0])
		n := &mScope{vars: map[string]V{string(b[0].(Sym)): int64(0)}, parent: s, frame: s.frame}
		t := elems(el[2])
		lim := elems(t[0])[2].(int64)
		for i := int64(0); ; i++ {
			n.vars[string(b[0].(Sym))] = i
			if i >= lim {
				return m.eval(t[1], n)
			}
			m.body(el[3:], n)
		}
	case "lambda":
		f := &mFunc{name: "unnamed", env: s, body: el[2:]}
		for _, p := range elems(el[1]) {
			f.params = append(f.params, string(p.(Sym)))
		}
		for t := el[1]; ; {
			pr, ok := t.(*Pair)
			if !ok {
				if n, ok := t.(Sym); ok {
					f.rest = string(n)
				}
				break
			}
			t = pr.D
		}
		return f
	case "for-each", "sum-map":
		panic("not used")
	case "apply": // (apply + (map (lambda (p) body) (list a b)))
		mp := elems(el[2])
		f := m.eval(mp[1], s).(*mFunc)
		sum := int64(0)
		vals := m.args(elems(mp[2])[1:], s)
		for _, v := range vals {
			r, ok := m.call(f, []V{v}, nil).(int64)
			if !ok {
				panic(mErr{"+"})
			}
			sum += r
		}
		return sum
	case "set!":
		v := m.eval(el[2], s)
		n := string(el[1].(Sym))
		if x := s.local(n); x != nil {
			x.vars[n] = v
			return v
		}
		if s.frame != nil {
			if _, ok := s.frame.find(n + ":"); ok {
				s.frame.slots[n+":"] = v
				return v
			}
		}
		if x := s.lexical(n); x != nil {
			x.vars[n] = v
			return v
		}
		panic(mErr{"set! of an unbound name"})
	case "get-slot":
		f := m.frameOf(el[1], s)
		v, ok := f.find(string(el[2].(Sym)))
		if !ok {
			panic(mErr{"no slot"})
		}
		return v
	case "set-slot!":
		f := m.frameOf(el[1], s)
		v := m.eval(el[3], s)
		f.slots[string(el[2].(Sym))] = v
		return v
	case "has-slot?":
		_, ok := m.frameOf(el[1], s).find(string(el[2].(Sym)))
		return ok
	case "send":
		f := m.frameOf(el[1], s)
		args := m.args(el[3:], s)
		return m.call(m.method(f, string(el[2].(Sym))), args, f)
	case "apply-slot":
		f := m.frameOf(el[1], s)
		fn := m.method(f, string(el[2].(Sym)))
		args := m.args(el[3:len(el)-1], s)
		return m.call(fn, append(args, m.args(elems(el[len(el)-1])[1:], s)...), f)
	case "send-super":
		args := m.args(el[2:], s)
		return m.call(m.super(string(el[1].(Sym)), s), args, s.frame)
	case "apply-slot-super":
		fn := m.super(string(el[1].(Sym)), s)
		args := m.args(el[2:len(el)-1], s)
		return m.call(fn, append(args, m.args(elems(el[len(el)-1])[1:], s)...), s.frame)
	}
	switch {
	case strings.HasSuffix(op, ":>"):
		f := m.frameOf(el[1], s)
		args := m.args(el[2:], s)
		return m.call(m.method(f, strings.TrimSuffix(op, ">")), args, f)
	case strings.HasSuffix(op, ":^"):
		args := m.args(el[1:], s)
		return m.call(m.super(strings.TrimSuffix(op, "^"), s), args, s.frame)
	case strings.HasSuffix(op, ":!"):
		return m.eval(list(Sym("set-slot!"), el[1], Sym(strings.TrimSuffix(op, "!")), el[2]), s)
	case strings.HasSuffix(op, ":?"):
		return m.eval(list(Sym("has-slot?"), el[1], Sym(strings.TrimSuffix(op, "?"))), s)
	case strings.HasSuffix(op, ":"):
		return m.eval(list(Sym("get-slot"), el[1], Sym(op)), s)
	}
	v, inSlot := m.name(op, s, true)
	f, ok := v.(*mFunc)
	if !ok {
		panic(mErr{"not a function"})
	}
	args := m.args(el[1:], s)
	if inSlot {
		return m.call(f, args, s.frame)
	}
	return m.call(f, args, nil)
}

func (m *methodModel) args(es []V, s *mScope) (out []V) {
	for _, e := range es {
		out = append(out, m.eval(e, s))
	}
	return
}

func mShow(v V) string {
	switch x := v.(type) {
	case *mFrame:
		return fmt.Sprintf("F%d", x.id)
	case *mFunc:
		return "function"
	}
	return canon(v)
}

// ---- generating programs ----

type methodGen struct {
	c         *Case
	frames    int
	arity     [4]int
	rest      [4]bool
	hArity    [2]int
	hRest     [2]bool
	tick      int
	closures  int
	hasParent bool // of the frame a method is being made for
}

func (g *methodGen) vname() string { return fmt.Sprintf("v%d", g.c.R.Intn(4)) }

func (g *methodGen) frameE(inMethod bool, depth int) V {
	r := g.c.R
	switch r.Intn(7) {
	case 0, 1:
		if inMethod {
			return Sym("self")
		}
	case 2:
		return Sym("peer")
	case 3:
		if depth > 0 {
			return list(Sym("peer:"), g.frameE(inMethod, depth-1))
		}
	}
	return Sym(fmt.Sprintf("F%d", r.Intn(g.frames)))
}

func (g *methodGen) args(n, level int, in bool, depth int) (out []V) {
	for i := 0; i < n; i++ {
		out = append(out, g.expr(level, in, depth-1))
	}
	return
}

// margs: arguments for a method k
func (g *methodGen) margs(k, level int, in bool, depth int) []V {
	n := g.arity[k]
	if g.rest[k] {
		n += g.c.R.Intn(4)
		if g.c.R.Intn(12) == 0 { // many
			out := g.args(n, level, in, depth)
			for k := 5 + g.c.R.Intn(15); k > 0; k-- {
				out = append(out, int64(k))
			}
			return out
		}
	}
	return g.args(n, level, in, depth)
}

func mcall(head string, rest ...V) V { return list(append([]V{Sym(head)}, rest...)...) }

// expr: an integer expression that may send messages to methods below the level; own is the method it is in
func (g *methodGen) expr(level int, in bool, depth int) V {
	r := g.c.R
	if depth <= 0 {
		if r.Intn(3) == 0 {
			return int64(r.Intn(50))
		}
		return Sym(g.vname())
	}
	d := depth - 1
	k := 0
	if level > 0 {
		k = r.Intn(level)
	}
	m := fmt.Sprintf("m%d", k)
	switch c := r.Intn(22); {
	case c < 3:
		return Sym(g.vname())
	case c < 4:
		return mcall("+", g.expr(level, in, d), g.expr(level, in, d))
	case c < 6:
		g.tick++
		return mcall("vh-tick", list(Sym("quote"), Sym(fmt.Sprintf("t%d", g.tick))), g.expr(level, in, d))
	case c < 7:
		n, f := g.vname()+":", g.frameE(in, 1)
		if r.Intn(20) == 0 {
			return mcall(n, f)
		}
		return mcall("if", mcall(n+"?", f), mcall(n, f), int64(r.Intn(9)))
	case c < 8:
		return mcall("if", mcall("<", g.expr(0, in, 0), g.expr(0, in, 0)), g.expr(level, in, d), g.expr(level, in, d))
	case c < 9:
		if r.Intn(2) == 0 { // which frame is it?
			return mcall("begin", mcall("vh-who", g.frameE(in, 0)), g.expr(level, in, d))
		}
		return mcall("if", mcall(g.vname()+":?", g.frameE(in, 0)), g.expr(level, in, d), int64(r.Intn(9)))
	case c < 11:
		return mcall("let", append([]V{list(list(Sym(g.vname()), g.expr(level, in, d)))}, g.stmts(level, in, d)...)...)
	case c < 12:
		return mcall("do", list(list(Sym("i"), int64(0), mcall("+", Sym("i"), int64(1)))), list(mcall("==", Sym("i"), int64(1+r.Intn(2))), g.expr(level, in, d)), g.expr(level, in, d))
	case c < 13:
		return listTail([]V{listTail([]V{Sym("lambda"), list(Sym(g.vname()))}, list(g.stmts(level, in, d)...)), g.expr(level, in, d)}, Nil)
	case c < 14:
		return mcall("apply", Sym("+"), mcall("map", listTail([]V{Sym("lambda"), list(Sym(g.vname()))}, list(g.stmts(level, in, d)...)), mcall("list", g.expr(level, in, d), g.expr(level, in, d))))
	case c < 15:
		return mcall("k"+fmt.Sprint(r.Intn(2)), g.expr(level, in, d))
	case c < 16:
		h := r.Intn(2)
		n := g.hArity[h]
		if g.hRest[h] {
			n += r.Intn(4)
		}
		return mcall("h"+fmt.Sprint(h), g.args(n, level, in, d)...)
	case level == 0:
		return Sym(g.vname())
	case c < 18: // by name: a slot function of self, or else a global function
		return mcall(m, g.margs(k, level, in, d)...)
	case c < 20:
		f := g.frameE(in, 1)
		a := g.margs(k, level, in, d)
		switch r.Intn(4) {
		case 0:
			return mcall(m+":>", append([]V{f}, a...)...)
		case 1:
			return mcall("apply-slot", f, Sym(m+":"), mcall("list", a...))
		case 2:
			if len(a) > 0 {
				return mcall("apply-slot", append(append([]V{f, Sym(m + ":")}, a[:1]...), mcall("list", a[1:]...))...)
			}
		}
		return mcall("send", append([]V{f, Sym(m + ":")}, a...)...)
	default:
		if !in || !g.hasParent && r.Intn(20) > 0 {
			return g.expr(level, in, d)
		}
		return g.superCall(k, level, d)
	}
}

func (g *methodGen) superCall(k, level, d int) V {
	m := fmt.Sprintf("m%d", k)
	a := g.margs(k, level, true, d)
	switch g.c.R.Intn(3) {
	case 0:
		return mcall(m+":^", a...)
	case 1:
		return mcall("apply-slot-super", Sym(m+":"), mcall("list", a...))
	}
	return mcall("send-super", append([]V{Sym(m + ":")}, a...)...)
}

func (g *methodGen) stmts(level int, in bool, depth int) (out []V) {
	r := g.c.R
	for i := 0; i < r.Intn(3); i++ {
		switch r.Intn(5) {
		case 0, 1:
			out = append(out, mcall("set!", Sym(g.vname()), g.expr(level, in, depth-1)))
		case 2:
			out = append(out, mcall(g.vname()+":!", g.frameE(in, 1), g.expr(level, in, depth-1)))
		case 3:
			if g.closures > 0 { // a closure that outlives the call
				g.closures--
				out = append(out, mcall("set!", Sym("k"+fmt.Sprint(r.Intn(2))), listTail([]V{Sym("lambda"), list(Sym(g.vname()))}, list(g.expr(0, in, 2)))))
			}
		default:
			out = append(out, g.expr(level, in, depth-1))
		}
	}
	return append(out, g.expr(level, in, depth))
}

func (g *methodGen) lambda(k int) V {
	r := g.c.R
	var ps []V
	for _, i := range r.Perm(4)[:g.arity[k]] {
		ps = append(ps, Sym(fmt.Sprintf("v%d", i)))
	}
	b := g.stmts(k, true, 3)
	if (g.hasParent || r.Intn(20) == 0) && r.Intn(2) == 0 { // the parents' version of the same method
		b = append([]V{g.superCall(k, k, 2)}, b...)
		if r.Intn(2) == 0 {
			b[0] = mcall("vh-tick", list(Sym("quote"), Sym("super")), b[0])
		}
		if r.Intn(3) == 0 {
			b[0] = mcall("if", mcall("<", g.expr(0, true, 0), int64(25)), b[0], int64(0))
		}
	}
	var tail V = Nil
	if g.rest[k] && len(ps) > 0 {
		tail = Sym("more")
		b = append([]V{mcall("vh-tick", list(Sym("quote"), Sym("rest")), mcall("length", Sym("more")))}, b...)
	}
	return listTail([]V{Sym("lambda"), listTail(ps, tail)}, list(b...))
}

func c20Program(c *Case) {
	r := c.R
	g := &methodGen{c: c, frames: 2 + r.Intn(4), closures: 3}
	for i := range g.arity {
		g.arity[i] = r.Intn(3)
		g.rest[i] = g.arity[i] > 0 && r.Intn(4) == 0
	}
	for i := range g.hArity {
		g.hArity[i], g.hRest[i] = 1, r.Intn(3) == 0
		if g.hRest[i] {
			g.hArity[i] = r.Intn(2)
		}
	}
	model := &methodModel{}
	top := &mScope{vars: map[string]V{}}
	var frames []*mFrame
	var text []string
	env := freshEnv()
	run := func(s string) (*golisp.Data, error) {
		text = append(text, s)
		c.Desc("%s", strings.Join(text, "\n"))
		return evalText(s, env)
	}
	must := func(s string) {
		if _, err := run(s); err != nil {
			c.Fail("setup:"+strings.Join(text, "\n"), "%s failed: %v", s, err)
		}
	}
	real := map[*golisp.FrameMap]int{}
	whoIs = real
	// globals, some of which have the names of methods
	for i := 0; i < 4; i++ {
		top.vars[fmt.Sprintf("v%d", i)] = int64(100 + i)
		must(fmt.Sprintf("(define v%d %d)", i, 100+i))
	}
	defun := func(n string, level int, params []V, rest bool) {
		body := g.stmts(level, false, 2)
		f := &mFunc{name: n, env: top}
		var tail V = Nil
		if rest {
			f.rest, tail = "more", Sym("more")
			body = append([]V{mcall("vh-tick", list(Sym("quote"), Sym("rest")), mcall("length", Sym("more")))}, body...)
		}
		f.body = body
		must(show(listTail([]V{Sym("define"), listTail(append([]V{Sym(n)}, params...), tail)}, list(body...))))
		for _, p := range params {
			f.params = append(f.params, string(p.(Sym)))
		}
		top.vars[n] = f
	}
	for i := 0; i < 2; i++ {
		defun(fmt.Sprintf("k%d", i), 0, []V{Sym(g.vname())}, false) // replaced by closures at run time
	}
	for i := 0; i < 2; i++ { // these read names only, and are also stored in slots
		n, p := fmt.Sprintf("h%d", i), g.vname()
		b := mcall("+", Sym(g.vname()), mcall("+", Sym(g.vname()), Sym(p)))
		f := &mFunc{name: n, env: top}
		head, tail := []V{Sym(n)}, V(Nil)
		if g.hArity[i] > 0 {
			f.params, head = []string{p}, append(head, Sym(p))
		}
		if g.hRest[i] {
			f.rest, tail = "more", Sym("more")
			b = mcall("+", b, mcall("length", Sym("more")))
		}
		must(show(mcall("define", listTail(head, tail), b)))
		f.body = []V{b}
		top.vars[n] = f
	}
	for k := 0; k < 4; k++ {
		if r.Intn(10) > 0 {
			var ps []V
			for _, i := range r.Perm(4)[:g.arity[k]] {
				ps = append(ps, Sym(fmt.Sprintf("v%d", i)))
			}
			defun(fmt.Sprintf("m%d", k), k, ps, g.rest[k])
		}
	}
	// frames: a forest, each frame below an earlier one
	for i := 0; i < g.frames; i++ {
		f := &mFrame{id: i, slots: map[string]V{}}
		parts := []string{}
		for j := 0; j < 4; j++ {
			if r.Intn(3) == 0 {
				f.slots[fmt.Sprintf("v%d:", j)] = int64(i*10 + j)
				parts = append(parts, fmt.Sprintf("v%d: %d", j, i*10+j))
			}
		}
		parent := -1
		if i > 0 && r.Intn(6) > 0 {
			parent = r.Intn(i)
			if r.Intn(2) == 0 {
				parent = i - 1
			}
		}
		g.hasParent = parent >= 0
		for k := 0; k < 4; k++ {
			if parent < 0 && r.Intn(20) > 0 || r.Intn(2) > 0 {
				l := g.lambda(k)
				f.slots[fmt.Sprintf("m%d:", k)] = model.mkLambda(l, top)
				parts = append(parts, fmt.Sprintf("m%d: %s", k, show(l)))
			}
		}
		if r.Intn(3) == 0 {
			h := fmt.Sprintf("h%d", r.Intn(2))
			f.slots[h+":"] = top.vars[h]
			parts = append(parts, h+": "+h)
		}
		if parent >= 0 {
			f.slots["parent*:"] = frames[parent]
			parts = append(parts, fmt.Sprintf("parent*: F%d", parent))
		}
		if i > 0 && (parent < 0 || r.Intn(3) == 0) {
			p := r.Intn(i)
			f.slots["peer:"] = frames[p]
			parts = append(parts, fmt.Sprintf("peer: F%d", p))
		}
		must(fmt.Sprintf("(define F%d {%s})", i, strings.Join(parts, " ")))
		frames = append(frames, f)
		top.vars[fmt.Sprintf("F%d", i)] = f
		d := env.ValueOf(symD(fmt.Sprintf("F%d", i)))
		if !golisp.FrameP(d) {
			c.Fail("frame:"+strings.Join(text, "\n"), "F%d is not a frame", i)
			return
		}
		real[golisp.FrameValue(d)] = i
	}
	frames[0].slots["peer:"] = frames[g.frames-1]
	must(fmt.Sprintf("(peer:! F0 F%d)", g.frames-1))
	must("(define peer F0)")
	top.vars["peer"] = frames[0]

	showReal := func(d *golisp.Data) string {
		if golisp.FrameP(d) {
			if i, ok := real[golisp.FrameValue(d)]; ok {
				return fmt.Sprintf("F%d", i)
			}
			return "an unknown frame"
		}
		if golisp.FunctionP(d) {
			return "function"
		}
		return canonD(d)
	}
	find := map[int]*golisp.FrameMap{}
	for p, i := range real {
		find[i] = p
	}
	for n := 0; n < 4+r.Intn(5); n++ {
		if r.Intn(6) == 0 { // a clone joins
			i := r.Intn(len(frames))
			f := &mFrame{id: len(frames), slots: map[string]V{}}
			for k, v := range frames[i].slots {
				f.slots[k] = v
			}
			must(fmt.Sprintf("(define F%d (clone F%d))", f.id, i))
			frames = append(frames, f)
			top.vars[fmt.Sprintf("F%d", f.id)] = f
			d := env.ValueOf(symD(fmt.Sprintf("F%d", f.id)))
			if !golisp.FrameP(d) {
				c.Fail("clone:"+strings.Join(text, "\n"), "clone gave no frame")
				return
			}
			real[golisp.FrameValue(d)] = f.id
			find[f.id] = golisp.FrameValue(d)
			g.frames = len(frames)
			continue
		}
		form := g.expr(4, false, 3)
		if r.Intn(2) == 0 {
			k := r.Intn(4)
			form = mcall("send", append([]V{Sym(fmt.Sprintf("F%d", r.Intn(len(frames)))), Sym(fmt.Sprintf("m%d:", k))}, g.margs(k, 0, false, 1)...)...)
		}
		model.fuel, model.trace, model.depth = 4000, nil, 0
		v, failed, over := model.run(form, top)
		if over {
			c.Count("skipped_too_long", 1)
			return
		}
		rec.take()
		s := show(form)
		d, err := run(s)
		tr := rec.take()
		prog := strings.Join(text, "\n")
		c.Count("forms", 1)
		c.Count("events", len(tr))
		if failed {
			c.Count("forms_failing", 1)
			if err == nil {
				c.Fail("noerror:"+prog, "%s gave %s, want an error\n%s", s, showReal(d), prog)
				return
			}
			// what happened before an error depends on the order in which operands are looked at
			for i, f := range frames {
				for k, x := range find[i].Clone().Data {
					if golisp.IntegerP(x) {
						f.slots[k] = golisp.IntegerValue(x)
					}
				}
			}
			for i := 0; i < 4; i++ {
				n := fmt.Sprintf("v%d", i)
				if x := env.ValueOf(symD(n)); golisp.IntegerP(x) {
					top.vars[n] = golisp.IntegerValue(x)
				}
			}
			if strings.Contains(prog, "(set! k") {
				return // which closure k0 or k1 is now is not known
			}
			continue
		}
		if err != nil {
			c.Fail("error:"+prog, "%s failed: %v\nwant %s\n%s", s, err, mShow(v), prog)
			return
		}
		if got := showReal(d); got != mShow(v) {
			c.Fail("value:"+prog, "%s gave %s, want %s\ntrace %v\nwant  %v\n%s", s, got, mShow(v), tr, model.trace, prog)
			return
		}
		if strings.Join(tr, "\n") != strings.Join(model.trace, "\n") {
			c.Fail("trace:"+prog, "%s\ntrace %v\nwant  %v\n%s", s, tr, model.trace, prog)
			return
		}
		for i, f := range frames { // the slots of every frame, and the globals
			data := find[i].Clone().Data
			if len(data) != len(f.slots) {
				c.Fail("slots:"+prog, "after %s F%d has %d slots, want %d\n%s", s, i, len(data), len(f.slots), prog)
				return
			}
			for k, x := range f.slots {
				if y, ok := data[k]; !ok || showReal(y) != mShow(x) {
					c.Fail("slots:"+prog, "after %s slot %s of F%d is %s, want %s\n%s", s, k, i, showReal(y), mShow(x), prog)
					return
				}
			}
		}
		for i := 0; i < 4; i++ {
			n := fmt.Sprintf("v%d", i)
			if x := showReal(env.ValueOf(symD(n))); x != mShow(top.vars[n]) {
				c.Fail("globals:"+prog, "after %s the global %s is %s, want %s\n%s", s, n, x, mShow(top.vars[n]), prog)
				return
			}
		}
	}
	c.Count("programs", 1)
	c.Count("sends", model.sends)
	c.Count("super_calls", model.supers)
	if model.deep >= 4 {
		c.Count("programs_call_depth_4", 1)
	}
	if model.sends > 0 {
		c.Distinct(strings.Join(text, "\n"))
	}
	if c.Idx < 3 {
		c.Sample(strings.Join(text, "\n"))
	}
}

func (m *methodModel) mkLambda(l V, s *mScope) *mFunc {
	m.fuel = 10
	return m.eval(l, s).(*mFunc)
}

func (m *methodModel) run(e V, s *mScope) (v V, failed, over bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case mErr:
			failed = true
		case mOver:
			over = true
		default:
			panic(x)
		}
	}()
	v = m.eval(e, s)
	return
}

var whoIs map[*golisp.FrameMap]int

func setupMethods() {
	setupPrims()
	golisp.MakePrimitiveFunction("vh-who", "1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
		s := "none"
		if d := golisp.Car(args); golisp.FrameP(d) {
			s = "unknown"
			if i, ok := whoIs[golisp.FrameValue(d)]; ok {
				s = fmt.Sprintf("F%d", i)
			}
		}
		rec.add("who " + s)
		return golisp.Car(args), nil
	})
}

func init() {
	register(&Check{ID: "C20",
		Rule: "programs: random hierarchies of frames whose methods, global functions, closures, slots, parameters and locals share names and call each other through every kind of send; value, trace of intermediate values, slots of all frames and globals are compared with a model after every form. slots: methods that read and assign slots, parameters, locals and globals of one name holding values of every kind, () included, along parent chains up to 40 deep, and methods of any number of arguments through every kind of send. A case is non-trivial when at least one message was sent.",
		Assumptions: []string{"methods that call their super version are each stored in one frame of a hierarchy (or in clones of it)",
			"what was evaluated before an error is not compared, only that there is one and that later forms are unaffected",
			"a slot function passed on as a value (not called by name) is not generated"},
		Setup: setupMethods,
		Need:  []string{"programs", "sends", "super_calls", "programs_call_depth_4", "forms_failing", "slots_set_by_name", "inner_scopes", "any_arguments", "super_any_arguments", "methods_made_by_methods"},
		Phases: []Phase{
			{"programs", 48000, 600000, c20Program},
			{"slots", 20000, 300000, c20Slots},
		}})
}

// ---- C20: slots by name, for values of every kind, and arguments of every number -----------------------------

type slotProg struct {
	c      *Case
	chain  []map[string]V // own slots, the receiver's first, then those of its parent and so on
	global map[string]V
	want   []string
	n      int
	budget int
}

func (p *slotProg) find(k string) (V, bool) {
	for _, m := range p.chain {
		if v, ok := m[k]; ok {
			return v, true
		}
	}
	return nil, false
}

func (p *slotProg) val() (V, string) {
	r := p.c.R
	if r.Intn(4) == 0 {
		return Nil, []string{"'()", "(cdr '(1))", "nil", "(list)"}[r.Intn(4)]
	}
	v := genVal(r, 2, valOpts{syms: true, dotted: true})
	for bareQuote(v) || !showable(v) {
		v = genVal(r, 2, valOpts{syms: true, dotted: true})
	}
	return v, "'" + show(v)
}

func (p *slotProg) read(scopes []map[string]V, n string) V {
	for i := len(scopes) - 1; i >= 0; i-- {
		if v, ok := scopes[i][n]; ok {
			return v
		}
	}
	if v, ok := p.find(n); ok {
		return v
	}
	return p.global[n]
}

func (p *slotProg) tick(text string, v V) string {
	p.n++
	p.want = append(p.want, fmt.Sprintf("t%d %s", p.n, canon(v)))
	return fmt.Sprintf("(vh-tick 't%d %s)", p.n, text)
}

// stmts writes statements of a method and does in the model what they do, in order
func (p *slotProg) stmts(scopes []map[string]V, depth int) string {
	r := p.c.R
	var out []string
	for k := 1 + r.Intn(4); k > 0 && p.budget > 0; k-- {
		p.budget--
		n := fmt.Sprintf("s%d", r.Intn(4))
		switch c := r.Intn(16); {
		case c < 5:
			out = append(out, p.tick(n, p.read(scopes, n)))
		case c < 8:
			v, t := p.val()
			out = append(out, fmt.Sprintf("(set! %s %s)", n, t))
			set := false
			for i := len(scopes) - 1; i >= 0 && !set; i-- {
				if _, ok := scopes[i][n]; ok {
					scopes[i][n], set = v, true
				}
			}
			if _, ok := p.find(n); ok && !set {
				p.chain[0][n], set = v, true
				p.c.Count("slots_set_by_name", 1)
			}
			if !set {
				p.global[n] = v
			}
		case c < 9:
			v, t := p.val()
			out = append(out, fmt.Sprintf("(%s:! self %s)", n, t))
			p.chain[0][n] = v
		case c < 10:
			_, had := p.chain[0][n]
			delete(p.chain[0], n)
			out = append(out, p.tick(fmt.Sprintf("(remove-slot! self %s:)", n), had))
		case c < 11:
			if v, ok := p.find(n); ok {
				out = append(out, p.tick(fmt.Sprintf("(%s: self)", n), v))
			} else {
				out = append(out, p.tick(fmt.Sprintf("(%s:? self)", n), false))
			}
		case c < 12:
			out = append(out, p.tick("(outside-"+n+")", p.global[n]))
		case depth <= 0:
			out = append(out, p.tick(n, p.read(scopes, n)))
		default:
			v, t := p.val()
			in := append(append([]map[string]V{}, scopes...), map[string]V{n: v})
			var f string
			switch c {
			case 12:
				f = "(let ((%s %s)) %s)"
			case 13:
				f = "((lambda (%s z) (let () %[3]s)) %[2]s 1)"
			case 14:
				f = "(do ((%s %s) (z 0 (+ z 1))) ((== z 1)) %s)"
			default:
				f = "(for-each (lambda (%s) %[3]s) (list %[2]s))"
			}
			out = append(out, fmt.Sprintf(f, n, t, p.stmts(in, depth-1)))
			p.c.Count("inner_scopes", 1)
		}
	}
	return strings.Join(append(out, "0"), " ")
}

func c20Slots(c *Case) {
	r := c.R
	env := freshEnv()
	var text []string
	run := func(s string) bool {
		text = append(text, s)
		c.Desc("%s", strings.Join(text, "\n"))
		if _, err := evalText(s, env); err != nil {
			c.Fail("error:"+strings.Join(text, "\n"), "%s failed: %v\n%s", s, err, strings.Join(text, "\n"))
			return false
		}
		return true
	}
	p := &slotProg{c: c, global: map[string]V{}}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("s%d", i)
		v, t := p.val()
		p.global[n] = v
		if !run(fmt.Sprintf("(define %s %s)", n, t)) || !run(fmt.Sprintf("(define (outside-%s) %s)", n, n)) {
			return
		}
	}
	depth := 1 + r.Intn(5)
	if r.Intn(10) == 0 {
		depth = 20 + r.Intn(20)
	}
	real := map[*golisp.FrameMap]int{}
	whoIs = real
	var own []map[string]V
	for i := 0; i < depth; i++ { // F0 is the top of the chain
		m := map[string]V{}
		parts := ""
		if i > 0 {
			parts = fmt.Sprintf("up*: F%d", i-1)
			if r.Intn(3) == 0 {
				parts += " aside*: {only-here: 1}"
			}
		}
		for j := 0; j < 4; j++ {
			if r.Intn(4) == 0 {
				v, t := p.val()
				n := fmt.Sprintf("s%d", j)
				m[n] = v
				parts += fmt.Sprintf(" %s: %s", n, t)
			}
		}
		if !run(fmt.Sprintf("(define F%d {%s})", i, parts)) {
			return
		}
		own = append(own, m)
		real[golisp.FrameValue(env.ValueOf(symD(fmt.Sprintf("F%d", i))))] = i
	}
	check := func() bool {
		prog := strings.Join(text, "\n")
		tr := rec.take()
		for i := range tr {
			tr[i] = strings.Replace(strings.TrimPrefix(tr[i], "|"), "| ", " ", 1)
		}
		c.Count("events", len(tr))
		if strings.Join(tr, "\n") != strings.Join(p.want, "\n") {
			c.Fail("trace:"+prog, "got  %v\nwant %v\n%s", tr, p.want, prog)
			return false
		}
		for i, m := range own {
			data := golisp.FrameValue(env.ValueOf(symD(fmt.Sprintf("F%d", i)))).Clone().Data
			for j := 0; j < 4; j++ {
				n := fmt.Sprintf("s%d", j)
				v, ok := m[n]
				if d, has := data[n+":"]; has != ok || ok && canonD(d) != canon(v) {
					c.Fail("own:"+prog, "slot %s of F%d is %s (present %v), want %v (present %v)\n%s", n, i, canonD(d), has, v, ok, prog)
					return false
				}
			}
		}
		for n, v := range p.global {
			if d := env.ValueOf(symD(n)); canonD(d) != canon(v) {
				c.Fail("global:"+prog, "the global %s is %s, want %s\n%s", n, canonD(d), canon(v), prog)
				return false
			}
		}
		p.want = nil
		return true
	}
	rec.take()
	for q := 0; q < 3; q++ {
		holder, recv := r.Intn(depth), 0 // the method is in F<holder>, the receiver is it or below
		recv = holder + r.Intn(depth-holder)
		p.chain = nil
		for i := recv; i >= 0; i-- {
			p.chain = append(p.chain, own[i])
		}
		p.budget = 30
		args := []map[string]V{{}}
		params, given := "", ""
		for j := 0; j < 4; j++ {
			if r.Intn(6) == 0 {
				v, t := p.val()
				n := fmt.Sprintf("s%d", j)
				args[0][n] = v
				params, given = params+" "+n, given+" "+t
			}
		}
		body := p.stmts(args, 4)
		if !run(fmt.Sprintf("(m%d:! F%d (lambda (%s) %s))", q, holder, strings.TrimSpace(params), body)) ||
			!run(pick(r.Intn(2) == 0, fmt.Sprintf("(send F%d m%d:%s)", recv, q, given), fmt.Sprintf("(m%d:> F%d%s)", q, recv, given))) {
			return
		}
		if !check() {
			return
		}
		c.Count("slot_methods", 1)
	}
	// any number of arguments, through every kind of send
	for q := 0; q < 3; q++ {
		fixed := r.Intn(5)
		rest := r.Intn(2) == 0
		if rest && fixed == 0 { // (lambda (. more) ...) is not how it is written
			fixed = 1
		}
		n := fixed
		if rest {
			n += r.Intn(7)
		}
		var vals []V
		var given []string
		for i := 0; i < n; i++ {
			v, t := p.val()
			vals, given = append(vals, v), append(given, t)
		}
		var ps, shown []string
		for i := 0; i < fixed; i++ {
			ps = append(ps, fmt.Sprintf("p%d", i))
			shown = append(shown, fmt.Sprintf("p%d", i))
		}
		want := append([]V{}, vals[:fixed]...)
		if rest {
			ps = append(ps, ". more")
			shown = append(shown, "more")
			want = append(want, list(vals[fixed:]...))
		}
		holder, recv := r.Intn(depth), 0
		recv = holder + r.Intn(depth-holder)
		sel := fmt.Sprintf("args%d:", q)
		if !run(fmt.Sprintf("(%s! F%d (lambda (%s) (vh-who self) (vh-tick 'args (list %s))))", sel, holder, strings.Join(ps, " "), strings.Join(shown, " "))) {
			return
		}
		super := recv > holder && r.Intn(2) == 0
		if super { // the receiver's own version calls that of its parents
			cut := r.Intn(n + 1)
			call := "(send-super " + sel + " " + strings.Join(given, " ") + ")"
			switch r.Intn(3) {
			case 0:
				call = "(" + sel + "^ " + strings.Join(given, " ") + ")"
			case 1:
				call = "(apply-slot-super " + sel + " " + strings.Join(given[:cut], " ") + " (list " + strings.Join(given[cut:], " ") + "))"
			}
			if !run(fmt.Sprintf("(%s! F%d (lambda () %s))", sel, recv, call)) {
				return
			}
			given = nil
			c.Count("super_any_arguments", 1)
		}
		cut := r.Intn(len(given) + 1)
		call := fmt.Sprintf("(send F%d %s %s)", recv, sel, strings.Join(given, " "))
		switch r.Intn(4) {
		case 0:
			call = fmt.Sprintf("(%s> F%d %s)", sel, recv, strings.Join(given, " "))
		case 1, 2:
			call = fmt.Sprintf("(apply-slot F%d %s %s (list %s))", recv, sel, strings.Join(given[:cut], " "), strings.Join(given[cut:], " "))
		}
		p.want = []string{fmt.Sprintf("who F%d", recv), "args " + canon(list(want...))}
		if !run(call) || !check() {
			return
		}
		c.Count("any_arguments", 1)
	}
	// a method made while a method of another frame runs
	a, b := r.Intn(depth), r.Intn(depth)
	v, t := p.val()
	n := fmt.Sprintf("s%d", r.Intn(4))
	p.chain = nil
	for i := b; i >= 0; i-- {
		p.chain = append(p.chain, own[i])
	}
	if !run(fmt.Sprintf("(maker:! F%d (lambda (target z) (set-slot! target made: (lambda () (vh-who self) (vh-tick 'slot %s) (vh-tick 'z z) (set! %s %s)))))", a, n, n, t)) ||
		!run(fmt.Sprintf("(send F%d maker: F%d 'given)", a, b)) {
		return
	}
	p.want = []string{fmt.Sprintf("who F%d", b), "slot " + canon(p.read(nil, n)), "z |given|"}
	if old, ok := p.find(n); ok || a == b {
		_ = old
		if ok {
			own[b][n] = v
		} else {
			p.global[n] = v
		}
	} else if _, ok := c20In(own[:a+1], n); !ok { // else the slot of the frame that made it is meant
		p.global[n] = v
	} else {
		p.want = nil
	}
	if p.want != nil {
		if !run(fmt.Sprintf("(send F%d made:)", b)) || !check() {
			return
		}
		c.Count("methods_made_by_methods", 1)
	}
	c.Distinct(strings.Join(text, "\n"))
}

func c20In(own []map[string]V, n string) (V, bool) {
	for _, m := range own {
		if v, ok := m[n]; ok {
			return v, true
		}
	}
	return nil, false
}
