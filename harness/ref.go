package main

import (
	"fmt"
	"strings"
)

// ---- reference interpreter ---------------------------------------------------
//
// An independent evaluator for the part of the language the program generators
// use. It works on reference values, has no notion of the interpreter's data
// structures, and records the same kind of event trace as the primitives the
// harness registers in the interpreter (vh-tick, vh-fail).

type Env struct {
	m map[Sym]*V
	p *Env
}

func newEnv(p *Env) *Env { return &Env{map[Sym]*V{}, p} }
func (e *Env) find(s Sym) *V {
	for ; e != nil; e = e.p {
		if v, ok := e.m[s]; ok {
			return v
		}
	}
	return nil
}
func (e *Env) def(s Sym, v V) {
	if b, ok := e.m[s]; ok {
		*b = v
		return
	}
	e.m[s] = &v
}

type Fn struct {
	Name   string
	Params []Sym
	Rest   Sym // "" if none
	Body   []V
	Env    *Env
}
type Mac struct {
	Params []Sym
	Rest   Sym
	Body   V
	Env    *Env
}
type Prim struct {
	Name     string
	Min, Max int // Max<0: any
	F        func(in *Ref, a []V) V
}

type Ref struct {
	Trace []string
	Steps int
	Limit int
	Depth int
	G     *Env
	Stats map[string]int
	Prof  bool     // record calls
	Calls []string // enter/exit of every call, when Prof
}

type lispErr struct {
	msg   string
	depth int // of the form whose argument count was wrong, plus one
}

// call records a call's beginning and end around f.
func (in *Ref) call(kind, name string, f func() V) V {
	if !in.Prof {
		return f()
	}
	at, d := len(in.Calls), in.Depth
	in.Calls = append(in.Calls, "enter "+kind+" "+name)
	defer func() {
		if e := recover(); e != nil {
			if le, ok := e.(lispErr); ok {
				if kind == "form" && le.depth == d+1 { // refused: there was no call
					in.Calls = in.Calls[:at]
					panic(lispErr{msg: le.msg})
				}
				in.Calls = append(in.Calls, "exit "+kind+" "+name)
			}
			panic(e)
		}
	}()
	v := f()
	in.Calls = append(in.Calls, "exit "+kind+" "+name)
	return v
}

type tooLong struct{}

func (in *Ref) fail(f string, a ...interface{}) V { panic(lispErr{msg: fmt.Sprintf(f, a...)}) }

func newRef(limit int) *Ref {
	in := &Ref{Limit: limit, Stats: map[string]int{}}
	in.G = newEnv(nil)
	in.G.def("nil", Nil)
	for _, p := range refPrims {
		in.G.def(Sym(p.Name), p)
	}
	return newRefDone(in)
}
func newRefDone(in *Ref) *Ref { in.G = newEnv(in.G); return in }

// Run evaluates one form; failed reports a lisp error, over that limits were hit.
func (in *Ref) Run(form V, env *Env) (v V, msg string, failed, over bool) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case lispErr:
				failed, msg = true, x.msg
			case tooLong:
				over = true
			default:
				panic(e)
			}
		}
	}()
	in.Depth = 0
	v = in.Eval(form, env)
	return
}

func (in *Ref) body(b []V, env *Env) V {
	var r V = Nil
	for _, f := range b {
		r = in.Eval(f, env)
	}
	return r
}

func (in *Ref) Eval(x V, env *Env) V {
	in.Steps++
	if in.Steps > in.Limit || in.Depth > 400 {
		panic(tooLong{})
	}
	in.Depth++
	defer func() { in.Depth-- }()
	switch x := x.(type) {
	case Sym:
		if strings.HasSuffix(string(x), ":") {
			return x
		}
		if b := env.find(x); b != nil {
			return *b
		}
		return Nil
	case *Pair:
		return in.evalPair(x, env)
	}
	return x
}

func (in *Ref) evalPair(x *Pair, env *Env) V {
	if s, ok := x.A.(Sym); ok {
		if env.find(s) == nil {
			if sf, ok := refForms[s]; ok {
				args, _ := toSlice(x.D)
				in.Stats[string(s)]++
				return in.call("form", string(s), func() V { return sf(in, args, env) })
			}
		}
	}
	f := in.Eval(x.A, env)
	args, _ := toSlice(x.D)
	switch f := f.(type) {
	case *Mac:
		return in.Eval(in.expand(f, args), env)
	case *Fn:
		if !f.arityOK(len(args)) {
			in.fail("arity")
		}
	case *Prim:
		if !f.arityOK(len(args)) {
			in.fail("arity")
		}
	default:
		in.fail("not a function: %s", canon(f))
	}
	vals := make([]V, len(args))
	for i, a := range args {
		vals[i] = in.Eval(a, env)
	}
	return in.Apply(f, vals)
}

func (f *Fn) arityOK(n int) bool {
	if f.Rest != "" {
		return n >= len(f.Params)
	}
	return n == len(f.Params)
}
func (p *Prim) arityOK(n int) bool { return n >= p.Min && (p.Max < 0 || n <= p.Max) }

func (in *Ref) bind(ps []Sym, rest Sym, vals []V, e *Env) {
	for i, p := range ps {
		e.def(p, vals[i])
	}
	if rest != "" {
		e.def(rest, list(vals[len(ps):]...))
	}
}

func (in *Ref) expand(m *Mac, args []V) V {
	if len(args) < len(m.Params) || (m.Rest == "" && len(args) != len(m.Params)) {
		in.fail("macro arity")
	}
	e := newEnv(m.Env)
	in.bind(m.Params, m.Rest, args, e)
	return in.Eval(m.Body, e)
}

func (in *Ref) Apply(f V, vals []V) V {
	in.Steps++
	if in.Steps > in.Limit || in.Depth > 400 {
		panic(tooLong{})
	}
	switch f := f.(type) {
	case *Fn:
		if !f.arityOK(len(vals)) {
			in.fail("arity")
		}
		e := newEnv(f.Env)
		in.bind(f.Params, f.Rest, vals, e)
		return in.call("func", f.Name, func() V { return in.body(f.Body, e) })
	case *Prim:
		if !f.arityOK(len(vals)) {
			in.fail("arity")
		}
		in.Stats[f.Name]++
		return in.call("prim", f.Name, func() V { return f.F(in, vals) })
	}
	return in.fail("not a function")
}

func parseParams(v V) (ps []Sym, rest Sym) {
	for {
		switch x := v.(type) {
		case *Pair:
			ps = append(ps, x.A.(Sym))
			v = x.D
		case Sym:
			return ps, x
		default:
			return
		}
	}
}

var refForms map[Sym]func(in *Ref, a []V, env *Env) V

func init() {
	arity := func(in *Ref, a []V, min, max int) {
		if len(a) < min || (max >= 0 && len(a) > max) {
			panic(lispErr{"arity", in.Depth + 1})
		}
	}
	letBody := func(in *Ref, a []V, env *Env, mode int) V {
		arity(in, a, 1, -1)
		bs, _ := toSlice(a[0])
		e := newEnv(env)
		ev := env
		if mode != 0 {
			ev = e
		}
		if mode == 2 {
			for _, b := range bs {
				e.def(b.(*Pair).A.(Sym), Nil)
			}
		}
		for _, b := range bs {
			p := b.(*Pair)
			var init V = Nil
			if q, ok := p.D.(*Pair); ok {
				init = in.Eval(q.A, ev)
			}
			e.def(p.A.(Sym), init)
		}
		return in.body(a[1:], e)
	}
	refForms = map[Sym]func(in *Ref, a []V, env *Env) V{
		"quote": func(in *Ref, a []V, env *Env) V { arity(in, a, 1, 1); return a[0] },
		"quasiquote": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, 1)
			return in.qq(a[0], 1, env)
		},
		"if": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 2, 3)
			if truthy(in.Eval(a[0], env)) {
				return in.Eval(a[1], env)
			}
			if len(a) == 3 {
				return in.Eval(a[2], env)
			}
			return Nil
		},
		"when": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 2, -1)
			if truthy(in.Eval(a[0], env)) {
				return in.body(a[1:], env)
			}
			return Nil
		},
		"unless": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 2, -1)
			if !truthy(in.Eval(a[0], env)) {
				return in.body(a[1:], env)
			}
			return Nil
		},
		"cond": func(in *Ref, a []V, env *Env) V {
			for _, cl := range a {
				p, ok := cl.(*Pair)
				if !ok {
					in.fail("cond clause")
				}
				rest, _ := toSlice(p.D)
				if p.A == Sym("else") {
					return in.body(rest, env)
				}
				if truthy(in.Eval(p.A, env)) {
					return in.body(rest, env)
				}
			}
			return Nil
		},
		"case": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, -1)
			k := in.Eval(a[0], env)
			for _, cl := range a[1:] {
				p, ok := cl.(*Pair)
				if !ok {
					in.fail("case clause")
				}
				rest, _ := toSlice(p.D)
				if p.A == Sym("else") {
					return in.body(rest, env)
				}
				ds, _ := toSlice(p.A)
				for _, d := range ds {
					if eq(d, k) {
						return in.body(rest, env)
					}
				}
			}
			return Nil
		},
		"and": func(in *Ref, a []V, env *Env) V {
			var r V = Nil
			for _, x := range a {
				r = in.Eval(x, env)
				if !truthy(r) {
					return r
				}
			}
			return r
		},
		"or": func(in *Ref, a []V, env *Env) V {
			var r V = Nil
			for _, x := range a {
				r = in.Eval(x, env)
				if truthy(r) {
					return r
				}
			}
			return r
		},
		"begin":  func(in *Ref, a []V, env *Env) V { return in.body(a, env) },
		"let*":   func(in *Ref, a []V, env *Env) V { return letBody(in, a, env, 1) },
		"letrec": func(in *Ref, a []V, env *Env) V { return letBody(in, a, env, 2) },
		"let": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, -1)
			if name, ok := a[0].(Sym); ok {
				arity(in, a, 2, -1)
				bs, _ := toSlice(a[1])
				var ps []Sym
				var inits []V
				for _, b := range bs {
					p := b.(*Pair)
					ps = append(ps, p.A.(Sym))
					inits = append(inits, p.D.(*Pair).A)
				}
				e := newEnv(env)
				f := &Fn{string(name), ps, "", a[2:], e}
				e.def(name, f)
				vals := make([]V, len(inits))
				for i, x := range inits {
					vals[i] = in.Eval(x, env)
				}
				return in.Apply(f, vals)
			}
			return letBody(in, a, env, 0)
		},
		"do": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 2, -1)
			bs, _ := toSlice(a[0])
			tc, _ := toSlice(a[1])
			e := newEnv(env)
			for _, b := range bs {
				q, _ := toSlice(b)
				var v V = Nil
				if len(q) > 1 {
					v = in.Eval(q[1], env)
				}
				e.def(q[0].(Sym), v)
			}
			for {
				var t V = Nil
				if len(tc) > 0 {
					t = in.Eval(tc[0], e)
				}
				if truthy(t) {
					if len(tc) == 1 {
						return Nil
					}
					return in.body(tc[1:], e)
				}
				in.body(a[2:], e)
				var vs []V
				for _, b := range bs {
					q, _ := toSlice(b)
					if len(q) > 2 {
						vs = append(vs, in.Eval(q[2], e))
					} else {
						vs = append(vs, *e.find(q[0].(Sym)))
					}
				}
				for i, b := range bs {
					q, _ := toSlice(b)
					e.def(q[0].(Sym), vs[i])
				}
				in.Steps++
				if in.Steps > in.Limit {
					panic(tooLong{})
				}
			}
		},
		"lambda": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, -1)
			ps, rest := parseParams(a[0])
			return &Fn{"unnamed", ps, rest, a[1:], env}
		},
		"named-lambda": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, -1)
			p := a[0].(*Pair)
			ps, rest := parseParams(p.D)
			return &Fn{string(p.A.(Sym)), ps, rest, a[1:], env}
		},
		"define": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, -1)
			if s, ok := a[0].(Sym); ok {
				var v V = Nil
				if len(a) > 1 {
					v = in.Eval(a[1], env)
				}
				env.def(s, v)
				return v
			}
			p := a[0].(*Pair)
			if b := env.find(p.A.(Sym)); b != nil {
				if _, ok := (*b).(*Prim); ok { // redefining a name bound to a built-in is refused
					in.unspec()
				}
			}
			ps, rest := parseParams(p.D)
			f := &Fn{string(p.A.(Sym)), ps, rest, a[1:], env}
			env.def(p.A.(Sym), f)
			return f
		},
		"defmacro": func(in *Ref, a []V, env *Env) V {
			p := a[0].(*Pair)
			ps, rest := parseParams(p.D)
			m := &Mac{ps, rest, a[1], env}
			env.def(p.A.(Sym), m)
			return m
		},
		"expand": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 1, -1)
			m, ok := in.Eval(a[0], env).(*Mac)
			if !ok {
				in.fail("expand")
			}
			return in.expand(m, a[1:])
		},
		"set!": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 2, 2)
			v := in.Eval(a[1], env)
			b := env.find(a[0].(Sym))
			if b == nil {
				return in.fail("%s is undefined", a[0])
			}
			if _, isPrim := (*b).(*Prim); isPrim && in.G.p.m[a[0].(Sym)] == b {
				return in.fail("protected")
			}
			*b = v
			return v
		},
		"->": func(in *Ref, a []V, env *Env) V { arity(in, a, 1, -1); return in.chain(a, env, false) },
		"=>": func(in *Ref, a []V, env *Env) V { arity(in, a, 1, -1); return in.chain(a, env, true) },
		"on-error": func(in *Ref, a []V, env *Env) V {
			arity(in, a, 2, 3)
			d := in.Depth
			var msg string
			var v V
			failed := false
			func() {
				defer func() {
					if e := recover(); e != nil {
						le, ok := e.(lispErr)
						if !ok {
							panic(e)
						}
						failed, msg = true, le.msg
						in.Depth = d
					}
				}()
				v = in.Eval(a[0], env)
			}()
			if !failed {
				if len(a) == 3 {
					h, ok := in.Eval(a[2], env).(*Fn)
					if !ok {
						return in.fail("on-error requires a function")
					}
					return in.Apply(h, nil)
				}
				return v
			}
			h, ok := in.Eval(a[1], env).(*Fn)
			if !ok {
				return in.fail("on-error requires a function")
			}
			return in.Apply(h, []V{Str("\x00ERR:" + msg)})
		},
	}
}

func (in *Ref) chain(a []V, env *Env, tap bool) V {
	v := in.Eval(a[0], env)
	for _, st := range a[1:] {
		// the value itself (not its source text) becomes the first argument
		q := list(Sym("quote"), v)
		var call V
		if p, ok := st.(*Pair); ok {
			call = cons(p.A, cons(q, p.D))
		} else {
			call = list(st, q)
		}
		r := in.Eval(call, env)
		if !tap {
			v = r
		}
	}
	return v
}

// qq: quasiquote. spliced results are returned by qqList only.
func (in *Ref) qq(x V, level int, env *Env) V {
	p, ok := x.(*Pair)
	if !ok {
		return x
	}
	if s, ok := p.A.(Sym); ok {
		arg := func() V {
			if d, ok := p.D.(*Pair); ok {
				return d.A
			}
			return Nil
		}
		switch s {
		case "unquote":
			if level == 1 {
				return in.Eval(arg(), env)
			}
			return list(s, in.qq1(arg(), level-1, env))
		case "quasiquote":
			return list(s, in.qq1(arg(), level+1, env))
		}
	}
	var out []V
	var t V = p
	for {
		q, ok := t.(*Pair)
		if !ok {
			break
		}
		if d, ok := q.D.(*Pair); ok && q != p && q.A == Sym("unquote") && isNil(d.D) { // . ,x
			return listTail(out, in.qq(q, level, env))
		}
		out = append(out, in.qqElem(q.A, level, env)...)
		t = q.D
	}
	return listTail(out, t)
}

// qq1 processes the operand of a nested quasiquote/unquote.
func (in *Ref) qq1(x V, level int, env *Env) V { return in.qq(x, level, env) }

func (in *Ref) qqElem(x V, level int, env *Env) []V {
	if p, ok := x.(*Pair); ok && p.A == Sym("unquote-splicing") {
		var arg V = Nil
		if d, ok := p.D.(*Pair); ok {
			arg = d.A
		}
		if level == 1 {
			v := in.Eval(arg, env)
			sl := in.seq(v)
			return sl
		}
		return []V{list(Sym("unquote-splicing"), in.qq1(arg, level-1, env))}
	}
	return []V{in.qq(x, level, env)}
}

// eq is structural equality of reference values.
func eq(a, b V) bool {
	return canon(a) == canon(b) && canon(a) != "<fn>" && !hasNaN(a) || identical(a, b)
}
func identical(a, b V) bool {
	switch x := a.(type) {
	case *Fn:
		y, ok := b.(*Fn)
		return ok && x == y
	}
	return false
}
func hasNaN(v V) bool { return strings.Contains(canon(v), "F:nan") }

// ---- primitives of the reference -----------------------------------------------

var refPrims []*Prim

func rp(name string, min, max int, f func(in *Ref, a []V) V) {
	refPrims = append(refPrims, &Prim{name, min, max, f})
}

func (in *Ref) intArg(v V) int64 {
	n, ok := v.(int64)
	if _, isF := v.(float32); isF {
		in.unspec() // float arithmetic is judged by C10
	}
	if !ok {
		in.fail("number expected")
	}
	return n
}
func (in *Ref) listArg(v V) []V {
	if isNil(v) {
		return nil
	}
	if _, ok := v.(*Pair); !ok {
		in.fail("list expected, got %s", canon(v))
	}
	return in.seq(v)
}

// unspec: the behaviour is not specified (ill-typed use the properties say nothing about);
// the case is discarded.
func (in *Ref) unspec() V { panic(tooLong{}) }

// seq: the elements of a proper list; anything else is unspecified
func (in *Ref) seq(v V) []V {
	s, ok := toSlice(v)
	if !ok {
		in.unspec()
	}
	return s
}
func (in *Ref) fnArg(v V) V {
	switch v.(type) {
	case *Fn, *Prim:
		return v
	}
	return in.fail("function expected")
}

func init() {
	rp("vh-tick", 1, -1, func(in *Ref, a []V) V {
		var p []string
		for _, x := range a {
			p = append(p, canon(x))
		}
		in.Trace = append(in.Trace, strings.Join(p, " "))
		return a[len(a)-1]
	})
	rp("vh-fail", 0, -1, func(in *Ref, a []V) V {
		var p []string
		for _, x := range a {
			p = append(p, canon(x))
		}
		in.Trace = append(in.Trace, "FAIL "+strings.Join(p, " "))
		return in.fail("vh-fail %s", strings.Join(p, " "))
	})
	rp("error", 1, 1, func(in *Ref, a []V) V { return in.fail("%s", "error") })
	rp("+", 0, -1, func(in *Ref, a []V) V {
		var s int64
		for _, x := range a {
			s += in.intArg(x)
		}
		return s
	})
	rp("*", 0, -1, func(in *Ref, a []V) V {
		s := int64(1)
		for _, x := range a {
			s *= in.intArg(x)
		}
		return s
	})
	rp("-", 2, -1, func(in *Ref, a []V) V {
		for _, x := range a {
			in.intArg(x)
		}
		s := a[0].(int64)
		for _, x := range a[1:] {
			s -= x.(int64)
		}
		return s
	})
	cmp := func(name string, f func(a, b int64) bool) {
		rp(name, 2, 2, func(in *Ref, a []V) V { x, y := in.intArg(a[0]), in.intArg(a[1]); return f(x, y) })
	}
	cmp("<", func(a, b int64) bool { return a < b })
	cmp(">", func(a, b int64) bool { return a > b })
	cmp("<=", func(a, b int64) bool { return a <= b })
	cmp(">=", func(a, b int64) bool { return a >= b })
	for _, n := range []string{"==", "eq?", "equal?", "eqv?"} {
		rp(n, 2, 2, func(in *Ref, a []V) V { return eq(a[0], a[1]) })
	}
	rp("!=", 2, 2, func(in *Ref, a []V) V { return !eq(a[0], a[1]) })
	rp("not", 1, 1, func(in *Ref, a []V) V { return !truthy(a[0]) })
	rp("zero?", 1, 1, func(in *Ref, a []V) V { return in.intArg(a[0]) == 0 })
	rp("even?", 1, 1, func(in *Ref, a []V) V { return in.intArg(a[0])%2 == 0 })
	rp("odd?", 1, 1, func(in *Ref, a []V) V { return in.intArg(a[0])%2 != 0 })
	rp("succ", 1, 1, func(in *Ref, a []V) V { return in.intArg(a[0]) + 1 })
	rp("pred", 1, 1, func(in *Ref, a []V) V { return in.intArg(a[0]) - 1 })
	rp("nil?", 1, 1, func(in *Ref, a []V) V { return isNil(a[0]) })
	rp("symbol?", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(Sym); return ok })
	rp("integer?", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(int64); return ok })
	rp("list", 0, -1, func(in *Ref, a []V) V { return list(a...) })
	rp("cons", 2, 2, func(in *Ref, a []V) V { return cons(a[0], a[1]) })
	rp("car", 1, 1, func(in *Ref, a []V) V {
		if p, ok := a[0].(*Pair); ok {
			return p.A
		}
		return Nil
	})
	rp("cdr", 1, 1, func(in *Ref, a []V) V {
		if p, ok := a[0].(*Pair); ok {
			return p.D
		}
		return Nil
	})
	rp("cadr", 1, 1, func(in *Ref, a []V) V {
		if p, ok := a[0].(*Pair); ok {
			if q, ok := p.D.(*Pair); ok {
				return q.A
			}
		}
		return Nil
	})
	rp("length", 1, 1, func(in *Ref, a []V) V { return int64(len(in.seq(a[0]))) })
	rp("reverse", 1, 1, func(in *Ref, a []V) V {
		s := in.seq(a[0])
		var r V = Nil
		for _, x := range s {
			r = cons(x, r)
		}
		return r
	})
	rp("append", 0, -1, func(in *Ref, a []V) V {
		var out []V
		for _, l := range a {
			out = append(out, in.seq(l)...)
		}
		return list(out...)
	})
	rp("apply", 1, -1, func(in *Ref, a []V) V {
		f := in.fnArg(a[0])
		if len(a) < 2 {
			in.fail("apply")
		}
		last := a[len(a)-1]
		args := append([]V{}, a[1:len(a)-1]...)
		args = append(args, in.listArg(last)...)
		return in.Apply(f, args)
	})
	multi := func(in *Ref, a []V) (V, [][]V, int) {
		f := in.fnArg(a[0])
		var ls [][]V
		n := -1
		for _, l := range a[1:] {
			if n == 0 { // later arguments are not looked at any more
				in.seq(l)
			}
			s := in.listArg(l)
			ls = append(ls, s)
			if n < 0 || len(s) < n {
				n = len(s)
			}
		}
		return f, ls, n
	}
	row := func(ls [][]V, i int) []V {
		var r []V
		for _, l := range ls {
			r = append(r, l[i])
		}
		return r
	}
	rp("map", 2, -1, func(in *Ref, a []V) V {
		f, ls, n := multi(in, a)
		var out []V
		for i := 0; i < n; i++ {
			out = append(out, in.Apply(f, row(ls, i)))
		}
		return list(out...)
	})
	rp("for-each", 2, -1, func(in *Ref, a []V) V {
		f, ls, n := multi(in, a)
		for i := 0; i < n; i++ {
			in.Apply(f, row(ls, i))
		}
		return Nil
	})
	rp("any", 2, -1, func(in *Ref, a []V) V {
		f, ls, n := multi(in, a)
		for i := 0; i < n; i++ {
			if truthy(in.Apply(f, row(ls, i))) {
				return true
			}
		}
		return false
	})
	rp("every", 2, -1, func(in *Ref, a []V) V {
		f, ls, n := multi(in, a)
		for i := 0; i < n; i++ {
			if !truthy(in.Apply(f, row(ls, i))) {
				return false
			}
		}
		return true
	})
	pred := func(in *Ref, f V, x V) bool {
		b, ok := in.Apply(f, []V{x}).(bool)
		if !ok {
			in.fail("predicate")
		}
		return b
	}
	rp("filter", 2, 2, func(in *Ref, a []V) V {
		f := in.fnArg(a[0])
		var out []V
		for _, x := range in.listArg(a[1]) {
			if pred(in, f, x) {
				out = append(out, x)
			}
		}
		return list(out...)
	})
	rp("remove", 2, 2, func(in *Ref, a []V) V {
		f := in.fnArg(a[0])
		var out []V
		for _, x := range in.listArg(a[1]) {
			if !pred(in, f, x) {
				out = append(out, x)
			}
		}
		return list(out...)
	})
	rp("find", 2, 2, func(in *Ref, a []V) V {
		f := in.fnArg(a[0])
		for _, x := range in.listArg(a[1]) {
			if pred(in, f, x) {
				return x
			}
		}
		return false
	})
	for _, n := range []string{"find-tail", "memp"} {
		rp(n, 2, 2, func(in *Ref, a []V) V {
			f := in.fnArg(a[0])
			in.listArg(a[1])
			var t V = a[1]
			for {
				p, ok := t.(*Pair)
				if !ok {
					return false
				}
				if pred(in, f, p.A) {
					return p
				}
				t = p.D
			}
		})
	}
	for _, n := range []string{"memq", "memv", "member"} {
		rp(n, 2, 2, func(in *Ref, a []V) V {
			var t V = a[1]
			for {
				p, ok := t.(*Pair)
				if !ok {
					return false
				}
				if eq(a[0], p.A) {
					return p
				}
				t = p.D
			}
		})
	}
	fold := func(name string, right, useInit bool) {
		rp(name, 3, 3, func(in *Ref, a []V) V {
			f := in.fnArg(a[0])
			l := in.listArg(a[2])
			acc := a[1]
			if !useInit {
				if len(l) == 0 {
					return a[1]
				}
				if right {
					acc, l = l[len(l)-1], l[:len(l)-1]
				} else {
					acc, l = l[0], l[1:]
				}
			}
			if right {
				for i := len(l) - 1; i >= 0; i-- {
					acc = in.Apply(f, []V{l[i], acc})
				}
			} else {
				for _, x := range l {
					acc = in.Apply(f, []V{acc, x})
				}
			}
			return acc
		})
	}
	fold("reduce", false, false)
	fold("reduce-left", false, false)
	fold("reduce-right", true, false)
	fold("fold-left", false, true)
	fold("fold-right", true, true)
	rp("partition", 2, 2, func(in *Ref, a []V) V {
		switch a[0].(type) {
		case *Fn, *Prim:
			var t, f []V
			for _, x := range in.listArg(a[1]) {
				if truthy(in.Apply(a[0], []V{x})) {
					t = append(t, x)
				} else {
					f = append(f, x)
				}
			}
			return list(list(t...), list(f...))
		}
		n := in.intArg(a[0])
		if n < 1 {
			in.fail("partition size")
		}
		var out, cur []V
		for _, x := range in.listArg(a[1]) {
			cur = append(cur, x)
			if int64(len(cur)) == n {
				out = append(out, list(cur...))
				cur = nil
			}
		}
		if len(cur) > 0 {
			out = append(out, list(cur...))
		}
		return list(out...)
	})
	rp("eval", 1, 1, nil) // needs an environment: handled by the runner, not generated
}
