package main

import (
	"fmt"
	"math/rand"
)

// ---- random program generator ---------------------------------------------------

type ty int

const (
	tInt ty = iota
	tBool
	tList // list of ints
	tAny
)

type gvar struct {
	name  Sym
	t     ty
	fn    int // arity if a function (ints -> int), -1 otherwise
	rest  bool
	mac   int // arity if macro, -1 otherwise
	mkind int
}

type Gen struct {
	R      *rand.Rand
	scopes [][]gvar
	nid    int
	tick   int
	W      map[string]int // weights of productions; missing = default
	budget int
	noSet  int // >0: do not generate set!
	loop   int
}

func newGen(r *rand.Rand, w map[string]int) *Gen {
	return &Gen{R: r, W: w, scopes: [][]gvar{nil}, budget: 120}
}

func (g *Gen) n(k int) int       { return g.R.Intn(k) }
func (g *Gen) chance(p int) bool { return g.R.Intn(100) < p }
func (g *Gen) push()             { g.scopes = append(g.scopes, nil) }
func (g *Gen) pop()              { g.scopes = g.scopes[:len(g.scopes)-1] }
func (g *Gen) add(v gvar)        { k := len(g.scopes) - 1; g.scopes[k] = append(g.scopes[k], v) }

var namePool = []Sym{"a", "b", "c", "x", "y", "z", "foo", "acc", "i", "n", "tmp", "lst", "val"}

func (g *Gen) fresh() Sym {
	if g.chance(75) { // shadowing is wanted
		return namePool[g.n(len(namePool))]
	}
	g.nid++
	return Sym(fmt.Sprintf("v%d", g.nid))
}

// visible variables (innermost binding of each name only)
func (g *Gen) visible(pred func(gvar) bool) []gvar {
	seen := map[Sym]bool{}
	var out []gvar
	for i := len(g.scopes) - 1; i >= 0; i-- {
		for j := len(g.scopes[i]) - 1; j >= 0; j-- {
			v := g.scopes[i][j]
			if seen[v.name] {
				continue
			}
			seen[v.name] = true
			if pred(v) {
				out = append(out, v)
			}
		}
	}
	return out
}
func plain(t ty) func(gvar) bool {
	return func(v gvar) bool { return v.t == t && v.fn < 0 && v.mac < 0 }
}
func isFn(v gvar) bool  { return v.fn >= 0 }
func isMac(v gvar) bool { return v.mac >= 0 }

func (g *Gen) lit() int64 {
	switch g.n(8) {
	case 0:
		return 0
	case 1:
		return int64(g.n(2000) - 1000)
	case 2:
		return -1
	}
	return int64(g.n(10))
}

func S(n string) Sym { return Sym(n) }

// ticked wraps e so that its evaluation is visible.
func (g *Gen) ticked(e V) V {
	if g.chance(g.w("tick", 25)) {
		g.tick++
		return list(S("vh-tick"), int64(g.tick), e)
	}
	return e
}

func (g *Gen) w(name string, def int) int {
	if v, ok := g.W[name]; ok {
		return v
	}
	return def
}

type production struct {
	name string
	w    int
	f    func(d int) V
}

func (g *Gen) pick(ps []production, d int) V {
	tot := 0
	for i := range ps {
		ps[i].w = g.w(ps[i].name, ps[i].w)
		tot += ps[i].w
	}
	k := g.n(tot)
	for _, p := range ps {
		if k < p.w {
			return p.f(d)
		}
		k -= p.w
	}
	return int64(0)
}

func (g *Gen) expr(t ty, d int) V {
	g.budget--
	var e V
	switch t {
	case tInt:
		e = g.intExpr(d)
	case tBool:
		e = g.boolExpr(d)
	case tList:
		e = g.listExpr(d)
	default:
		switch g.n(5) {
		case 0:
			e = g.boolExpr(d)
		case 1:
			e = g.listExpr(d)
		case 2:
			e = Str([]string{"", "s", "hello", "a b"}[g.n(4)])
		default:
			e = g.intExpr(d)
		}
	}
	return g.ticked(e)
}

func (g *Gen) leafInt() V {
	vs := g.visible(plain(tInt))
	if len(vs) > 0 && g.chance(65) {
		return vs[g.n(len(vs))].name
	}
	return g.lit()
}

func (g *Gen) leaves(n int) []V {
	var a []V
	for ; n > 0; n-- {
		a = append(a, g.leafInt())
	}
	return a
}

// more adds up to max operands that are constants or variables
func (g *Gen) more(a []V, max int) []V {
	for n := g.n(max); n > 0; n-- {
		a = append(a, g.leafInt())
	}
	return a
}

func (g *Gen) args(n int, d int) []V {
	var a []V
	for i := 0; i < n; i++ {
		a = append(a, g.expr(tInt, d-1))
	}
	return a
}

// bodySeq generates an implicit begin ending in an expression of type t; new definitions
// are local to the current (already pushed) scope.
func (g *Gen) bodySeq(t ty, d int, allowDefine bool) []V {
	var out []V
	k := 0
	if g.chance(50) {
		k = 1 + g.n(2)
	}
	for i := 0; i < k; i++ {
		out = append(out, g.stmt(d-1, allowDefine))
		if g.chance(12) { // a form that is only a datum does not end the sequence
			out = append(out, []V{Nil, false, true, Str(""), int64(0), list(S("quote"), Nil), list(S("quote"), S("a"))}[g.n(7)])
		}
	}
	return append(out, g.expr(t, d-1))
}

func (g *Gen) stmt(d int, allowDefine bool) V {
	ps := []production{
		{"s-tick", 3, func(d int) V { g.tick++; return list(S("vh-tick"), int64(g.tick), g.expr(tAny, d-1)) }},
		{"s-expr", 2, func(d int) V { return g.expr(tAny, d) }},
		{"s-foreach", 1, func(d int) V { return list(S("for-each"), g.fnExpr(1, d-1), g.expr(tList, d-1)) }},
		{"s-when", 1, func(d int) V {
			b := append([]V{S([]string{"when", "unless"}[g.n(2)]), g.expr(tBool, d-1)}, g.bodySeq(tAny, d-1, false)...)
			if g.chance(15) {
				b = append(b, Nil)
			}
			return listTail(b, Nil)
		}},
	}
	if g.noSet == 0 {
		ps = append(ps, production{"s-set", 4, func(d int) V { return g.setExpr(tInt, d) }},
			production{"s-setl", 2, func(d int) V { return g.setExpr(tList, d) }})
	}
	if allowDefine {
		ps = append(ps, production{"s-define", 3, func(d int) V { return g.defineForm(d) }})
	}
	return g.pick(ps, d)
}

func (g *Gen) setExpr(t ty, d int) V {
	vs := g.visible(plain(t))
	if len(vs) == 0 {
		return g.expr(t, d-1)
	}
	v := vs[g.n(len(vs))]
	return list(S("set!"), v.name, g.expr(t, d-1))
}

func (g *Gen) defineForm(d int) V {
	name := g.fresh()
	switch g.n(4) {
	case 0, 1:
		e := g.expr(tInt, d-1)
		g.add(gvar{name, tInt, -1, false, -1, 0})
		return list(S("define"), name, e)
	case 2:
		e := g.fixedList(0, d-1)
		if g.chance(70) {
			e = g.expr(tList, d-1)
		}
		g.add(gvar{name, tList, -1, false, -1, 0})
		return list(S("define"), name, e)
	default:
		return g.defineFn(name, d)
	}
}

func (g *Gen) params(k int) []Sym {
	var ps []Sym
	for len(ps) < k {
		n := g.fresh()
		dup := false
		for _, p := range ps {
			dup = dup || p == n
		}
		if !dup {
			ps = append(ps, n)
		}
	}
	return ps
}

func (g *Gen) lambdaParts(k int, rest bool, t ty, d int) (V, []V) {
	n := k
	if rest {
		n++
	}
	ps := g.params(n)
	g.push()
	var head []V
	for i := 0; i < k; i++ {
		g.add(gvar{ps[i], tInt, -1, false, -1, 0})
		head = append(head, ps[i])
	}
	var tail V = Nil
	if rest {
		g.add(gvar{ps[k], tList, -1, false, -1, 0})
		tail = ps[k]
	}
	b := g.bodySeq(t, d-1, true)
	g.pop()
	return listTail(head, tail), b
}

func (g *Gen) defineFn(name Sym, d int) V {
	k := g.n(4)
	rest := g.chance(g.w("rest", 15))
	if k == 0 && rest && !g.chance(50) {
		k = 1
	}
	p, b := g.lambdaParts(k, rest, tInt, d)
	g.add(gvar{name, tInt, k, rest, -1, 0})
	return cons(S("define"), cons(cons(name, p), listTail(b, Nil)))
}

// fnExpr: an expression denoting a function of exactly k ints returning an int
func (g *Gen) fnExpr(k int, d int) V {
	ps := []production{
		{"f-lambda", 5, func(d int) V {
			p, b := g.lambdaParts(k, false, tInt, d)
			return cons(S("lambda"), cons(p, listTail(b, Nil)))
		}},
		{"f-rest", 1, func(d int) V {
			if k == 0 { // (lambda args ...) is rejected by the interpreter
				p, b := g.lambdaParts(0, false, tInt, d)
				return cons(S("lambda"), cons(p, listTail(b, Nil)))
			}
			j := 1 + g.n(k)
			p, b := g.lambdaParts(j, true, tInt, d)
			return cons(S("lambda"), cons(p, listTail(b, Nil)))
		}},
	}
	vs := g.visible(func(v gvar) bool { return isFn(v) && (v.fn == k || v.rest && v.fn <= k) })
	if len(vs) > 0 {
		ps = append(ps, production{"f-var", 4, func(d int) V { return vs[g.n(len(vs))].name }})
	}
	ps = append(ps, production{"f-counter", 3, func(d int) V { // closure over a private mutable variable
		n := g.fresh()
		init := g.expr(tInt, d-1)
		g.push()
		g.add(gvar{n, tInt, -1, false, -1, 0})
		p, b := g.lambdaParts(k, false, tInt, d-1)
		g.pop()
		body := append([]V{list(S("set!"), n, list(S("+"), n, int64(1)))}, b...)
		// if a parameter shadows n the set! acts on the parameter: still well defined
		return list(S("let"), list(list(n, init)), cons(S("lambda"), cons(p, listTail(body, Nil))))
	}})
	ps = append(ps, production{"f-named", 1, func(d int) V {
		p, b := g.lambdaParts(k, false, tInt, d)
		return cons(S("named-lambda"), cons(cons(S("nl"), p), listTail(b, Nil)))
	}})
	if k >= 1 && k <= 3 {
		ps = append(ps, production{"f-prim", 1, func(d int) V {
			if k == 1 {
				return S([]string{"succ", "pred", "+", "*"}[g.n(4)])
			}
			return S([]string{"+", "*", "-"}[g.n(3)])
		}})
	}
	return g.pick(ps, d)
}

// predicate: function of one int returning a boolean
func (g *Gen) predExpr(d int) V {
	switch g.n(4) {
	case 0:
		return S([]string{"even?", "odd?", "zero?"}[g.n(3)])
	default:
		n := g.fresh()
		g.push()
		g.add(gvar{n, tInt, -1, false, -1, 0})
		b := g.expr(tBool, d-1)
		g.pop()
		return list(S("lambda"), list(n), list(S("not"), b))
	}
}

func (g *Gen) intExpr(d int) V {
	if d <= 0 || g.budget <= 0 {
		return g.leafInt()
	}
	ps := []production{
		{"leaf", 3, func(d int) V { return g.leafInt() }},
		{"arith", 6, func(d int) V {
			op := []string{"+", "*", "-"}[g.n(3)]
			k := 2 + g.n(3)
			a := append([]V{S(op)}, g.args(k, d)...)
			if g.chance(2) {
				a = g.more(a, 150)
			}
			return listTail(a, Nil)
		}},
		{"if", 3, func(d int) V { return list(S("if"), g.expr(tBool, d-1), g.expr(tInt, d-1), g.expr(tInt, d-1)) }},
		{"cond", 2, func(d int) V {
			out := []V{S("cond")}
			for i := 0; i < 1+g.n(3); i++ {
				out = append(out, listTail(append([]V{g.expr(tBool, d-1)}, g.bodySeq(tInt, d-1, false)...), Nil))
			}
			out = append(out, listTail(append([]V{S("else")}, g.bodySeq(tInt, d-1, false)...), Nil))
			return list(out...)
		}},
		{"case", 2, func(d int) V {
			out := []V{S("case"), g.expr(tInt, d-1)}
			for i := 0; i < 1+g.n(3); i++ {
				var ks []V
				for j := 0; j < 1+g.n(3); j++ {
					ks = append(ks, g.lit())
				}
				out = append(out, listTail(append([]V{list(ks...)}, g.bodySeq(tInt, d-1, false)...), Nil))
			}
			out = append(out, listTail(append([]V{S("else")}, g.bodySeq(tInt, d-1, false)...), Nil))
			return list(out...)
		}},
		{"let", 4, func(d int) V { return g.letForm(tInt, d) }},
		{"begin", 2, func(d int) V { return listTail(append([]V{S("begin")}, g.bodySeq(tInt, d-1, false)...), Nil) }},
		{"call", 5, func(d int) V {
			vs := g.visible(isFn)
			if len(vs) == 0 {
				k := g.n(4)
				return listTail(append([]V{g.fnExpr(k, d-1)}, g.args(k, d)...), Nil)
			}
			v := vs[g.n(len(vs))]
			k := v.fn
			if v.rest {
				k += g.n(4)
			}
			a := g.args(k, d)
			if v.rest && g.chance(4) {
				for n := g.n(250); n > 0; n-- {
					a = append(a, g.lit())
				}
			}
			return listTail(append([]V{v.name}, a...), Nil)
		}},
		{"restcall", 1, func(d int) V {
			// a function of a rest parameter that counts its arguments, the empty lists among them too
			k, n := g.n(3), g.n(6)
			if g.chance(15) {
				n = g.n(60)
			}
			ps := g.params(k + 2)
			call := []V{ps[k+1]}
			for i := 0; i < k; i++ {
				call = append(call, g.expr(tInt, d-1))
			}
			for i := 0; i < n; i++ {
				switch g.n(6) {
				case 0:
					call = append(call, list(S("cdr"), list(S("quote"), list(g.lit()))))
				case 1:
					call = append(call, list(S("quote"), Nil))
				case 2:
					call = append(call, g.chance(50))
				default:
					call = append(call, g.lit())
				}
			}
			head := []V{ps[k+1]}
			for _, p := range ps[:k] {
				head = append(head, p)
			}
			return list(S("let"), list(list(ps[k+1], g.lit())),
				list(S("define"), listTail(head, ps[k]), list(S("length"), ps[k])),
				listTail(call, Nil))
		}},
		{"calllambda", 2, func(d int) V {
			k := g.n(4)
			if g.chance(5) { // of many parameters, that hide the variables the operands use
				k = 4 + g.n(25)
				f := g.fnExpr(k, d-1)
				return listTail(append([]V{f}, g.leaves(k)...), Nil)
			}
			return listTail(append([]V{g.fnExpr(k, d-1)}, g.args(k, d)...), Nil)
		}},
		{"apply", 2, func(d int) V {
			k := 1 + g.n(3)
			if g.chance(10) { // many operands before the list
				k = 4 + g.n(40)
			}
			j := g.n(k + 1)
			if g.chance(20) {
				j = k
			}
			f := g.fnExpr(k, d-1)
			if k > 3 {
				l := g.fixedList(k-j, 0)
				return listTail(append([]V{S("apply"), f}, append(g.leaves(j), l)...), Nil)
			}
			a := g.args(j, d)
			l := g.fixedList(k-j, d-1)
			return listTail(append(append([]V{S("apply"), f}, a...), l), Nil)
		}},
		{"namedlet", 2, func(d int) V { return g.namedLet(d) }},
		{"do", 2, func(d int) V { return g.doLoop(d) }},
		{"fold", 2, func(d int) V {
			op := []string{"fold-left", "fold-right", "reduce", "reduce-left", "reduce-right"}[g.n(5)]
			return list(S(op), g.fnExpr(2, d-1), g.expr(tInt, d-1), g.expr(tList, d-1))
		}},
		{"length", 1, func(d int) V { return list(S("length"), g.expr(tList, d-1)) }},
		{"andor", 1, func(d int) V {
			op := []string{"and", "or"}[g.n(2)]
			k := 1 + g.n(3)
			if op == "and" { // all truthy until the last: ints are truthy
				return listTail(append([]V{S("and")}, g.args(k, d)...), Nil)
			}
			return list(S("or"), g.expr(tBool, d-1), g.expr(tInt, d-1))
		}},
		{"chain", 1, func(d int) V {
			out := []V{S("->"), g.expr(tInt, d-1)}
			for i := 0; i < 1+g.n(2); i++ {
				if g.chance(30) {
					out = append(out, S([]string{"succ", "pred"}[g.n(2)]))
				} else {
					out = append(out, list(S([]string{"+", "-", "*"}[g.n(3)]), g.expr(tInt, d-1)))
				}
			}
			return list(out...)
		}},
		{"tap", 1, func(d int) V {
			out := []V{S("=>"), g.expr(tInt, d-1)}
			for i := 0; i < 1+g.n(2); i++ {
				switch g.n(6) {
				case 0:
					out = append(out, list(S("list"), g.expr(tAny, d-1)))
				case 1:
					out = append(out, S([]string{"succ", "list", "zero?"}[g.n(3)]))
				case 2:
					out = append(out, list(g.fnExpr(1, d-1)))
				default:
					g.tick++
					out = append(out, list(S("vh-tick"), int64(g.tick)))
				}
			}
			return list(out...)
		}},
		{"onerror", 1, func(d int) V {
			n := g.fresh()
			g.push()
			g.add(gvar{n, tAny, -1, false, -1, 0})
			h := list(S("lambda"), list(n), g.expr(tInt, d-1))
			g.pop()
			var body V
			if g.chance(50) {
				body = g.failing(d - 1)
			} else {
				body = g.expr(tInt, d-1)
			}
			if g.chance(40) {
				g.push()
				s := cons(S("lambda"), cons(Nil, listTail(g.bodySeq(tInt, d-1, true), Nil)))
				g.pop()
				return list(S("on-error"), body, h, s)
			}
			return list(S("on-error"), body, h)
		}},
		{"fail", 0, func(d int) V { return g.failing(d) }},
		{"quasi", 1, func(d int) V {
			return list(S("fold-left"), S("+"), int64(0), g.quasiInts(d))
		}},
	}
	if g.noSet == 0 {
		ps = append(ps, production{"set", 3, func(d int) V { return g.setExpr(tInt, d) }})
	}
	ms := g.visible(isMac)
	if len(ms) > 0 {
		ps = append(ps, production{"macro", 4, func(d int) V {
			m := ms[g.n(len(ms))]
			return g.macroCall(m, d)
		}})
	}
	return g.pick(ps, d)
}

// failing: an expression that fails when evaluated (or has a failure inside)
func (g *Gen) failing(d int) V {
	g.tick++
	switch g.n(7) {
	case 0:
		return list(S("vh-fail"), int64(g.tick))
	case 1:
		return list(S("+"), g.expr(tInt, d-1), list(S("vh-fail"), int64(g.tick)), g.expr(tInt, d-1))
	case 2:
		return list(S("no-such-function"), g.expr(tInt, d-1))
	case 3:
		return list(S("+"), g.expr(tInt, d-1), list(S("quote"), S("sym")))
	case 4:
		return list(list(S("lambda"), list(S("q")), S("q")), g.expr(tInt, d-1), g.expr(tInt, d-1))
	case 5:
		return list(S("begin"), g.stmt(d-1, false), list(S("error"), Str("boom")), g.stmt(d-1, false))
	default:
		return list(S("set!"), S("never-defined"), g.expr(tInt, d-1))
	}
}

func (g *Gen) letForm(t ty, d int) V {
	kind := []string{"let", "let*", "letrec"}[g.n(3)]
	k := 1 + g.n(3)
	var bs []V
	outer := len(g.scopes)
	g.push()
	var names []Sym
	if kind == "letrec" {
		// bind functions only, possibly mutually visible
		names = g.params(k)
		var vs []gvar
		for _, n := range names {
			vs = append(vs, gvar{n, tInt, g.n(3), false, -1, 0})
		}
		for i, n := range names {
			// recursion is bounded by not making earlier names callable while generating (only those after are hidden)
			p, b := g.lambdaParts(vs[i].fn, false, tInt, d-1)
			bs = append(bs, list(n, cons(S("lambda"), cons(p, listTail(b, Nil)))))
			g.add(vs[i])
		}
		_ = outer
	} else {
		var pend []gvar
		used := map[Sym]bool{}
		for i := 0; i < k; i++ {
			n := g.fresh()
			if kind == "let" {
				for used[n] {
					g.nid++
					n = Sym(fmt.Sprintf("v%d", g.nid))
				}
			}
			used[n] = true
			var e V
			var v gvar
			switch g.n(4) {
			case 0:
				e = g.expr(tList, d-1)
				v = gvar{n, tList, -1, false, -1, 0}
			case 1:
				ar := g.n(3)
				e = g.fnExpr(ar, d-1)
				v = gvar{n, tInt, ar, false, -1, 0}
			default:
				e = g.expr(tInt, d-1)
				v = gvar{n, tInt, -1, false, -1, 0}
			}
			bs = append(bs, list(n, e))
			if kind == "let*" {
				g.add(v)
			} else {
				pend = append(pend, v)
			}
		}
		for _, v := range pend {
			g.add(v)
		}
	}
	b := g.bodySeq(t, d-1, true)
	g.pop()
	return cons(S(kind), cons(list(bs...), listTail(b, Nil)))
}

func (g *Gen) namedLet(d int) V {
	if g.loop >= 2 {
		return g.leafInt()
	}
	g.loop++
	defer func() { g.loop-- }()
	g.nid++
	name := Sym(fmt.Sprintf("loop%d", g.nid))
	if vs := g.visible(isFn); len(vs) > 0 && g.chance(30) { // the name hides a function that the initial values can use
		name = vs[g.n(len(vs))].name
	} else if g.chance(20) {
		name = g.fresh()
	}
	g.nid++
	cnt := Sym(fmt.Sprintf("k%d", g.nid))
	first := g.expr(tInt, d-1)
	var accs, inits []V
	var types []ty
	for i, n := 0, g.n(4); i < n; i++ {
		types = append(types, []ty{tInt, tInt, tList}[g.n(3)])
		inits = append(inits, g.expr(types[i], d-1))
		accs = append(accs, g.freshNot(append([]V{name}, accs...)))
	}
	g.push()
	g.add(gvar{name, tAny, -1, false, -1, 0})
	for i, a := range accs {
		g.add(gvar{a.(Sym), types[i], -1, false, -1, 0})
	}
	var steps []V
	for i := range accs {
		steps = append(steps, g.expr(types[i], d-1))
	}
	fin := g.expr(tInt, d-1)
	var st []V
	if g.chance(50) {
		st = append(st, g.stmt(d-1, false))
	}
	g.pop()
	lim := int64(1 + g.n(4))
	again := append([]V{name, list(S("+"), cnt, int64(1))}, steps...)
	body := append(st, list(S("if"), list(S(">="), cnt, lim), fin, list(again...)))
	var start V = int64(0)
	if g.chance(30) {
		start = list(S("*"), int64(0), first)
	}
	bs := []V{list(cnt, start)}
	for i := range accs {
		bs = append(bs, list(accs[i], inits[i]))
	}
	return cons(S("let"), cons(name, cons(list(bs...), listTail(body, Nil))))
}

// freshNot: a variable name (possibly shadowing) that is not among those given
func (g *Gen) freshNot(have []V) Sym {
	for i := 0; ; i++ {
		n := g.fresh()
		ok := true
		for _, h := range have {
			if h.(Sym) == n {
				ok = false
			}
		}
		if ok {
			return n
		}
		if i > 20 {
			g.nid++
			return Sym(fmt.Sprintf("u%d", g.nid))
		}
	}
}

func (g *Gen) doLoop(d int) V {
	if g.loop >= 2 {
		return g.leafInt()
	}
	g.loop++
	defer func() { g.loop-- }()
	g.nid++
	cnt := Sym(fmt.Sprintf("k%d", g.nid))
	var accs, inits []V
	var types []ty
	for i := 0; i < 1+g.n(4); i++ {
		types = append(types, []ty{tInt, tInt, tList}[g.n(3)])
		inits = append(inits, g.expr(types[i], d-1))
		if types[i] == tList && g.chance(30) {
			inits[i] = list(S("quote"), Nil)
		}
		accs = append(accs, g.freshNot(accs))
	}
	g.push()
	for i, a := range accs {
		g.add(gvar{a.(Sym), types[i], -1, false, -1, 0})
	}
	var binds []V
	for i := range accs {
		if g.chance(75) {
			binds = append(binds, list(accs[i], inits[i], g.expr(types[i], d-1)))
		} else {
			binds = append(binds, list(accs[i], inits[i]))
		}
	}
	k := g.n(len(binds) + 1) // position of the counter
	binds = append(binds[:k], append([]V{list(cnt, int64(0), list(S("+"), cnt, int64(1)))}, binds[k:]...)...)
	res := g.bodySeq(tInt, d-1, false)
	var body []V
	for i := 0; i < g.n(3); i++ {
		body = append(body, g.stmt(d-1, false))
	}
	g.pop()
	lim := int64(g.n(5))
	return cons(S("do"), cons(list(binds...),
		cons(listTail(append([]V{list(S(">="), cnt, lim)}, res...), Nil), listTail(body, Nil))))
}

func (g *Gen) boolExpr(d int) V {
	if d <= 0 || g.budget <= 0 {
		if g.chance(40) {
			return g.chance(50)
		}
		return list(S("<"), g.leafInt(), g.leafInt())
	}
	ps := []production{
		{"b-cmp", 5, func(d int) V {
			return list(S([]string{"<", ">", "<=", ">=", "==", "!="}[g.n(6)]), g.expr(tInt, d-1), g.expr(tInt, d-1))
		}},
		{"b-not", 1, func(d int) V { return list(S("not"), g.expr(tAny, d-1)) }},
		{"b-andor", 3, func(d int) V {
			out := []V{S([]string{"and", "or"}[g.n(2)])}
			for i := 0; i < g.n(4); i++ {
				out = append(out, g.expr([]ty{tBool, tBool, tList, tInt}[g.n(4)], d-1))
			}
			return list(out...)
		}},
		{"b-lit", 1, func(d int) V { return g.chance(50) }},
		{"b-any", 2, func(d int) V { return g.expr(tAny, d-1) }},
		{"b-anyevery", 1, func(d int) V {
			return list(S([]string{"any", "every"}[g.n(2)]), g.predExpr(d-1), g.expr(tList, d-1))
		}},
		{"b-nil", 1, func(d int) V { return list(S("nil?"), g.expr(tList, d-1)) }},
		{"b-member", 1, func(d int) V { return list(S("member"), g.expr(tInt, d-1), g.expr(tList, d-1)) }},
		{"b-eqlist", 1, func(d int) V { return list(S("equal?"), g.expr(tList, d-1), g.expr(tList, d-1)) }},
	}
	return g.pick(ps, d)
}

func (g *Gen) fixedList(k int, d int) V {
	if k == 0 && g.chance(40) { // the empty list as it is left over
		if g.chance(70) {
			return list(S("cdr"), list(S("quote"), list(g.lit())))
		}
		return list(S("cdr"), list(S("list"), g.expr(tInt, d-1)))
	}
	if g.chance(30) {
		var a []V
		for i := 0; i < k; i++ {
			a = append(a, g.lit())
		}
		return list(S("quote"), list(a...))
	}
	if g.chance(30) { // built with cons
		var e V = list(S("quote"), Nil)
		for i := 0; i < k; i++ {
			e = list(S("cons"), g.expr(tInt, d-1), e)
		}
		return e
	}
	a := append([]V{S("list")}, g.args(k, d)...)
	return listTail(a, Nil)
}

func (g *Gen) listExpr(d int) V {
	vs := g.visible(plain(tList))
	if d <= 0 || g.budget <= 0 {
		if len(vs) > 0 && g.chance(60) {
			return vs[g.n(len(vs))].name
		}
		return g.fixedList(g.n(4), 0)
	}
	ps := []production{
		{"l-fixed", 4, func(d int) V {
			if g.chance(2) {
				return listTail(g.more([]V{S("list")}, 150), Nil)
			}
			return g.fixedList(g.n(5), d)
		}},
		{"l-map", 3, func(d int) V {
			k := 1
			if g.chance(25) {
				k = 2 + g.n(2)
			}
			out := []V{S("map"), g.fnExpr(k, d-1)}
			for i := 0; i < k; i++ {
				out = append(out, g.expr(tList, d-1))
			}
			return list(out...)
		}},
		{"l-filter", 2, func(d int) V {
			return list(S([]string{"filter", "remove"}[g.n(2)]), g.predExpr(d-1), g.expr(tList, d-1))
		}},
		{"l-append", 2, func(d int) V {
			out := []V{S("append")}
			for i := 0; i < 1+g.n(3); i++ {
				out = append(out, g.expr(tList, d-1))
			}
			return list(out...)
		}},
		{"l-cons", 2, func(d int) V { return list(S("cons"), g.expr(tInt, d-1), g.expr(tList, d-1)) }},
		{"l-cdr", 1, func(d int) V { return list(S("cdr"), g.expr(tList, d-1)) }},
		{"l-rev", 1, func(d int) V { return list(S("reverse"), g.expr(tList, d-1)) }},
		{"l-if", 1, func(d int) V { return list(S("if"), g.expr(tBool, d-1), g.expr(tList, d-1), g.expr(tList, d-1)) }},
		{"l-quasi", 2, func(d int) V { return g.quasiInts(d) }},
		{"l-let", 2, func(d int) V { return g.letForm(tList, d) }},
		{"l-chain", 1, func(d int) V {
			return list(S("->"), g.expr(tList, d-1), S("reverse"), list(S("append"), g.expr(tList, d-1)))
		}},
	}
	if len(vs) > 0 {
		ps = append(ps, production{"l-var", 4, func(d int) V { return vs[g.n(len(vs))].name }})
		if g.noSet == 0 {
			ps = append(ps, production{"l-set", 1, func(d int) V { return g.setExpr(tList, d) }})
		}
	}
	return g.pick(ps, d)
}

func (g *Gen) quasiInts(d int) V {
	var out []V
	for i := 0; i < 1+g.n(4); i++ {
		switch g.n(3) {
		case 0:
			out = append(out, g.lit())
		case 1:
			out = append(out, list(S("unquote"), g.expr(tInt, d-1)))
		default:
			out = append(out, list(S("unquote-splicing"), g.expr(tList, d-1)))
		}
	}
	return list(S("quasiquote"), list(out...))
}

// macros: a few shapes whose expansion uses the argument forms 0, 1 or 2 times
func (g *Gen) defMacro(d int) V {
	g.nid++
	name := Sym(fmt.Sprintf("mac%d", g.nid))
	uq := func(s Sym) V { return list(S("unquote"), s) }
	k := g.n(6)
	var ps V
	var tmpl V
	ar := 2
	switch k {
	case 0: // swap the operands
		ps, tmpl = list(S("p"), S("q")), list(S("-"), uq("q"), uq("p"))
	case 1: // use the first twice, the second never
		ps, tmpl = list(S("p"), S("q")), list(S("+"), uq("p"), uq("p"))
	case 2: // conditional use
		ps, tmpl = list(S("p"), S("q")), list(S("if"), list(S("<"), uq("p"), int64(5)), uq("q"), int64(-1))
	case 3: // rest splice
		ps, tmpl = listTail([]V{S("p")}, S("r")), list(S("+"), uq("p"), list(S("unquote-splicing"), S("r")))
	case 4: // binds a name around its body
		ps, tmpl = list(S("p"), S("q")), list(S("let"), list(list(S("zz"), uq("p"))), list(S("*"), S("zz"), uq("q")))
	case 5: // computes during expansion
		ps, tmpl = listTail([]V{S("p")}, S("r")), list(S("begin"), list(S("unquote-splicing"), list(S("reverse"), S("r"))), uq("p"))
	}
	g.add(gvar{name, tInt, -1, k == 3 || k == 5, ar, k})
	return list(S("defmacro"), cons(name, ps), list(S("quasiquote"), tmpl))
}

func (g *Gen) macroCall(m gvar, d int) V {
	k := 2
	if m.rest {
		k = 1 + g.n(4)
	}
	return listTail(append([]V{m.name}, g.args(k, d)...), Nil)
}

// Program: a sequence of top-level forms.
func (g *Gen) Program(forms, depth int) []V {
	var out []V
	for i := 0; i < forms; i++ {
		g.budget = 60 + g.n(80)
		switch {
		case g.chance(g.w("top-macro", 10)):
			out = append(out, g.defMacro(depth))
		case g.chance(25):
			out = append(out, g.defineFn(g.fresh(), depth))
		case g.chance(25):
			out = append(out, g.defineForm(depth))
		default:
			out = append(out, g.expr([]ty{tInt, tInt, tInt, tList, tAny}[g.n(5)], depth))
		}
	}
	return out
}
