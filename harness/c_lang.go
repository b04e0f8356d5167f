package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C04: evaluation order and control flow -------------------------------------

// values used to probe truthiness; the reference says which are false
var probeValues = []V{false, true, Nil, int64(0), int64(1), int64(-1), float32(0), Str(""), Str("x"), Sym("sy"),
	list(int64(1)), list(Nil), list(false), cons(int64(1), int64(2)), Str("#f"), list(list(int64(0))), &Bytes{nil}, &Bytes{[]byte{0}}, Sym("nil"),
	int64(1 << 32), int64(1<<32 + 1), int64(1<<63 - 1), float32(1), float32(-1), Sym("else"), Str("else"), Str("sy"), list(int64(1 << 32)), list(int64(1), int64(2))}

func q(v V) V {
	switch v.(type) {
	case Sym, *Pair, NilT:
		return list(S("quote"), v)
	}
	return v
}

type ticker struct{ n int }

func (t *ticker) tk(e V) V { t.n++; return list(S("vh-tick"), int64(t.n), e) }

// controlForm: a random control form over arbitrary-typed ticked operands
func controlForm(g *Gen, t *ticker, d int) V {
	val := func() V {
		if d > 0 && g.chance(45) {
			return t.tk(controlForm(g, t, d-1))
		}
		return t.tk(q(probeValues[g.n(len(probeValues))]))
	}
	many := func(n int) int { // now and then a long one
		if d <= 1 && g.chance(3) {
			return n + g.n(40)
		}
		return n
	}
	body := func(min int) []V {
		var b []V
		for i, n := 0, many(min+g.n(3)); i < n; i++ {
			if b = append(b, val()); g.chance(6) { // a form that is only a datum
				b[i] = []V{Nil, false, int64(3), Str("d"), q(Sym("sy"))}[g.n(5)]
			}
		}
		return b
	}
	clause := func(h V, b []V) V { return listTail(append([]V{h}, b...), Nil) }
	switch g.n(14) {
	case 0:
		return list(S("if"), val(), val(), val())
	case 1:
		return list(S("if"), val(), val())
	case 2:
		out := []V{S("cond")}
		for i, n := 0, many(1+g.n(4)); i < n; i++ {
			out = append(out, clause(val(), body(1)))
		}
		if g.chance(50) {
			out = append(out, clause(S("else"), body(1)))
		}
		return list(out...)
	case 3:
		out := []V{S("case"), val()}
		for i, n := 0, many(1+g.n(4)); i < n; i++ {
			var ks []V
			for j, n := 0, many(1+g.n(3)); j < n; j++ {
				ks = append(ks, probeValues[g.n(len(probeValues))])
			}
			out = append(out, clause(list(ks...), body(1)))
		}
		if g.chance(50) {
			out = append(out, clause(S("else"), body(1)))
		}
		return list(out...)
	case 4:
		return clause(S("when"), append([]V{val()}, body(1)...))
	case 5:
		return clause(S("unless"), append([]V{val()}, body(1)...))
	case 6:
		return clause(S("and"), body(0))
	case 7:
		return clause(S("or"), body(0))
	case 8:
		return clause(S("begin"), body(1))
	case 9: // let forms evaluate each initialiser once, in order
		k := []string{"let", "let*"}[g.n(2)]
		var bs []V
		for i, n := 0, many(g.n(4)); i < n; i++ {
			bs = append(bs, list(S(fmt.Sprintf("lv%d", i)), val()))
		}
		return clause(S(k), append([]V{list(bs...)}, body(1)...))
	case 10: // a loop with a side-effecting test, steps and body
		n := int64(many(g.n(5)))
		c := S(fmt.Sprintf("dk%d", d))
		a := S(fmt.Sprintf("da%d", d))
		bs := []V{list(c, t.tk(int64(0)), t.tk(list(S("+"), c, int64(1))))}
		if g.chance(60) {
			bs = append(bs, list(a, val(), t.tk(list(S("list"), c, a))))
		}
		if g.chance(30) {
			bs = append(bs, list(S("dc"), val()))
		}
		if g.chance(40) { // steps see the values of the previous iteration
			x, y := S(fmt.Sprintf("dx%d", d)), S(fmt.Sprintf("dy%d", d))
			bs = append(bs, list(x, val(), t.tk([]V{y, c}[g.n(2)])), list(y, val(), t.tk([]V{x, list(S("list"), x, c)}[g.n(2)])))
			g.R.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
		}
		return clause(S("do"), append([]V{list(bs...), clause(t.tk(list(S(">="), c, n)), append(body(0), t.tk(c)))}, body(0)...))
	case 11: // named let, counting down
		c := S(fmt.Sprintf("nk%d", d))
		l := S(fmt.Sprintf("nl%d", d))
		return list(S("let"), l, list(list(c, t.tk(int64(many(g.n(5))))), list(S("nacc"), val())),
			list(S("if"), t.tk(list(S("=="), c, int64(0))), val(), list(l, t.tk(list(S("-"), c, int64(1))), t.tk(list(S("list"), c, S("nacc"))))))
	case 12: // operands of a call
		return clause(S("list"), body(0))
	default:
		op := []string{"->", "=>"}[g.n(2)]
		out := []V{S(op), val()}
		for i, n := 0, many(1+g.n(3)); i < n; i++ {
			switch g.n(4) {
			case 0:
				out = append(out, list(S("list"), val()))
			case 1:
				t.n++
				out = append(out, list(S("cons"), list(S("vh-tick"), int64(t.n), int64(7))))
			case 2:
				out = append(out, S("list"))
			default:
				out = append(out, list(S("list")))
			}
		}
		return list(out...)
	}
}

func init() {
	register(&Check{
		ID: "C04", Setup: setupPrims, Need: []string{"programs", "events"},
		Rule: "random programs built from control forms whose every operand records an event, over operands of all types, run in the interpreter and in an independent reference; result and complete event sequence are compared; non-trivial: at least one event, distinct by program text",
		Phases: []Phase{
			{Name: "control", Quick: 15000, Thorough: 200000, Run: func(c *Case) {
				g := newGen(c.R, nil)
				t := &ticker{}
				var prog []V
				for i := 0; i < 1+g.n(3); i++ {
					prog = append(prog, controlForm(g, t, 1+g.n(3)))
				}
				diffProgram(c, prog)
			}},
			progPhase("programs", 6000, 80000, map[string]int{"tick": 60, "cond": 6, "case": 6, "if": 5, "andor": 5, "do": 6, "namedlet": 6, "chain": 4, "tap": 4, "begin": 4, "b-andor": 6, "s-when": 4, "l-chain": 4}, 4, 5),
		},
	})

	// ---- C05 -------------------------------------------------------------------
	register(&Check{
		ID: "C05", Setup: setupC05, Need: []string{"programs", "events", "calls_right", "calls_wrong", "host_calls"},
		Rule: "functions, closures, macros and host built-ins of every parameter shape called with 0..8 arguments through each calling route (direct, variable, apply, map, fold, thread, list element, returned closure, Go API); every argument records its evaluation and the callee records what it received; compared with the reference binding rule; non-trivial: at least one event, distinct by program text",
		Phases: []Phase{
			{Name: "routes", Quick: 12000, Thorough: 150000, Run: c05Routes},
			{Name: "host", Quick: 3000, Thorough: 30000, Run: c05Host},
			progPhase("programs", 4000, 60000, map[string]int{"call": 14, "calllambda": 8, "apply": 8, "rest": 40, "f-rest": 6, "fold": 4, "l-map": 6, "top-macro": 20, "macro": 8}, 5, 5),
		},
	})

	// ---- C06 -------------------------------------------------------------------
	register(&Check{
		ID: "C06", Setup: setupPrims, Need: []string{"programs", "templates", "macros", "events"},
		Rule: "random quasiquote templates (nested levels, unquote and splicing at every level and position, dotted tails, empty lists) and random macros (templates using each parameter 0..3 times, rest parameters, locals of caller and macro) compared with the reference expansion; non-trivial: template contains an unquote, distinct by text",
		Phases: []Phase{
			{Name: "templates", Quick: 12000, Thorough: 150000, Run: c06Template},
			{Name: "macros", Quick: 8000, Thorough: 100000, Run: c06Macro},
			progPhase("programs", 4000, 60000, map[string]int{"top-macro": 45, "macro": 14, "quasi": 8, "l-quasi": 8}, 5, 5),
		},
	})

	// ---- C07 -------------------------------------------------------------------
	register(&Check{
		ID: "C07", Setup: setupPrims, Need: []string{"programs", "forms_failing", "handlers", "injected"},
		Rule: "random programs with failures injected at a chosen evaluation point (each sub-expression in turn) plus on-error with and without handlers, followed by further use of the same environment; success/failure, value, event order and later state are compared with the reference; non-trivial: an event was recorded, distinct by text",
		Phases: []Phase{
			{Name: "inject", Quick: 12000, Thorough: 150000, Run: c07Inject},
			{Name: "handlers", Quick: 5000, Thorough: 60000, Run: c07Handlers},
			progPhase("programs", 5000, 60000, map[string]int{"fail": 3, "onerror": 10, "set": 5, "s-set": 6}, 5, 5),
		},
	})

	// ---- C12 -------------------------------------------------------------------
	register(&Check{
		ID: "C12", Setup: setupPrims, Need: []string{"programs", "events", "hof_fail"},
		Rule: "every higher-order function applied to random lists (empty to 12 elements, several of different lengths, elements of mixed types) with functions that record each call - user functions, closures, built-ins, functions failing at the k-th call, predicates true at chosen positions; value and exact call sequence compared with the reference; non-trivial: at least one recorded call, distinct by text",
		Phases: []Phase{
			{Name: "hof", Quick: 24000, Thorough: 300000, Run: c12HOF},
			{Name: "sort", Quick: 3000, Thorough: 40000, Run: c12Sort},
			progPhase("programs", 4000, 60000, map[string]int{"fold": 12, "l-map": 12, "l-filter": 10, "b-anyevery": 10, "s-foreach": 8}, 4, 5),
		},
	})
}

// host functions with every kind of arity restriction
var hostArity = []struct {
	name, spec string
	ok         func(n int) bool
}{
	{"vh-a0", "0", func(n int) bool { return n == 0 }},
	{"vh-a1", "1", func(n int) bool { return n == 1 }},
	{"vh-a3", "3", func(n int) bool { return n == 3 }},
	{"vh-a13", "1|3", func(n int) bool { return n == 1 || n == 3 }},
	{"vh-a024", "0|2|4", func(n int) bool { return n == 0 || n == 2 || n == 4 }},
	{"vh-a2up", ">=2", func(n int) bool { return n >= 2 }},
	{"vh-a1to4", "(1,4)", func(n int) bool { return n >= 1 && n <= 4 }},
	{"vh-any", "*", func(n int) bool { return true }},
}

func setupC05() {
	setupPrims()
	for _, h := range hostArity {
		nm := h.name
		golisp.MakePrimitiveFunction(nm, h.spec, func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			rec.add(nm + "(" + argsCanon(args) + ")")
			return golisp.IntegerWithValue(int64(golisp.Length(args))), nil
		})
	}
}

func c05Host(c *Case) {
	h := hostArity[c.R.Intn(len(hostArity))]
	n := c.R.Intn(7)
	var args, vals []string
	for i := 0; i < n; i++ {
		v := probeValues[c.R.Intn(len(probeValues))]
		args = append(args, fmt.Sprintf("(vh-tick %d %s)", i, show(q(v))))
		vals = append(vals, canon(v))
	}
	var src string
	route := c.R.Intn(4)
	switch route {
	case 0:
		src = "(" + h.name + " " + strings.Join(args, " ") + ")"
	case 1:
		k := 0
		if n > 0 {
			k = c.R.Intn(n + 1)
		}
		src = "(apply " + h.name + " " + strings.Join(args[:k], " ") + " (list " + strings.Join(args[k:], " ") + "))"
	case 2:
		src = "((lambda (f) (f " + strings.Join(args, " ") + ")) " + h.name + ")"
	case 3:
		src = "(begin (define al " + h.name + ") (al " + strings.Join(args, " ") + "))"
	}
	c.Desc("%s", src)
	env := freshEnv()
	rec.take()
	r, err := evalText(src, env)
	tr := rec.take()
	body := ""
	ticks := 0
	for _, e := range tr {
		if strings.HasPrefix(e, "vh-a") {
			body += e + ";"
		} else {
			ticks++
		}
	}
	c.Count("host_calls", 1)
	c.Count("events", len(tr))
	c.Distinct(src)
	if h.ok(n) {
		want := h.name + "(" + strings.Join(vals, " ") + ");"
		if err != nil || body != want || ticks != n || golisp.IntegerValue(r) != int64(n) {
			c.Fail("host:"+src, "built-in with arity %s called with %d arguments: body calls %q want %q, result %s err %v", h.spec, n, body, want, golisp.String(r), err)
		}
	} else if err == nil || body != "" {
		c.Fail("host:"+src, "built-in with arity %s called with %d arguments: expected an error without running, got %s, body calls %q", h.spec, n, golisp.String(r), body)
	}
}

func c05Routes(c *Case) {
	g := newGen(c.R, nil)
	t := &ticker{}
	k := g.n(5)
	rest := g.chance(45)
	ps := []V{}
	if g.chance(10) {
		k = 5 + g.n(40)
	}
	names := []Sym{}
	for i := 1; i <= k; i++ {
		names = append(names, Sym(fmt.Sprintf("p%d", i)))
	}
	var bodyArgs []V
	for i := 0; i < k; i++ {
		ps = append(ps, names[i])
		bodyArgs = append(bodyArgs, names[i])
	}
	var tail V = Nil
	if rest {
		tail = S("more")
		bodyArgs = append(bodyArgs, S("more"))
	}
	n := k
	switch g.n(4) {
	case 0:
		n = g.n(8)
	case 1:
		if rest {
			n = k + g.n(4)
			if g.chance(20) {
				n = k + g.n(200)
			}
		}
	}
	right := n == k || rest && n >= k
	if right {
		c.Count("calls_right", 1)
	} else {
		c.Count("calls_wrong", 1)
	}
	body := list(S("vh-tick"), int64(1000), listTail(append([]V{S("list")}, bodyArgs...), Nil))
	plist := listTail(ps, tail)
	var prog []V
	var f V = S("fun")
	lam := V(nil)
	if k > 0 || !rest {
		lam = list(S("lambda"), plist, body)
	}
	if lam == nil || g.chance(50) {
		prog = append(prog, list(S("define"), cons(S("fun"), plist), body))
	} else {
		switch g.n(4) {
		case 0:
			prog = append(prog, list(S("define"), S("fun"), lam))
		case 1: // closure returned by a function
			prog = append(prog, list(S("define"), list(S("maker"), S("captured")), lam), list(S("define"), S("fun"), list(S("maker"), int64(5))))
		case 2:
			prog = append(prog, list(S("define"), S("fun"), list(S("named-lambda"), cons(S("other"), plist), body)))
		case 3:
			prog = append(prog, list(S("define"), S("fun"), Nil), list(S("set!"), S("fun"), lam))
		}
	}
	outer := g.chance(50) // variables of the caller have the names of parameters
	if outer {
		for i := 1; i <= k && i < 40; i += 1 + g.n(3) {
			prog = append(prog, list(S("define"), S(fmt.Sprintf("p%d", i)), q(probeValues[g.n(len(probeValues))])))
		}
	}
	arg := func() V {
		if outer && g.chance(40) {
			return t.tk(S(fmt.Sprintf("p%d", 1+g.n(k+1))))
		}
		return t.tk(q(probeValues[g.n(len(probeValues))]))
	}
	var as []V
	for i := 0; i < n; i++ {
		as = append(as, arg())
	}
	app := func(h ...V) V { return listTail(append(h, as...), Nil) }
	switch g.n(9) {
	case 0, 1:
		prog = append(prog, app(f))
	case 2:
		j := g.n(n + 1)
		l := listTail(append([]V{S("list")}, as[j:]...), Nil)
		prog = append(prog, listTail(append(append([]V{S("apply"), f}, as[:j]...), l), Nil))
	case 3:
		if n == 0 {
			n = 1
			as = append(as, arg())
		}
		out := []V{S("map"), f}
		m := g.n(4)
		for i := 0; i < n; i++ {
			l := []V{S("list")}
			for j := 0; j < m+g.n(2); j++ {
				l = append(l, arg())
			}
			out = append(out, list(l...))
		}
		prog = append(prog, list(out...))
	case 4: // stored in a list
		prog = append(prog, list(S("define"), S("holder"), list(S("list"), int64(1), f)), listTail(append([]V{list(S("cadr"), S("holder"))}, as...), Nil))
	case 5: // through ->
		if n == 0 {
			as = append(as, arg())
		}
		prog = append(prog, list(S("->"), as[0], listTail(append([]V{f}, as[1:]...), Nil)))
	case 6: // passed as a parameter
		prog = append(prog, list(list(S("lambda"), list(S("ff")), listTail(append([]V{S("ff")}, as...), Nil)), f))
	case 7: // through a macro that reorders nothing
		prog = append(prog, list(S("defmacro"), listTail([]V{S("viam"), S("fn")}, S("xs")), list(S("quasiquote"), listTail([]V{list(S("unquote"), S("fn")), list(S("unquote-splicing"), S("xs"))}, Nil))),
			app(S("viam"), f))
	case 8: // a macro's own parameters bind positionally
		prog = append(prog, list(S("defmacro"), cons(S("mm"), plist), list(S("quasiquote"), list(S("quote"), listTail(func() []V {
			var u []V
			for _, b := range bodyArgs {
				u = append(u, list(S("unquote"), b))
			}
			return append(u, int64(0))
		}(), Nil)))), app(S("mm")))
	}
	// state after the call: parameters of one call do not leak into the next
	if right && g.chance(40) {
		prog = append(prog, app(f), S("p1"), S("more"))
	}
	diffProgram(c, prog)
}

// ---- C06 ---------------------------------------------------------------------------

func c06Template(c *Case) {
	g := newGen(c.R, nil)
	t := &ticker{}
	hasUq := 0
	var tmpl func(d, level int) V
	exprFor := func(level int, splice bool) V {
		// an expression evaluated when level==1
		if splice {
			switch g.n(5) {
			case 0:
				return S("lv")
			case 1:
				return list(S("quote"), Nil)
			case 2:
				return t.tk(list(S("list"), int64(g.n(9)), S("iv")))
			case 3:
				return t.tk(list(S("quote"), list(int64(1), list(int64(2)), Str("s"))))
			}
			return list(S("append"), S("lv"), S("lv"))
		}
		switch g.n(6) {
		case 0:
			return S("iv")
		case 1:
			return S("lv")
		case 2:
			return t.tk(list(S("+"), S("iv"), int64(g.n(9))))
		case 3:
			return t.tk(q(probeValues[g.n(len(probeValues))]))
		case 4:
			return list(S("quote"), list(S("iv"), Str("lit")))
		}
		return list(S("cons"), S("iv"), t.tk(S("lv")))
	}
	tmpl = func(d, level int) V {
		if d <= 0 {
			return []V{int64(g.n(10)), S("sym"), Str("str"), Nil, S("iv"), true, S("quote"), float32(1.5)}[g.n(8)]
		}
		switch g.n(10) {
		case 0, 1, 2, 3, 4:
			var out []V
			for i := 0; i < g.n(5); i++ {
				if g.chance(22) {
					hasUq++
					if level == 1 {
						out = append(out, list(S("unquote-splicing"), exprFor(level, true)))
					} else {
						out = append(out, list(S("unquote-splicing"), tmpl(d-1, level-1)))
					}
					continue
				}
				out = append(out, tmpl(d-1, level))
			}
			if len(out) > 0 && g.chance(15) {
				if g.chance(50) {
					return listTail(out, []V{int64(3), S("tl"), Str("t")}[g.n(3)])
				}
				if level == 1 {
					hasUq++
					return listTail(out, list(S("unquote"), []V{S("iv"), S("lv"), t.tk(S("iv"))}[g.n(3)]))
				}
			}
			return list(out...)
		case 5, 6, 7:
			hasUq++
			if level == 1 {
				return list(S("unquote"), exprFor(level, false))
			}
			return list(S("unquote"), tmpl(d-1, level-1))
		case 8:
			if level >= 8 {
				return int64(0)
			}
			return list(S("quasiquote"), tmpl(d-1, level+1))
		default:
			return list(S("quote"), tmpl(d-1, level))
		}
	}
	var body V
	if g.chance(10) { // many levels in, and out of them again
		m := 2 + g.n(6)
		var e V = exprFor(1, false)
		for l := 1; l <= m; l++ {
			hasUq++
			e = list(S("unquote"), e)
			if g.chance(30) {
				e = list(tmpl(1, l), e)
			}
		}
		for l := m; l > 1; l-- {
			e = list(S("quasiquote"), e)
			if g.chance(30) {
				e = list(S("y"), e, tmpl(1, l-1))
			}
		}
		body = e
		c.Count("deep_templates", 1)
	} else {
		body = tmpl(1+g.n(5), 1)
	}
	prog := []V{
		list(S("define"), S("iv"), int64(g.n(100))),
		list(S("define"), S("lv"), q([]V{Nil, list(int64(4)), list(int64(5), Str("e"), list(S("x")))}[g.n(3)])),
		list(S("quasiquote"), body),
	}
	if hasUq > 0 {
		c.Count("templates", 1)
		if diffProgram(c, prog) {
			c.Distinct(show(prog[2]))
		}
	}
}

func c06Macro(c *Case) {
	g := newGen(c.R, nil)
	t := &ticker{}
	// a macro whose template uses its parameters a random number of times in random positions
	k := 1 + g.n(3)
	rest := g.chance(35)
	names := []Sym{"m1", "m2", "m3"}
	var ps []V
	for i := 0; i < k; i++ {
		ps = append(ps, names[i])
	}
	var tail V = Nil
	if rest {
		tail = S("mr")
	}
	var tm func(d int) V
	leaf := func() V {
		if g.chance(70) {
			return list(S("unquote"), names[g.n(k)])
		}
		return []V{int64(g.n(10)), S("cv"), Str("z")}[g.n(3)]
	}
	tm = func(d int) V {
		if d <= 0 {
			return leaf()
		}
		switch g.n(9) {
		case 0:
			return list(S("list"), tm(d-1), tm(d-1))
		case 1:
			return list(S("if"), tm(d-1), tm(d-1), tm(d-1))
		case 2:
			return list(S("let"), list(list(S("loc"), tm(d-1))), list(S("list"), S("loc"), tm(d-1)))
		case 3:
			return list(S("begin"), tm(d-1), tm(d-1))
		case 4:
			if rest {
				return list(S("list"), list(S("unquote-splicing"), S("mr")), tm(d-1))
			}
			return leaf()
		case 5:
			return list(S("quote"), list(S("unquote"), names[g.n(k)]))
		case 6:
			return list(S("set!"), S("cv"), tm(d-1))
		case 7: // computed at expansion time
			return list(S("unquote"), list(S("list"), list(S("quote"), S("list")), names[g.n(k)], list(S("quote"), S("cv"))))
		default:
			return leaf()
		}
	}
	tmpl := tm(1 + g.n(3))
	// the macro lives in an environment where the caller's names mean something else
	var call []V
	na := k
	if rest {
		na = k + g.n(3)
		if g.chance(8) {
			na = k + g.n(120)
		}
	}
	if g.chance(8) {
		na = g.n(6)
	}
	for i := 0; i < na; i++ {
		switch g.n(6) {
		case 5:
			call = append(call, []V{Nil, Nil, false, Str("lit"), int64(3), q(Nil)}[g.n(6)])
		case 0:
			call = append(call, t.tk(list(S("+"), S("cv"), int64(1))))
		case 1:
			call = append(call, t.tk(q(probeValues[g.n(len(probeValues))])))
		case 2:
			call = append(call, S("cv"))
		case 3:
			call = append(call, list(S("set!"), S("cv"), t.tk(int64(g.n(50)))))
		default:
			call = append(call, list(S("begin"), t.tk(int64(g.n(50)))))
		}
	}
	mcall := listTail(append([]V{S("mac")}, call...), Nil)
	ecall := listTail(append([]V{S("expand"), S("mac")}, call...), Nil)
	prog := []V{
		list(S("define"), S("cv"), int64(11)),
		list(S("defmacro"), cons(S("mac"), listTail(ps, tail)), list(S("quasiquote"), tmpl)),
		ecall, mcall, S("cv"),
		list(S("let"), list(list(S("cv"), int64(77)), list(S("m1"), int64(88))), mcall, S("cv")),
		list(list(S("lambda"), list(S("cv")), mcall), int64(5)),
		S("cv"),
	}
	switch g.n(6) {
	case 0: // the macro gets another definition: the same template, other parameters
		if k > 1 {
			ps[0], ps[k-1] = ps[k-1], ps[0]
			prog = append(prog, list(S("defmacro"), cons(S("mac"), listTail(ps, tail)), list(S("quasiquote"), tmpl)), ecall, mcall, S("cv"))
		}
	case 1: // another template, then the first one again
		prog = append(prog, list(S("defmacro"), cons(S("mac"), listTail(ps, tail)), list(S("quasiquote"), tm(2))), ecall, mcall, S("cv"), prog[1], ecall, mcall)
	case 2: // the same definition in an inner scope, where its free names mean something else
		prog = append(prog, list(S("let"), list(list(S("cv"), int64(99)), list(S("list"), list(S("lambda"), listTail([]V{S("ax")}, S("ay")), list(S("cons"), Str("inner"), S("ay"))))), prog[1], mcall, ecall), mcall)
	case 3: // an expansion that defines a function, and closes over where it is used
		d := list(S("defmacro"), list(S("defit")), list(S("quote"), list(S("define"), list(S("getcv")), S("cv"))))
		e := list(S("defmacro"), list(S("fnit")), list(S("quote"), list(S("lambda"), list(S("zz")), list(S("list"), S("zz"), S("cv")))))
		prog = append(prog, d, e, list(S("defit")), list(S("define"), S("f1"), list(S("fnit"))),
			list(S("define"), S("f2"), list(S("let"), list(list(S("cv"), int64(5))), list(S("fnit")))),
			list(S("define"), S("g2"), list(S("let"), list(list(S("cv"), int64(6))), list(S("defit")), S("getcv"))),
			list(S("define"), S("f3"), list(list(S("lambda"), list(S("cv")), list(S("fnit"))), int64(7))),
			list(S("set!"), S("cv"), int64(8)),
			list(S("list"), list(S("getcv")), list(S("f1"), int64(1)), list(S("f2"), int64(1)), list(S("g2")), list(S("f3"), int64(1))))
	}
	c.Count("macros", 1)
	diffProgram(c, prog)
	// expand followed by eval gives the same as the call
	txt := show(mcall)
	run := func(src string) (string, []string) {
		env := freshEnv()
		for _, f := range prog[:2] {
			if _, err := evalText(show(f), env); err != nil {
				return "setup " + err.Error(), nil
			}
		}
		rec.take()
		r, err := evalText(src, env)
		return showOutcome(r, err), rec.take()
	}
	a, ta := run(txt)
	b, tb := run("(eval " + show(ecall) + " (the-environment))")
	if a != b || strings.Join(ta, ";") != strings.Join(tb, ";") {
		c.Fail("expand:"+txt+show(prog[1]), "macro %s\ncall %s gives %s %v\nexpand+eval gives %s %v", show(prog[1]), txt, a, ta, b, tb)
	}
}

// ---- C07 ---------------------------------------------------------------------------

// countSites counts the evaluation positions of a program produced from ticked forms.
func injectAt(e V, k *int) V {
	p, ok := e.(*Pair)
	if !ok {
		return e
	}
	if p.A == Sym("quote") || p.A == Sym("quasiquote") {
		return e
	}
	if p.A == Sym("vh-tick") {
		*k--
		if *k == 0 {
			it := elems(e)
			if len(it) == 3 {
				return list(S("vh-fail"), it[1], it[2])
			}
			return list(S("vh-fail"), it[1])
		}
	}
	if p.A == Sym("lambda") || p.A == Sym("define") || p.A == Sym("set!") || p.A == Sym("defmacro") {
		it := elems(e)
		for i := 2; i < len(it); i++ {
			it[i] = injectAt(it[i], k)
		}
		return list(it...)
	}
	out := []V{}
	var t V = p
	for {
		qq, ok := t.(*Pair)
		if !ok {
			break
		}
		out = append(out, injectAt(qq.A, k))
		t = qq.D
	}
	return listTail(out, t)
}

func countTicks(e V) int {
	p, ok := e.(*Pair)
	if !ok || p.A == Sym("quote") || p.A == Sym("quasiquote") {
		return 0
	}
	n := 0
	if p.A == Sym("vh-tick") {
		n = 1
	}
	for _, x := range elems(e) {
		n += countTicks(x)
	}
	return n
}

func c07Inject(c *Case) {
	g := newGen(c.R, map[string]int{"tick": 50})
	t := &ticker{}
	var prog []V
	prog = append(prog, list(S("define"), S("acc"), int64(0)))
	prog = append(prog, list(S("define"), list(S("bump"), S("x")), list(S("set!"), S("acc"), list(S("+"), S("acc"), S("x")))))
	var f V
	if g.chance(60) {
		f = controlForm(g, t, 1+g.n(3))
	} else {
		g.push()
		g.add(gvar{"acc", tInt, -1, false, -1, 0})
		g.budget = 60
		f = g.expr(tInt, 4)
	}
	n := countTicks(f)
	if n == 0 {
		return
	}
	k := 1 + g.n(n)
	f = injectAt(f, &k)
	c.Count("injected", 1)
	switch g.n(6) {
	case 0:
		prog = append(prog, f)
	case 1:
		prog = append(prog, list(S("begin"), list(S("bump"), int64(1)), f, list(S("bump"), int64(100))))
	case 2:
		prog = append(prog, list(S("on-error"), list(S("begin"), list(S("bump"), int64(1)), f, list(S("bump"), int64(100))),
			list(S("lambda"), list(S("e")), list(S("vh-tick"), int64(900), list(S("bump"), int64(10))))))
	case 3:
		prog = append(prog, list(S("on-error"), f,
			list(S("lambda"), list(S("e")), list(S("vh-tick"), int64(901)), S("acc")),
			list(S("lambda"), Nil, list(S("vh-tick"), int64(902)), list(S("bump"), int64(5)))))
	case 4: // inside a called function, a map and a nested on-error whose handler fails too
		prog = append(prog, list(S("define"), list(S("inner"), S("v")), list(S("bump"), S("v")), f, list(S("bump"), int64(1000))),
			list(S("on-error"), list(S("map"), S("inner"), list(S("quote"), list(int64(1), int64(2), int64(3)))),
				list(S("lambda"), list(S("e")), list(S("on-error"), list(S("begin"), list(S("vh-tick"), int64(903)), list(S("vh-fail"), int64(9))), list(S("lambda"), list(S("e2")), list(S("vh-tick"), int64(904), S("acc")))))))
	case 5: // handler's own failure reaches the caller
		prog = append(prog, list(S("on-error"), f, list(S("lambda"), list(S("e")), list(S("vh-tick"), int64(905)), list(S("vh-fail"), int64(6)), list(S("vh-tick"), int64(906))),
			list(S("lambda"), Nil, list(S("vh-fail"), int64(7)))))
	}
	prog = append(prog, S("acc"), list(S("bump"), int64(3)), list(S("map"), list(S("lambda"), list(S("x")), list(S("+"), S("x"), S("acc"))), list(S("quote"), list(int64(1), int64(2)))))
	diffProgram(c, prog)
}

// what handlers receive, and the result at the Go level
func c07Handlers(c *Case) {
	type fc struct{ src, msg string }
	n := c.R.Intn(1000)
	cases := []fc{
		{fmt.Sprintf("(vh-fail %d)", n), fmt.Sprintf("vh-fail %d", n)},
		{fmt.Sprintf("(error \"msg%d\")", n), fmt.Sprintf("msg%d", n)},
		{fmt.Sprintf("(let ((x 1)) (list x (vh-fail %d)))", n), fmt.Sprintf("vh-fail %d", n)},
		{fmt.Sprintf("(map (lambda (x) (vh-fail %d x)) '(1 2))", n), fmt.Sprintf("vh-fail %d 1", n)},
		{fmt.Sprintf("(no-such-fn-%d 1)", n), ""},
		{"(+ 1 'a)", ""},
		{"((lambda (a) a))", ""},
		{"(set! undefined-name 1)", ""},
		{"(vector-ref 1)", ""},
		{"(car)", ""},
		{fmt.Sprintf("(apply vh-fail (list %d 2))", n), fmt.Sprintf("vh-fail %d 2", n)},
		{fmt.Sprintf("(do ((i 0 (+ i 1))) ((> i 3) i) (vh-fail %d i))", n), fmt.Sprintf("vh-fail %d 0", n)},
		{fmt.Sprintf("(cond ((vh-fail %d) 1) (else 2))", n), fmt.Sprintf("vh-fail %d", n)},
		{fmt.Sprintf("(on-error (vh-fail 0) (lambda (e) (vh-fail %d)))", n), fmt.Sprintf("vh-fail %d", n)},
	}
	odd := []string{"100%", "%d %s %!v", "two\nlines", "tab\there", "höh 漢 🙂", "(not code)", "'quoted'", ";no comment", strings.Repeat("long ", 1+c.R.Intn(300)), "", " ", "Evaling x. In 'f': y"}[c.R.Intn(12)]
	cases = append(cases,
		fc{fmt.Sprintf("(error \"%s%d\")", odd, n), fmt.Sprintf("%s%d", odd, n)},
		fc{fmt.Sprintf("(error (list %d 'b \"%s\"))", n, odd), fmt.Sprintf("(%d b ", n)},
		fc{fmt.Sprintf("(error 'sym-%d)", n), fmt.Sprintf("sym-%d", n)},
		fc{fmt.Sprintf("(error %d)", n), fmt.Sprint(n)},
		fc{fmt.Sprintf("(sort '(3 1 2) (lambda (a b) (vh-fail %d)))", n), fmt.Sprintf("vh-fail %d", n)},
		fc{fmt.Sprintf("(filter (lambda (x) (if (== x 3) (vh-fail %d x) #t)) '(1 2 3 4))", n), fmt.Sprintf("vh-fail %d 3", n)},
		fc{fmt.Sprintf("(reduce (lambda (a x) (vh-fail %d a x)) 0 '(1 2 3 4))", n), fmt.Sprintf("vh-fail %d", n)},
		fc{fmt.Sprintf("(for-each (lambda (x) (when (== x 2) (vh-fail %d x))) '(1 2 3 4))", n), fmt.Sprintf("vh-fail %d 2", n)},
		fc{fmt.Sprintf("(send {m: (lambda (x) (vh-fail %d x))} m: 5)", n), fmt.Sprintf("vh-fail %d 5", n)},
		fc{fmt.Sprintf("(begin (defmacro (vh-m x) (vh-fail %d)) (vh-m 1))", n), fmt.Sprintf("vh-fail %d", n)},
		fc{fmt.Sprintf("`(1 ,(vh-fail %d) ,@(list 2))", n), fmt.Sprintf("vh-fail %d", n)},
		fc{fmt.Sprintf("(let loop ((i 0)) (if (< i %d) (loop (+ i 1)) (vh-fail i)))", n%200), fmt.Sprintf("vh-fail %d", n%200)},
		fc{fmt.Sprintf("(call-with-nothing-%d)", n), fmt.Sprintf("call-with-nothing-%d", n)})
	f := cases[c.R.Intn(len(cases))]
	wrap := []string{"%s", "(begin 1 %s 2)", "(if %s 1 2)", "(list 1 %s)", "(let ((z %s)) z)", "((lambda () %s))", "(eval '%s)", "(-> 1 (list %s))",
		"(let* ((y 1) (z %s)) z)", "(letrec ((z %s)) z)", "(let go ((z %s)) z)", "(do ((z 0 (begin %s))) ((== z 5) 1) 2)", "(do ((z 0)) (#t 1 %s 3))", "(case %s ((1) 2) (else 3))", "(case 1 ((1) %s 2))", "(cond (#f 1) (%s 2))", "(cond (#t %s))",
		"(when #t %s 4)", "(unless #f %s 4)", "(and #t %s 4)", "(or #f %s 4)", "(map (lambda (z) %s) '(1))", "(apply list (list %s))", "(send {m: (lambda () %s)} m:)", "{a: 1 b: %s}", "(=> 1 (list %s))", "`(1 ,@%s)",
		"(on-error %s (lambda (inner) (error inner)))", "(on-error 1 (lambda (inner) 2) (lambda () %s))", "(begin (define (vh-thrower) %s) (vh-thrower))"}
	src := fmt.Sprintf(wrap[0], f.src)
	for i, k := 0, 1+c.R.Intn(4); i < k; i++ {
		src = strings.Replace(wrap[c.R.Intn(len(wrap))], "%s", src, 1)
	}
	c.Desc("%s", src)
	env := freshEnv()
	rec.take()
	v, err := evalText(src, env)
	if err == nil {
		c.Fail("nofail:"+src, "failing expression returned a value: %s", golisp.String(v))
		return
	}
	if !strings.Contains(err.Error(), f.msg) {
		c.Fail("msg:"+src, "error text %q lacks %q", err.Error(), f.msg)
	}
	c.Count("handlers", 1)
	c.Count("events", 1)
	c.Distinct(src)
	// a handler sees the text, once; its value is the value of on-error
	rec.take()
	hs := fmt.Sprintf("(on-error %s (lambda (e) (vh-tick (string? e) (substring? \"%s\" e)) (list 'handled %d)))", src, f.msg, n)
	v, err = evalText(hs, env)
	tr := rec.take()
	if err != nil || canonD(v) != fmt.Sprintf("(|handled| %d)", n) {
		c.Fail("handled:"+src, "%s: got %s err %v", hs, canonD(v), err)
	}
	last := ""
	ticks := 0
	for _, e := range tr {
		if !strings.HasPrefix(e, "FAIL") {
			ticks++
			last = e
		}
	}
	if ticks != 1 || last != "#t #t" {
		c.Fail("handler-arg:"+src, "%s: handler saw %v (want one call with a string containing %q)", hs, tr, f.msg)
	}
	// success path: handler not run, success handler run once, with no effect on the value chosen
	ok := []string{"(+ 1 2)", "(list 1)", "'()", "#f", "\"s\"", "(vh-tick 5)"}[c.R.Intn(6)]
	plain, _ := evalText(ok, env)
	rec.take()
	v, err = evalText(fmt.Sprintf("(on-error %s (lambda (e) (vh-tick 'bad)))", ok), env)
	if err != nil || canonD(v) != canonD(plain) || strings.Contains(strings.Join(rec.take(), ""), "bad") {
		c.Fail("succ:"+ok, "on-error around %s gave %s err %v", ok, canonD(v), err)
	}
	v, err = evalText(fmt.Sprintf("(on-error %s (lambda (e) (vh-tick 'bad)) (lambda () (vh-tick 'good)))", ok), env)
	tr = rec.take()
	if err != nil || canonD(v) != "|good|" || strings.Contains(strings.Join(tr, ""), "bad") {
		c.Fail("succ2:"+ok, "on-error around %s with success handler gave %s err %v trace %v", ok, canonD(v), err, tr)
	}
}

// ---- C12 ---------------------------------------------------------------------------

func c12HOF(c *Case) {
	g := newGen(c.R, nil)
	elem := func() V {
		if g.chance(70) {
			return int64(g.n(20) - 5)
		}
		return probeValues[g.n(len(probeValues))]
	}
	mklist := func() V {
		n := g.n(6)
		if g.chance(15) {
			n = g.n(13)
		}
		if g.chance(4) {
			n = 13 + g.n(90)
			if g.chance(8) {
				n = 100 + g.n(900)
			}
		}
		ints := g.chance(30)
		var l []V
		for i := 0; i < n; i++ {
			l = append(l, elem())
			if ints {
				l[i] = int64(g.n(20) - 5)
			}
		}
		k := g.n(3)
		if n > 100 {
			k = 1 + g.n(2)
		}
		switch k {
		case 0: // consed up
			var e V = list(S("quote"), Nil)
			for i := len(l) - 1; i >= 0; i-- {
				e = list(S("cons"), q(l[i]), e)
			}
			return e
		case 1:
			out := []V{S("list")}
			for _, x := range l {
				out = append(out, q(x))
			}
			return list(out...)
		}
		return list(S("quote"), list(l...))
	}
	var prog []V
	prog = append(prog, list(S("define"), S("cnt"), int64(0)))
	failAt := int64(0)
	if g.chance(25) {
		failAt = int64(1 + g.n(5))
		if g.chance(10) {
			failAt = int64(1 + g.n(400))
		}
	}
	count := list(S("set!"), S("cnt"), list(S("+"), S("cnt"), int64(1)))
	failing := func(ps []V) []V {
		b := []V{count}
		if failAt > 0 {
			b = append(b, list(S("if"), list(S("=="), S("cnt"), failAt), list(S("vh-fail"), ps[0])))
		}
		return b
	}
	mkfn := func(k int, res func(ps []V) V, name Sym) V {
		var ps []V
		for i := 0; i < k; i++ {
			ps = append(ps, S(fmt.Sprintf("h%d", i)))
		}
		body := failing(ps)
		body = append(body, listTail(append([]V{S("vh-tick"), S("cnt")}, ps...), Nil), res(ps))
		lam := listTail(append([]V{S("lambda"), list(ps...)}, body...), Nil)
		switch g.n(3) {
		case 0:
			prog = append(prog, list(S("define"), cons(name, list(ps...)), body[0]))
			prog[len(prog)-1] = listTail(append([]V{S("define"), cons(name, list(ps...))}, body...), Nil)
			return name
		case 1:
			return lam
		default: // closure with captured value
			return list(S("let"), list(list(S("cap"), int64(g.n(5)))), lam)
		}
	}
	predRes := func(ps []V) V {
		switch g.n(4) {
		case 0:
			return list(S("=="), S("cnt"), int64(1+g.n(5)))
		case 1:
			return list(S("!="), S("cnt"), int64(1+g.n(5)))
		case 2:
			return list(S("nil?"), ps[0])
		}
		return g.chance(50)
	}
	tv := func() V {
		if g.chance(15) {
			return &FrameV{map[string]V{}}
		}
		return q(probeValues[g.n(len(probeValues))])
	}
	// any value may be the answer of a test for any and every
	testRes := func(ps []V) V {
		if g.chance(60) {
			return predRes(ps)
		}
		if g.chance(30) {
			return ps[g.n(len(ps))]
		}
		return list(S("if"), predRes(ps), tv(), tv())
	}
	var call V
	switch g.n(12) {
	case 0, 1:
		k := 1 + g.n(3)
		if g.chance(8) {
			k = 4 + g.n(12)
		}
		out := []V{S([]string{"map", "for-each"}[g.n(2)]), mkfn(k, func(ps []V) V {
			v := list(S("list"), ps[len(ps)-1], S("cnt"))
			if g.chance(15) { // no result now and then
				none := list(S("or"))
				for i := 1 + g.n(4); i > 0; i-- {
					none = list(S("or"), list(S("=="), S("cnt"), int64(1+g.n(8))), list(S("=="), S("cnt"), int64(1+g.n(80))), none)
				}
				return list(S("if"), list(S("not"), none), v, []V{list(S("quote"), Nil), list(S("cdr"), list(S("quote"), list(int64(1))))}[g.n(2)])
			}
			return v
		}, "fun")}
		if g.chance(15) {
			out[1] = S([]string{"list", "cons", "vh-tick"}[g.n(3)])
			if out[1] == S("cons") {
				k = 2
			}
		}
		for i := 0; i < k; i++ {
			out = append(out, mklist())
		}
		call = list(out...)
	case 2, 3:
		k := 1 + g.n(3)
		if g.chance(8) {
			k = 4 + g.n(12)
		}
		out := []V{S([]string{"any", "every"}[g.n(2)]), mkfn(k, testRes, "fun")}
		for i := 0; i < k; i++ {
			out = append(out, mklist())
		}
		call = list(out...)
	case 4:
		call = list(S([]string{"filter", "remove"}[g.n(2)]), mkfn(1, predRes, "fun"), mklist())
	case 5:
		call = list(S("find"), mkfn(1, predRes, "fun"), mklist())
	case 6:
		call = list(S([]string{"find-tail", "memp"}[g.n(2)]), mkfn(1, predRes, "fun"), mklist())
	case 7:
		call = list(S("partition"), mkfn(1, testRes, "fun"), mklist())
	case 8, 9, 10:
		op := []string{"reduce", "reduce-left", "reduce-right", "fold-left", "fold-right"}[g.n(5)]
		f := mkfn(2, func(ps []V) V { return list(S("list"), ps[0], ps[1]) }, "fun")
		if g.chance(15) {
			f = S([]string{"list", "cons"}[g.n(2)])
		}
		init := elem()
		if g.chance(25) {
			init = []V{Nil, int64(0), Str(""), false, list(Nil)}[g.n(5)]
		}
		call = list(S(op), f, q(init), mklist())
	case 11:
		k := g.n(4)
		if g.chance(15) {
			k = 4 + g.n(30)
		}
		f := mkfn(k+1, func(ps []V) V { return list(S("list"), ps[0]) }, "fun")
		var fixed []V
		for i := 0; i < k+1; i++ {
			fixed = append(fixed, q(elem()))
		}
		j := g.n(k + 2)
		call = listTail(append(append([]V{S("apply"), f}, fixed[:j]...), listTail(append([]V{S("list")}, fixed[j:]...), Nil)), Nil)
	}
	if failAt > 0 {
		c.Count("hof_fail", 1)
	}
	if g.chance(20) {
		call = list(S("on-error"), call, list(S("lambda"), list(S("e")), list(S("vh-tick"), int64(-1))))
	}
	prog = append(prog, call, S("cnt"), call)
	diffProgram(c, prog)
}

// sort calls its function with two elements of the list, never after it has failed, and leaves the list as it was
func c12Sort(c *Case) {
	r := c.R
	n := r.Intn(12)
	if r.Intn(3) == 0 {
		n = 12 + r.Intn(120)
	}
	l := make([]V, n)
	in := map[string]bool{}
	for i := range l {
		l[i] = int64(r.Intn(3 * (n + 1)))
		in[canon(l[i])] = true
	}
	failAt := 0
	if r.Intn(2) == 0 {
		failAt = 1 + r.Intn(2*n+1)
	}
	less := "(lambda (a b) (set! cnt (+ cnt 1)) (vh-tick cnt a b) (if (== cnt " + fmt.Sprint(failAt) + ") (vh-fail cnt)) (< a b))"
	route := ""
	switch r.Intn(3) {
	case 0:
		route = "(define less " + less + ")"
		less = "less"
	case 1:
		less = "(let ((k 1)) " + less + ")"
	}
	env := freshEnv()
	prog := "(begin (define cnt 0) (define l " + show(q(list(l...))) + ") " + route + ")"
	expr := "(sort l " + less + ")"
	c.Desc("%s\n%s", prog, expr)
	if _, err := evalText(prog, env); err != nil {
		c.Fail("setup:"+c.desc, "%s\n%v", c.desc, err)
		return
	}
	rec.take()
	d, err := evalText(expr, env)
	tr := rec.take()
	calls := 0
	for _, e := range tr {
		var k, a, b int64
		if m, _ := fmt.Sscanf(e, "%d %d %d", &k, &a, &b); m != 3 {
			continue // the failing call
		}
		calls++
		if !in[canon(a)] || !in[canon(b)] {
			c.Fail("args:"+c.desc, "%s\nthe function was called with %d and %d, which are not both elements", c.desc, a, b)
			return
		}
	}
	failed := failAt > 0 && calls >= failAt
	switch {
	case failed && (err == nil || calls != failAt):
		c.Fail("fail:"+c.desc, "%s\nthe function fails in call %d: it was called %d times, result %s, error %v", c.desc, failAt, calls, golisp.String(d), err)
		return
	case !failed && err != nil:
		c.Fail("error:"+c.desc, "%s\n%v", c.desc, err)
		return
	case !failed:
		want := append([]V{}, l...)
		sort.Slice(want, func(i, j int) bool { return want[i].(int64) < want[j].(int64) })
		if canonD(d) != canon(list(want...)) {
			c.Fail("sorted:"+c.desc, "%s\ngives %s", c.desc, golisp.String(d))
			return
		}
	}
	after, err := evalText("l", env)
	if err != nil || canonD(after) != canon(list(l...)) {
		c.Fail("arg:"+c.desc, "%s\nafterwards the list is %s", c.desc, golisp.String(after))
		return
	}
	if failed {
		c.Count("sort_failed", 1)
	}
	c.Count("sort_calls", calls)
	c.Distinct(c.desc)
}
