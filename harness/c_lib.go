package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// the libraries written in Lisp, in the tree that was built
func libFile(name string) string {
	f, _ := runtime.FuncForPC(reflect.ValueOf(golisp.Cons).Pointer()).FileLine(reflect.ValueOf(golisp.Cons).Pointer())
	return filepath.Join(filepath.Dir(f), "lisp", name)
}

// ---- C36: streams --------------------------------------------------------------------------------------

// the model: a lazy list whose tail is computed once
type stm struct {
	car  int64
	tail func() *stm
	done bool
	rest *stm
}

func (s *stm) cdr() *stm {
	if !s.done {
		s.rest, s.done = s.tail(), true
	}
	return s.rest
}

func stCons(a int64, t func() *stm) *stm { return &stm{car: a, tail: t} }

type stGen struct {
	r     *rand.Rand
	ticks []string
	n     int
	defs  []string
}

func (g *stGen) tick(k int64) int64 {
	g.ticks = append(g.ticks, fmt.Sprint(k))
	return k
}

// a stream whose elements report that they are computed
func (g *stGen) source(sorted bool) (string, func() *stm) {
	n := g.r.Intn(7)
	if g.r.Intn(25) == 0 {
		n = 30 + g.r.Intn(120)
	}
	v := make([]int64, n)
	for i := range v {
		v[i] = int64(g.r.Intn(40) - 10)
	}
	if sorted {
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
		k := 0
		for i := range v {
			if i == 0 || v[i] != v[k-1] {
				v[k] = v[i]
				k++
			}
		}
		v = v[:k]
	}
	text := "the-empty-stream"
	for i := len(v) - 1; i >= 0; i-- {
		text = fmt.Sprintf("(stream-cons (vh-tick %d) %s)", v[i], text)
	}
	var mk func(i int) *stm
	mk = func(i int) *stm {
		if i == len(v) {
			return nil
		}
		return stCons(g.tick(v[i]), func() *stm { return mk(i + 1) })
	}
	return text, func() *stm { return mk(0) }
}

func stInterval(lo, hi int64) *stm {
	if lo > hi {
		return nil
	}
	return stCons(lo, func() *stm { return stInterval(lo+1, hi) })
}

func stMap(f func([]int64) int64, ss []*stm) *stm {
	if ss[0] == nil {
		return nil
	}
	var cars []int64
	for _, s := range ss {
		cars = append(cars, s.car)
	}
	return stCons(f(cars), func() *stm {
		var ts []*stm
		for _, s := range ss {
			ts = append(ts, s.cdr())
		}
		return stMap(f, ts)
	})
}

func stFilter(p func(int64) bool, s *stm) *stm {
	for s != nil && !p(s.car) {
		s = s.cdr()
	}
	if s == nil {
		return nil
	}
	return stCons(s.car, func() *stm { return stFilter(p, s.cdr()) })
}

func stAdd(a, b *stm) *stm {
	if a == nil || b == nil {
		return nil
	}
	return stCons(a.car+b.car, func() *stm { x := a.cdr(); return stAdd(x, b.cdr()) })
}

func stScale(s *stm, k int64) *stm {
	return stCons(s.car*k, func() *stm { return stScale(s.cdr(), k) })
}

func stSums(s *stm) *stm {
	return stCons(s.car, func() *stm { return stAdd(stSums(s), s.cdr()) })
}

func stMerge(a, b *stm) *stm {
	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	case a.car < b.car:
		return stCons(a.car, func() *stm { return stMerge(a.cdr(), b) })
	case a.car > b.car:
		return stCons(b.car, func() *stm { return stMerge(a, b.cdr()) })
	}
	return stCons(a.car, func() *stm { x := a.cdr(); return stMerge(x, b.cdr()) })
}

func stFrom(f func(i int64) int64, i int64) *stm {
	return stCons(f(i), func() *stm { return stFrom(f, i+1) })
}

func fibAt(i int64) int64 {
	a, b := int64(1), int64(1)
	for ; i > 0; i-- {
		a, b = b, a+b
	}
	return a
}

func hamming() []int64 {
	h := []int64{1}
	i, j, k := 0, 0, 0
	for len(h) < 200 {
		m := min(2*h[i], 3*h[j], 5*h[k])
		h = append(h, m)
		if m == 2*h[i] {
			i++
		}
		if m == 3*h[j] {
			j++
		}
		if m == 5*h[k] {
			k++
		}
	}
	return h
}

var hammingNumbers = hamming()

// expr gives a stream expression and its model; inf: without end; sorted: strictly increasing
func (g *stGen) expr(d int, inf, sorted bool) (string, func() *stm) {
	if d == 0 || g.r.Intn(6) == 0 {
		if inf {
			n := []string{"ones", "zeros", "twos", "odds", "integers", "fib", "h"}[g.r.Intn(7)]
			if sorted {
				n = []string{"odds", "integers", "h"}[g.r.Intn(3)]
			}
			f := map[string]func(int64) int64{"ones": func(int64) int64 { return 1 }, "zeros": func(int64) int64 { return 0 }, "twos": func(int64) int64 { return 2 },
				"odds": func(i int64) int64 { return 2*i + 1 }, "integers": func(i int64) int64 { return i + 1 }, "fib": fibAt, "h": func(i int64) int64 { return hammingNumbers[i] }}[n]
			return n, func() *stm { return stFrom(f, 0) }
		}
		if g.r.Intn(3) == 0 {
			lo, hi := int64(g.r.Intn(10)-3), int64(g.r.Intn(12)-3)
			return fmt.Sprintf("(stream-enumerate-interval %d %d)", lo, hi), func() *stm { return stInterval(lo, hi) }
		}
		return g.source(sorted)
	}
	if sorted {
		switch g.r.Intn(4) {
		case 0:
			a, fa := g.expr(d-1, inf, true)
			b, fb := g.expr(d-1, inf, true)
			return "(merge " + a + " " + b + ")", func() *stm { x := fa(); return stMerge(x, fb()) }
		case 1:
			if inf {
				a, fa := g.expr(d-1, true, true)
				k := int64(1 + g.r.Intn(4))
				return fmt.Sprintf("(scale-stream %s %d)", a, k), func() *stm { return stScale(fa(), k) }
			}
		case 2:
			a, fa := g.expr(d-1, inf, true)
			k := int64(g.r.Intn(9))
			return fmt.Sprintf("(stream-map (lambda (x) (+ (vh-tick x) %d)) %s)", k, a), func() *stm {
				return stMap(func(x []int64) int64 { return g.tick(x[0]) + k }, []*stm{fa()})
			}
		}
		return g.expr(d-1, inf, true)
	}
	switch g.r.Intn(7) {
	case 0:
		a, fa := g.expr(d-1, inf, false)
		b, fb := g.expr(d-1, inf, false)
		return "(add-streams " + a + " " + b + ")", func() *stm { x := fa(); return stAdd(x, fb()) }
	case 1:
		if !inf {
			a, fa := g.expr(d-1, false, false)
			k := int64(g.r.Intn(12) - 2)
			return fmt.Sprintf("(stream-filter (lambda (x) (< (vh-tick x) %d)) %s)", k, a), func() *stm {
				return stFilter(func(x int64) bool { return g.tick(x) < k }, fa())
			}
		}
		n := []string{"integers", "fib", "h"}[g.r.Intn(3)]
		f := map[string]func(int64) int64{"integers": func(i int64) int64 { return i + 1 }, "fib": fibAt, "h": func(i int64) int64 { return hammingNumbers[i] }}[n]
		p := []string{"even?", "odd?"}[g.r.Intn(2)]
		return "(stream-filter " + p + " " + n + ")", func() *stm {
			return stFilter(func(x int64) bool { return (x%2 == 0) == (p == "even?") }, stFrom(f, 0))
		}
	case 2, 3:
		a, fa := g.expr(d-1, inf, false)
		return "(stream-map (lambda (x) (* 3 (vh-tick x))) " + a + ")", func() *stm {
			return stMap(func(x []int64) int64 { return 3 * g.tick(x[0]) }, []*stm{fa()})
		}
	case 4:
		if inf {
			a, fa := g.expr(d-1, true, false)
			b, fb := g.expr(d-1, true, false)
			return "(stream-map - " + a + " " + b + ")", func() *stm {
				x := fa()
				return stMap(func(x []int64) int64 { return x[0] - x[1] }, []*stm{x, fb()})
			}
		}
		a, fa := g.expr(d-1, false, false) // several streams of one length
		k := 2 + g.r.Intn(3)
		return "(let ((z " + a + ")) (stream-map + " + strings.TrimSpace(strings.Repeat(" z", k)) + "))", func() *stm {
			x := fa()
			return stMap(func(v []int64) int64 { return v[0] * int64(k) }, []*stm{x})
		}
	case 5:
		if inf {
			a, fa := g.expr(d-1, true, false)
			return "(partial-sums " + a + ")", func() *stm { return stSums(fa()) }
		}
		a, fa := g.expr(d-1, false, false)
		return "(stream-cons 4 " + a + ")", func() *stm { return stCons(4, fa) }
	}
	return g.expr(d-1, inf, sorted)
}

func sortedCopy(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func sortedLines(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var tickArg = regexp.MustCompile(`-?\d+`)

// vh-tick events as numbers
func tickNumbers(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = tickArg.FindString(s)
	}
	return out
}

// segments: what was computed between the calls for one element and the next, in any order
func segments(l []string) string {
	var out, cur []string
	for _, x := range l {
		if len(x) == 6 && x[:3] == "100" {
			out = append(out, sortedCopy(cur)+" | "+x)
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	return strings.Join(append(out, sortedCopy(cur)), "\n")
}

var streamEnv *golisp.SymbolTableFrame

func setupStreams() {
	setupPrims()
	streamEnv = freshEnv()
	if _, err := golisp.ProcessFileInEnvironment(libFile("streams.lsp"), streamEnv); err != nil {
		fmt.Fprintln(os.Stderr, "loading streams.lsp:", err)
		streamEnv = nil
	}
}

func c36Streams(c *Case) {
	r := c.R
	if streamEnv == nil {
		c.Fail("load", "lisp/streams.lsp cannot be loaded")
		return
	}
	g := &stGen{r: r}
	inf := r.Intn(3) == 0
	text, mk := g.expr(1+r.Intn(4), inf, r.Intn(3) == 0)
	env := golisp.NewSymbolTableFrameBelow(streamEnv, "case")
	c.Desc("(define s %s)", text)
	rec.take()
	_, err := evalText("(define s "+text+")", env)
	model := mk()
	check := func(what string, got string, err error, want string) bool {
		tr := rec.take()
		gt, wt := sortedCopy(tickNumbers(tr)), sortedCopy(g.ticks)
		g.ticks = nil
		if err != nil || got != want {
			c.Fail("value:"+text+what, "s = %s\n%s gives %s (err %v), want %s", text, what, got, err, want)
			return false
		}
		if gt != wt {
			c.Fail("ticks:"+text+what, "s = %s\n%s evaluated [%s], it should evaluate [%s]", text, what, gt, wt)
			return false
		}
		c.Count("events", len(tr))
		return true
	}
	if !check("(define s ...)", "", err, "") {
		return
	}
	for i := 3 + r.Intn(4); i > 0; i-- {
		switch k := r.Intn(9); {
		case k < 4: // one element
			n := r.Intn(10)
			if inf && r.Intn(4) == 0 {
				n = r.Intn(20)
			} else if !inf && r.Intn(4) == 0 {
				n = r.Intn(150)
			}
			d, err := evalText(fmt.Sprintf("(stream-ref s %d)", n), env)
			p := model
			for j := 0; p != nil && j < n; j++ {
				p = p.cdr()
			}
			want := "()"
			if p != nil {
				want = fmt.Sprint(p.car)
			}
			if !check(fmt.Sprintf("(stream-ref s %d)", n), canonD(d), err, want) {
				return
			}
			c.Count("refs", 1)
		case k == 4:
			d, err := evalText("(stream-null? s)", env)
			if !check("(stream-null? s)", canonD(d), err, map[bool]string{true: "#t", false: "#f"}[model == nil]) {
				return
			}
		case k == 5 && model != nil:
			d, err := evalText("(let ((t (stream-cdr s))) (if (stream-null? t) 'none (stream-car t)))", env)
			want := "|none|"
			if t := model.cdr(); t != nil {
				want = fmt.Sprint(t.car)
			}
			if !check("the second element", canonD(d), err, want) {
				return
			}
		case k == 6 && !inf && r.Intn(2) == 0: // element by element
			n, stop := 0, r.Intn(12)
			for p := model; p != nil && n <= stop; p = p.cdr() {
				g.ticks = append(g.ticks, fmt.Sprint(100000+n))
				if n++; n > stop {
					break
				}
			}
			want := segments(g.ticks)
			_, err := evalText(fmt.Sprintf("(let ((i 0)) (stream-for-each (lambda (x) (vh-tick (+ 100000 i)) (set! i (+ i 1)) (if (> i %d) (error \"stop\"))) s))", stop), env)
			tr := rec.take()
			got := segments(tickNumbers(tr))
			g.ticks = nil
			if (err != nil) != (n > stop) || got != want {
				c.Fail("each:"+text, "s = %s\nstream-for-each, made to fail at element %d (err %v), did\n%s\nwant\n%s", text, stop, err, got, want)
				return
			}
			c.Count("each", 1)
		case k == 6 && !inf: // all elements
			d, err := evalText("(let ((all '())) (stream-for-each (lambda (x) (set! all (cons x all))) s) (reverse all))", env)
			var l []V
			for p := model; p != nil; p = p.cdr() {
				l = append(l, p.car)
			}
			if !check("stream-for-each", canonD(d), err, canon(list(l...))) {
				return
			}
			c.Count("whole", 1)
		case k == 7: // printing
			n := r.Intn(6)
			op := []string{"stream-take", "print-stream"}[r.Intn(2)]
			var err error
			out := captureFd(2, func() { _, err = evalText(fmt.Sprintf("(%s s %d)", op, n), env) })
			want := ""
			p := model
			for j := 0; p != nil && j < n; j++ {
				want += fmt.Sprintln(p.car)
				p = p.cdr()
			}
			if !check(fmt.Sprintf("(%s s %d)", op, n), out, err, want) {
				return
			}
		case k == 8: // a second stream over the same one
			d, err := evalText("(stream-ref (stream-map (lambda (x) (- 0 (vh-tick x))) s) 2)", env)
			p := stMap(func(x []int64) int64 { return -g.tick(x[0]) }, []*stm{model})
			for j := 0; p != nil && j < 2; j++ {
				p = p.cdr()
			}
			want := "()"
			if p != nil {
				want = fmt.Sprint(p.car)
			}
			if !check("the third element of a map over s", canonD(d), err, want) {
				return
			}
		}
	}
	if inf {
		c.Count("infinite", 1)
	} else {
		c.Count("finite", 1)
	}
	c.Distinct(text)
	if c.Idx < 3 {
		c.Sample(c.desc)
	}
}

// delay and force
func c36Delay(c *Case) {
	r := c.R
	if streamEnv == nil {
		return
	}
	env := golisp.NewSymbolTableFrameBelow(streamEnv, "case")
	n := 1 + r.Intn(4)
	forced := make([]bool, n)
	src := ""
	for i := 0; i < n; i++ {
		body := fmt.Sprintf("(vh-tick %d)", i)
		if i > 0 && r.Intn(2) == 0 {
			j := r.Intn(i)
			body = fmt.Sprintf("(begin (vh-tick %d) (force p%d) %d)", i, j, i)
		}
		src += fmt.Sprintf("(define p%d (delay %s))\n", i, body)
	}
	c.Desc("%s", src)
	rec.take()
	if _, err := golisp.ParseAndEvalAllInEnvironment(src, env); err != nil {
		c.Fail("define:"+src, "%s failed: %v", src, err)
		return
	}
	if tr := rec.take(); len(tr) > 0 {
		c.Fail("early:"+src, "%s evaluated %v before anything was forced", src, tr)
		return
	}
	lines := strings.Split(src, "\n")
	var force func(i int) (out []string)
	force = func(i int) (out []string) {
		if forced[i] {
			return nil
		}
		forced[i] = true
		out = []string{fmt.Sprint(i)}
		if k := strings.Index(lines[i], "(force p"); k >= 0 {
			out = append(out, force(int(lines[i][k+8]-'0'))...)
		}
		return
	}
	for k := 0; k < 6; k++ {
		i := r.Intn(n)
		d, err := evalText(fmt.Sprintf("(force p%d)", i), env)
		tr := tickNumbers(rec.take())
		want := force(i)
		if err != nil || canonD(d) != fmt.Sprint(i) || strings.Join(tr, " ") != strings.Join(want, " ") {
			c.Fail("force:"+src, "%s(force p%d) gives %s (err %v) and evaluates %v, want %d and %v", src, i, canonD(d), err, tr, i, want)
			return
		}
		c.Count("forced", 1)
	}
	c.Distinct(src)
}

// ---- C37: the test framework ---------------------------------------------------------------------------

type assertion struct {
	text    string
	outcome byte   // p passes, f fails, e is an error
	says    string // in the message of an error
}

func (g *tfGen) assertion() assertion {
	r := g.r
	n := r.Intn(50)
	v := fmt.Sprintf("(vh-tick %d)", n)
	name := "" // a variable of the test
	if r.Intn(3) == 0 {
		name = []string{"actual", "expected", "msg", "result", "searched-for", "collection", "err", "sexpr", "body"}[r.Intn(9)]
		v = "(vh-tick " + name + ")"
	}
	says := fmt.Sprintf("boom %d", n)
	bad := "(error \"" + says + "\")"
	switch r.Intn(6) { // the error is raised further in
	case 0:
		bad = "((lambda (x) (+ 1 (let ((y x)) " + bad + "))) 1)"
	case 1:
		bad = "(begin (define (deep x) (if (== x 0) " + bad + " (+ 1 (deep (- x 1))))) (car (map deep '(3 2))))"
	}
	if r.Intn(4) == 0 { // values of every kind
		if a := g.values(); a.text != "" {
			return a
		}
	}
	k := 0 // 0 passes, 1 fails, 2 is an error
	switch r.Intn(10) {
	case 0, 1:
		k = 1
	case 2:
		k = 2
	}
	out := "pfe"[k]
	pick := func(pass, fail string) string {
		switch k {
		case 0:
			return pass
		case 1:
			return fail
		}
		return bad
	}
	var s string
	x := fmt.Sprint(n) // the expected value, whose expression is evaluated once as well
	if k != 2 && r.Intn(2) == 0 {
		x = []string{fmt.Sprintf("(vh-tick %d)", n), fmt.Sprintf("(begin (vh-tick 500) %d)", n)}[r.Intn(2)]
	}
	switch r.Intn(9) {
	case 0:
		s = "(assert-true " + pick("(== "+v+" "+fmt.Sprint(n)+")", "(begin "+v+" #f)") + ")"
	case 1:
		s = "(assert-false " + pick("(begin "+v+" #f)", "(integer? "+v+")") + ")"
	case 2:
		s = "(assert-nil " + pick("(begin "+v+" '())", v) + ")"
	case 3:
		s = "(assert-not-nil " + pick(v, "(begin "+v+" '())") + ")"
	case 4:
		s = fmt.Sprintf("(assert-eq %s %s)", pick(v, "(+ 1 "+v+")"), x)
	case 5:
		s = fmt.Sprintf("(assert-neq %s %s)", pick("(+ 1 "+v+")", v), x)
	case 6:
		if k == 2 {
			k, out = 0, 'p'
		}
		s = "(assert-error " + pick("(begin "+v+" "+bad+")", v) + ")"
	case 7:
		if k == 2 {
			k, out = 1, 'f'
		}
		s = "(assert-nerror " + pick(v, "(begin "+v+" "+bad+")") + ")"
	case 8:
		s = fmt.Sprintf("(assert-memq %s %s)", pick("(list 99 "+v+" 98)", "(list 99 (+ 100 "+v+"))"), x)
	}
	if name != "" {
		s = fmt.Sprintf("(let ((%s %d)) %s)", name, n, s)
	}
	a := assertion{s, out, ""}
	if out == 'e' {
		a.says = says
	}
	return a
}

// values: assertions about values of every kind
func (g *tfGen) values() assertion {
	r := g.r
	vals := []V{Nil, false, true, int64(0), int64(1), int64(7), float32(1), float32(7), float32(0.5), Str(""), Str("a"), Str("1"), Sym("a"), Sym("b"),
		list(int64(1), int64(2)), list(Nil), list(int64(1), Str("a")), cons(int64(1), int64(2)), list(float32(1), int64(2))}
	a, b := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
	if r.Intn(3) == 0 {
		b = a
	}
	if r.Intn(6) == 0 { // alike, but not equal
		n := r.Intn(2)
		k := r.Intn(20)
		a, b = []V{int64(k), float32(k)}[n], []V{float32(k), int64(k)}[n]
		if r.Intn(3) == 0 {
			a, b = list(Sym("a"), a), list(Sym("a"), b)
		}
	}
	x, y := "'"+show(a), "'"+show(b)
	if isNil(a) && r.Intn(2) == 0 {
		x = "(cdr '(1))"
	}
	var ok bool
	var s string
	switch r.Intn(7) {
	case 0:
		s, ok = "(assert-true "+x+")", truthy(a)
	case 1:
		s, ok = "(assert-false "+x+")", !truthy(a)
	case 2:
		s, ok = "(assert-nil "+x+")", isNil(a)
	case 3:
		s, ok = "(assert-not-nil "+x+")", !isNil(a)
	case 4:
		s, ok = "(assert-eq "+x+" "+y+")", canon(a) == canon(b)
	case 5:
		s, ok = "(assert-neq "+x+" "+y+")", canon(a) != canon(b)
	default:
		n := r.Intn(4)
		l := []V{}
		for i := 0; i < n; i++ {
			l = append(l, vals[r.Intn(len(vals))])
		}
		for _, e := range l {
			ok = ok || canon(e) == canon(a)
		}
		s = "(assert-memq '" + show(list(l...)) + " " + x + ")"
	}
	// the same with variables of the test, whose names may be those that the framework uses
	if r.Intn(2) == 0 {
		names := []string{"actual", "expected", "msg", "result", "searched-for", "collection", "err", "sexpr", "label", "body", "x"}
		p := r.Perm(len(names))
		n1, n2 := names[p[0]], names[p[1]]
		v1, v2 := x, y
		if strings.HasPrefix(s, "(assert-memq") {
			n := strings.LastIndex(s, " "+x+")")
			v2 = strings.TrimSpace(s[len("(assert-memq"):n])
			s = "(assert-memq " + n2 + " " + n1 + ")"
		} else if strings.HasPrefix(s, "(assert-eq") || strings.HasPrefix(s, "(assert-neq") {
			s = s[:strings.Index(s, " ")] + " " + n1 + " " + n2 + ")"
		} else {
			s = s[:strings.Index(s, " ")] + " " + n1 + ")"
		}
		s = "(let ((" + n1 + " " + v1 + ") (" + n2 + " " + v2 + ")) " + s + ")"
	}
	out := byte('f')
	if ok {
		out = 'p'
	}
	return assertion{s, out, ""}
}

type tfGen struct{ r *rand.Rand }

type counts struct{ p, f, e int }

// a test file and what running it must count; messages: (context, it) of every failure and error in order
func (g *tfGen) file(id int) (text string, n counts, failures, errors, says []string, ticks int) {
	r := g.r
	for i := 1 + r.Intn(3); i > 0; i-- {
		cname := fmt.Sprintf("context %d.%d", id, i)
		setup := "()"
		if r.Intn(2) == 0 {
			setup = "((define setup-var 1))"
		}
		text += fmt.Sprintf("(context %q %s\n", cname, setup)
		for j := 1 + r.Intn(4); j > 0; j-- {
			iname := fmt.Sprintf("it %d", j)
			text += fmt.Sprintf(" (it %q\n", iname)
			for k := 1 + r.Intn(5); k > 0; k-- {
				a := g.assertion()
				text += "   " + a.text + "\n"
				ticks += strings.Count(a.text, "vh-tick")
				switch a.outcome {
				case 'p':
					n.p++
				case 'f':
					n.f++
					failures = append(failures, cname+" "+iname)
				case 'e':
					n.e++
					errors = append(errors, cname+" "+iname)
					says = append(says, cname+" "+iname+" "+a.says)
					// what follows the error in this clause is not run
					for l := r.Intn(3); l > 0; l-- {
						text += "   (assert-eq (vh-tick 1000) 1)\n"
					}
					k = 0
				}
			}
			text += " )\n"
		}
		text += ")\n"
	}
	return
}

func setupTesting() {
	setupPrims()
	testingErr = nil
	if _, err := golisp.ProcessFile(libFile("testing.lsp")); err != nil {
		testingErr = err
	}
}

var testingErr error

func c37Run(c *Case) {
	r := c.R
	if testingErr != nil {
		c.Fail("load", "lisp/testing.lsp cannot be loaded: %v", testingErr)
		return
	}
	g := &tfGen{r}
	dir := filepath.Join(scratch(), fmt.Sprintf("c37-%d", c.Idx))
	if os.MkdirAll(dir, 0o700) != nil {
		return
	}
	defer func() {
		ents, _ := filepath.Glob(filepath.Join(dir, "*"))
		for _, e := range ents {
			os.Remove(e)
		}
		os.Remove(dir)
	}()
	var n counts
	var failures, errs, says []string
	ticks := 0
	src, call := "", ""
	files := 1
	all := r.Intn(3) == 0
	if all {
		files = 1 + r.Intn(3)
	}
	for i := 0; i < files; i++ {
		t, m, f, e, sy, k := g.file(i)
		says = append(says, sy...)
		fname := fmt.Sprintf("f%d_test.lsp", i)
		if i == 2 {
			fname = "_test.lsp"
		}
		os.WriteFile(filepath.Join(dir, fname), []byte(t), 0o600)
		n.p, n.f, n.e = n.p+m.p, n.f+m.f, n.e+m.e
		failures, errs = append(failures, f...), append(errs, e...)
		ticks += k
		src += t
	}
	verbose := ""
	if r.Intn(3) == 0 {
		verbose = " #t"
	}
	if all {
		// a file that is not a test
		os.WriteFile(filepath.Join(dir, "helper.lsp"), []byte("(vh-tick 2000) (error \"not a test\")"), 0o600)
		call = fmt.Sprintf("(run-all-tests %q%s)", dir, verbose)
	} else {
		call = fmt.Sprintf("(run-test %q%s)", filepath.Join(dir, "f0_test.lsp"), verbose)
	}
	c.Desc("%s\n%s", call, src)
	rec.take()
	var d *golisp.Data
	var err error
	out := withMode(9, func() { d, err = golisp.ParseAndEval(call) })
	tr := rec.take()
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig+":"+src, "%s\n%s\n%s", fmt.Sprintf(f, a...), src, head(out, 1500))
	}
	if err != nil {
		fail("run", "%s failed: %v", call, err)
		return
	}
	got := counts{}
	for name, p := range map[string]*int{"number-of-passes": &got.p, "number-of-failures": &got.f, "number-of-errors": &got.e} {
		*p = int(golisp.IntegerValue(golisp.Global.ValueOf(symD(name))))
	}
	if got != n {
		fail("counts", "counted %d passes, %d failures, %d errors; want %d, %d, %d", got.p, got.f, got.e, n.p, n.f, n.e)
		return
	}
	if golisp.BooleanValue(d) != (n.f == 0 && n.e == 0) {
		fail("result", "the result is %s", canonD(d))
		return
	}
	if len(tr) != ticks {
		fail("ticks", "%d markers were evaluated, want %d: %v", len(tr), ticks, tr)
		return
	}
	for _, m := range []struct {
		name string
		want []string
	}{{"failure-messages", failures}, {"error-messages", errs}} {
		var have []string
		for _, x := range golisp.ToArray(golisp.Global.ValueOf(symD(m.name))) {
			s := golisp.StringValue(x)
			if k := strings.Index(s, ":\n"); k >= 0 {
				s = s[:k]
			}
			have = append(have, s)
		}
		if sortedCopy(have) != sortedCopy(m.want) {
			fail(m.name, "%s belong to %v, want %v", m.name, have, m.want)
			return
		}
	}
	var have []string
	for _, x := range golisp.ToArray(golisp.Global.ValueOf(symD("error-messages"))) {
		have = append(have, strings.ReplaceAll(golisp.StringValue(x), ":\n    ERROR: ", " "))
	}
	have, says = strings.Split(strings.ReplaceAll(sortedLines(have), "\"", ""), "\n"), strings.Split(sortedLines(says), "\n")
	if len(errs) > 0 && strings.Join(have, "\n") != strings.Join(says, "\n") {
		fail("said", "the errors are reported as\n%s\nwant\n%s", strings.Join(have, "\n"), strings.Join(says, "\n"))
		return
	}
	if !strings.Contains(out, fmt.Sprintf("Ran %d tests in ", n.p+n.f+n.e)) || !strings.Contains(out, fmt.Sprintf("%d passes, %d failures, %d errors\n", n.p, n.f, n.e)) {
		fail("summary", "the summary does not show %d passes, %d failures, %d errors", n.p, n.f, n.e)
		return
	}
	for _, f := range append(append([]string{}, failures...), errs...) {
		if !strings.Contains(out, "  "+f+":\n") {
			fail("report", "the summary does not show the failure or error in %s", f)
			return
		}
	}
	c.Count("runs", 1)
	c.Count("passes", n.p)
	c.Count("failures", n.f)
	c.Count("errors", n.e)
	if all {
		c.Count("directories", 1)
	}
	c.Distinct(src)
	if c.Idx < 2 {
		c.Sample(c.desc)
	}
}

func init() {
	register(&Check{
		ID: "C36", Setup: setupStreams, Need: []string{"refs", "whole", "infinite", "finite", "forced", "events"},
		Rule: "random stream expressions (sources whose elements emit marker events, intervals, the named infinite streams, map, filter, add, scale, merge, partial sums, nested) and histories of accesses (stream-ref, for-each, cdr, printing, a second stream over the first); values and the multiset of marker events of every access compared with lazy memoised lists in Go; delay/force likewise in order; distinct by expression",
		Phases: []Phase{
			{Name: "streams", Quick: 15000, Thorough: 300000, Run: c36Streams},
			{Name: "delay", Quick: 6000, Thorough: 60000, Run: c36Delay},
		},
		Assumptions: []string{"scale-stream and partial-sums are given streams that do not end (they do not test for the end); stream-map ends with its first stream"},
	})
	register(&Check{
		ID: "C37", Setup: setupTesting, Need: []string{"runs", "passes", "failures", "errors", "directories"},
		Rule: "random test files with assertions of every kind whose outcome is known (pass, failure, error), run by run-test and run-all-tests, verbose and not: counters, messages, result, summary and the marker events of the asserted expressions compared with what the file contains; distinct by files",
		Phases: []Phase{
			{Name: "run", Quick: 16000, Thorough: 100000, Run: c37Run},
		},
		Assumptions: []string{"labels are strings; tests do not redefine the framework's functions or use a variable named it-clause"},
	})
}
