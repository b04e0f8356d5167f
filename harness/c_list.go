package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C11: lists as mathematical sequences ---------------------------------------------

// a small pool makes duplicates frequent
func genElem(r *rand.Rand, d int) V {
	switch r.Intn(8) {
	case 0, 1, 2:
		return int64(r.Intn(6))
	case 3:
		return Sym([]string{"a", "b", "c"}[r.Intn(3)])
	case 4:
		return Str([]string{"", "a", "x y"}[r.Intn(3)])
	case 5:
		return []V{Nil, false, true, float32(1), float32(2.5), list(Nil), list(list())}[r.Intn(7)]
	case 6:
		v := genAtom(r, valOpts{floats: true, syms: true, bytes: true})
		if s, ok := v.(Sym); ok && (strings.HasPrefix(string(s), "quo") || strings.HasPrefix(string(s), "unq")) {
			return Sym("q")
		}
		return v
	}
	if d <= 0 {
		return Nil
	}
	return list(genSeq(r, r.Intn(4), d-1)...)
}

func genSeq(r *rand.Rand, n, d int) []V {
	out := make([]V, n)
	for i := range out {
		out[i] = genElem(r, d)
		if i > 0 && r.Intn(4) == 0 {
			out[i] = out[r.Intn(i)]
		}
	}
	return out
}

func seqLen(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		if r.Intn(4) == 0 {
			if r.Intn(12) == 0 {
				return 200 + r.Intn(1500)
			}
			return 40 + r.Intn(120)
		}
		return 10 + r.Intn(30)
	}
	return r.Intn(13)
}

// buildExpr: an expression that evaluates to the list l, by a random constructor
func buildExpr(r *rand.Rand, l []V, d int) V {
	qs := func(x []V) []V {
		out := make([]V, len(x))
		for i := range x {
			out[i] = q(x[i])
			if p, ok := toProper(x[i]); ok && d > 0 && r.Intn(3) == 0 {
				out[i] = buildExpr(r, p, d-1)
			}
		}
		return out
	}
	call := func(op string, a ...V) V { return listTail(append([]V{Sym(op)}, a...), Nil) }
	if d <= 0 {
		if r.Intn(2) == 0 {
			return list(Sym("quote"), list(l...))
		}
		return call("list", qs(l)...)
	}
	switch r.Intn(13) {
	case 0:
		return list(Sym("quote"), list(l...))
	case 1, 2:
		return call("list", qs(l)...)
	case 3:
		if len(l) == 0 {
			return []V{list(Sym("list")), list(Sym("quote"), Nil), Nil, list(Sym("cdr"), list(Sym("list"), int64(1)))}[r.Intn(4)]
		}
		return call("cons", q(l[0]), buildExpr(r, l[1:], d-1))
	case 4:
		k := r.Intn(len(l) + 1)
		return call("cons*", append(qs(l[:k]), buildExpr(r, l[k:], d-1))...)
	case 5:
		k := r.Intn(len(l) + 1)
		return call("append", buildExpr(r, l[:k], d-1), buildExpr(r, l[k:], d-1))
	case 6:
		rev := make([]V, len(l))
		for i := range l {
			rev[len(l)-1-i] = l[i]
		}
		return call("reverse", buildExpr(r, rev, d-1))
	case 7:
		return list(append([]V{list(Sym("lambda"), cons(Sym("p0"), Sym("ps")), list(Sym("list-tail"), list(Sym("cons"), Sym("p0"), Sym("ps")), int64(1))), int64(9)}, qs(l)...)...)
	case 8:
		return call("apply", Sym("list"), buildExpr(r, l, d-1))
	case 9:
		extra := genSeq(r, r.Intn(3), 1)
		return call("list-tail", buildExpr(r, append(append([]V{}, extra...), l...), d-1), int64(len(extra)))
	case 10:
		extra := genSeq(r, r.Intn(3), 1)
		return call([]string{"list-head"}[0], buildExpr(r, append(append([]V{}, l...), extra...), d-1), int64(len(l)))
	case 11:
		if len(l) == 0 {
			return call("make-list", int64(0), int64(1))
		}
		same := true
		for _, x := range l {
			same = same && canon(x) == canon(l[0])
		}
		if same {
			return call("make-list", int64(len(l)), q(l[0]))
		}
		return call("map", list(Sym("lambda"), list(Sym("x")), Sym("x")), buildExpr(r, l, d-1))
	default:
		return call("copy", buildExpr(r, l, d-1))
	}
}

func toProper(v V) ([]V, bool) {
	switch v.(type) {
	case *Pair, NilT:
		s, ok := toSlice(v)
		return s, ok
	}
	return nil, false
}

// checkExpr evaluates an expression given as a value and compares.
func checkExpr(c *Case, op string, x V, w want) *golisp.Data {
	src := show(x)
	c.Desc("%s", src)
	d, err := evalText(src, freshEnv())
	c.Count("calls", 1)
	c.Count("op_"+op, 1)
	c.Distinct(src)
	judge(c, src, d, err, w)
	return d
}

func call(op string, a ...V) V { return listTail(append([]V{Sym(op)}, a...), Nil) }

func flat(l []V, deep bool) []V {
	var out []V
	for _, x := range l {
		if s, ok := toProper(x); ok {
			if deep {
				out = append(out, flat(s, true)...)
			} else {
				out = append(out, s...)
			}
		} else {
			out = append(out, x)
		}
	}
	return out
}

func contains(l []V, x V) bool {
	k := canon(x)
	for _, y := range l {
		if canon(y) == k {
			return true
		}
	}
	return false
}

func dedup(l []V) []V {
	var out []V
	for _, x := range l {
		if !contains(out, x) {
			out = append(out, x)
		}
	}
	return out
}

var ordinals = []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"}

// cxr walks a reference value; ok=false when it would step into a non-pair other than ()
func cxr(v V, path string) (V, bool) {
	for i := len(path) - 1; i >= 0; i-- {
		switch p := v.(type) {
		case NilT:
		case *Pair:
			if path[i] == 'a' {
				v = p.A
			} else {
				v = p.D
			}
		default:
			return nil, false
		}
	}
	return v, true
}

func c11Access(c *Case) {
	r := c.R
	l := genSeq(r, seqLen(r), 3)
	e := buildExpr(r, l, 2)
	n := int64(len(l))
	idx := func() int64 {
		switch r.Intn(8) {
		case 0:
			return n
		case 1:
			return n + 1 + int64(r.Intn(3))
		case 2:
			return 0
		case 3:
			return edgeInts[r.Intn(len(edgeInts))]
		}
		return int64(r.Intn(len(l) + 1))
	}
	clip := func(i int64) int { // 0..n
		if i < 0 {
			return 0
		}
		if i > n {
			return len(l)
		}
		return int(i)
	}
	switch r.Intn(12) {
	case 0:
		checkExpr(c, "length", call("length", e), wV(n))
	case 1:
		if r.Intn(2) == 0 {
			op := []string{"car", "head"}[r.Intn(2)]
			v, _ := cxr(list(l...), "a")
			checkExpr(c, op, call(op, e), wV(v))
		} else {
			op := []string{"cdr", "rest", "tail"}[r.Intn(3)]
			v, _ := cxr(list(l...), "d")
			checkExpr(c, op, call(op, e), wV(v))
		}
	case 2, 3: // c[ad]{2,4}r over a tree
		k := 2 + r.Intn(3)
		p := ""
		for i := 0; i < k; i++ {
			p += string("ad"[r.Intn(2)])
		}
		t := genTree(r, 5)
		if v, ok := cxr(t, p); ok {
			checkExpr(c, "cxr", call("c"+p+"r", q(t)), wV(v))
		}
		// general-car-cdr: path bits from the right, 1=car 0=cdr
		bits := int64(1)
		for i := 0; i < len(p); i++ {
			bits <<= 1
			if p[i] == 'a' {
				bits |= 1
			}
		}
		if v, ok := cxr(t, p); ok {
			checkExpr(c, "general-car-cdr", call("general-car-cdr", q(t), bits), wV(v))
		}
		if r.Intn(3) == 0 { // a long way
			var x V = Sym("goal")
			t, bits = x, int64(1)
			for n := 5 + r.Intn(58); n > 0; n-- { // the last step comes first
				if r.Intn(2) == 0 {
					t, bits = cons(t, genElem(r, 1)), bits<<1|1
				} else {
					t, bits = cons(genElem(r, 1), t), bits<<1
				}
			}
			checkExpr(c, "general-car-cdr", call("general-car-cdr", q(t), bits), wV(x))
		}
	case 4:
		k := r.Intn(10)
		var v V = Nil
		if k < len(l) {
			v = l[k]
		}
		checkExpr(c, "ordinal", call(ordinals[k], e), wV(v))
	case 5:
		i := idx()
		var v V = Nil
		if i >= 1 && i <= n {
			v = l[i-1]
		}
		checkExpr(c, "nth", call("nth", e, i), wV(v))
	case 6:
		i := idx()
		if i == 1<<63-1 {
			return
		}
		var v V = Nil
		if i >= 0 && i < n {
			v = l[i]
		}
		checkExpr(c, "list-ref", call("list-ref", e, i), wV(v))
	case 7:
		i := idx()
		checkExpr(c, "take", call("take", i, e), wV(list(l[:clip(i)]...)))
	case 8:
		i := idx()
		checkExpr(c, "drop", call("drop", i, e), wV(list(l[clip(i):]...)))
	case 9:
		i := idx()
		if r.Intn(2) == 0 {
			checkExpr(c, "list-head", call("list-head", e, i), wV(list(l[:clip(i)]...)))
		} else {
			checkExpr(c, "list-tail", call("list-tail", e, i), wV(list(l[clip(i):]...)))
		}
	case 10:
		a, b := idx(), idx()
		w := want{}
		switch {
		case a <= 0 || b <= 0:
			w.err = true
		case a >= b:
			w.v = Nil
		default:
			lo, hi := clip(a-1), clip(b-1)
			w.v = list(l[lo:hi]...)
		}
		checkExpr(c, "sublist", call("sublist", e, a, b), w)
	case 11:
		if len(l) == 0 {
			checkExpr(c, "last-pair", call("last-pair", e), wErr)
		} else {
			checkExpr(c, "last-pair", call("last-pair", e), wV(list(l[len(l)-1])))
		}
	}
}

func genTree(r *rand.Rand, d int) V {
	if d == 0 || r.Intn(8) == 0 {
		return []V{int64(r.Intn(9)), Sym("t"), Nil, Str("s")}[r.Intn(4)]
	}
	if r.Intn(5) == 0 {
		return list(genSeq(r, r.Intn(6), 2)...)
	}
	return cons(genTree(r, d-1), genTree(r, d-1))
}

func c11Build(c *Case) {
	r := c.R
	l := genSeq(r, seqLen(r), 2)
	m := genSeq(r, seqLen(r), 2)
	e := buildExpr(r, l, 2)
	switch r.Intn(9) {
	case 0:
		checkExpr(c, "build", e, wV(list(l...)))
	case 1:
		v := genElem(r, 2)
		checkExpr(c, "cons", call("cons", q(v), e), wV(list(append([]V{v}, l...)...)))
		w := genElem(r, 2)
		checkExpr(c, "cons", call("cons", q(v), q(w)), wV(cons(v, w)))
	case 2:
		t := genElem(r, 2)
		checkExpr(c, "cons*", listTail(append([]V{Sym("cons*")}, append(qall(l), q(t))...), Nil), wV(listTail(l, t)))
	case 3:
		var parts []V
		var all []V
		np := r.Intn(5)
		if r.Intn(8) == 0 {
			np = 5 + r.Intn(20)
		}
		for i := 0; i < np; i++ {
			p := genSeq(r, r.Intn(5), 2)
			if r.Intn(5) == 0 {
				p = nil
			}
			if r.Intn(20) == 0 {
				p = genSeq(r, 10+r.Intn(30), 1)
			}
			if r.Intn(8) == 0 { // what is not a list counts as one element
				a := []V{int64(42), Str("s"), true, float32(2), Sym("a")}[r.Intn(5)]
				parts = append(parts, q(a))
				all = append(all, a)
				continue
			}
			parts = append(parts, buildExpr(r, p, 1))
			all = append(all, p...)
		}
		checkExpr(c, "append", call("append", parts...), wV(list(all...)))
	case 4:
		rev := make([]V, len(l))
		for i := range l {
			rev[len(l)-1-i] = l[i]
		}
		checkExpr(c, "reverse", call("reverse", e), wV(list(rev...)))
	case 5:
		checkExpr(c, "flatten", call("flatten", e), wV(list(flat(l, false)...)))
	case 6:
		if r.Intn(4) == 0 { // far down
			var deep V = list(l...)
			for n := 1 + r.Intn(50); n > 0; n-- {
				x := append(genSeq(r, r.Intn(3), 1), deep)
				deep = list(append(x, genSeq(r, r.Intn(2), 1)...)...)
			}
			l, _ = toProper(deep)
			e = q(deep)
		}
		checkExpr(c, "flatten*", call("flatten*", e), wV(list(flat(l, true)...)))
	case 7:
		k := int64(r.Intn(30) - 2)
		v := genElem(r, 2)
		if r.Intn(8) == 0 {
			k = int64([]int{126, 255, 1022, 4094}[r.Intn(4)] + r.Intn(5))
			v = int64(r.Intn(9))
		}
		w := want{}
		if k < 0 {
			w.err = true
		} else {
			var x []V
			for i := int64(0); i < k; i++ {
				x = append(x, v)
			}
			w.v = list(x...)
		}
		checkExpr(c, "make-list", call("make-list", k, q(v)), w)
	case 8:
		k := 1 + r.Intn(6)
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(40)
			if r.Intn(2) == 0 { // a given number of elements left over
				l = genSeq(r, k*(1+r.Intn(3))+r.Intn(3), 1)
				e = buildExpr(r, l, 1)
			}
		}
		if r.Intn(10) == 0 {
			checkExpr(c, "partition", call("partition", int64(-r.Intn(3)), e), wErr)
			return
		}
		var ps []V
		for i := 0; i < len(l); i += k {
			j := i + k
			if j > len(l) {
				j = len(l)
			}
			ps = append(ps, list(l[i:j]...))
		}
		checkExpr(c, "partition", call("partition", int64(k), e), wV(list(ps...)))
	}
	_ = m
}

func qall(l []V) []V {
	out := make([]V, len(l))
	for i := range l {
		out[i] = q(l[i])
	}
	return out
}

func c11Sets(c *Case) {
	r := c.R
	n := 1 + r.Intn(4)
	if r.Intn(8) == 0 {
		n = 5 + r.Intn(15)
	}
	var sets [][]V
	var exprs []V
	big := r.Intn(20) == 0
	if big {
		c.Count("large_sets", 1)
	}
	for i := 0; i < n; i++ {
		s := genSeq(r, r.Intn(9), 2)
		if i > 0 && n > 4 { // most of the first one stays
			s = append(s, sets[0]...)
			for k := r.Intn(3); k > 0 && len(s) > 0; k-- {
				j := r.Intn(len(s))
				s = append(s[:j:j], s[j+1:]...)
			}
		}
		if big {
			for k := 30 + r.Intn(70); k > 0; k-- {
				s = append(s, int64(r.Intn(150)))
			}
		}
		if i > 0 && r.Intn(2) == 0 {
			s = append(s, sets[r.Intn(i)]...)
			r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		}
		sets = append(sets, s)
		exprs = append(exprs, buildExpr(r, s, 1))
	}
	memberAll := func(x V) bool {
		for _, s := range sets[1:] {
			if !contains(s, x) {
				return false
			}
		}
		return true
	}
	memberAny := func(x V) bool {
		for _, s := range sets[1:] {
			if contains(s, x) {
				return true
			}
		}
		return false
	}
	switch r.Intn(5) {
	case 0:
		var all []V
		for _, s := range sets {
			all = append(all, s...)
		}
		checkExpr(c, "union", call("union", exprs...), wV(list(dedup(all)...)))
	case 1:
		var out []V
		for _, x := range sets[0] {
			if memberAll(x) {
				out = append(out, x)
			}
		}
		checkExpr(c, "intersection", call("intersection", exprs...), wV(list(out...)))
	case 2:
		var out []V
		for _, x := range sets[0] {
			if !memberAny(x) {
				out = append(out, x)
			}
		}
		checkExpr(c, "complement", call("complement", exprs...), wV(list(out...)))
	default:
		x := genElem(r, 2)
		if len(sets[0]) > 0 && r.Intn(3) > 0 {
			x = sets[0][r.Intn(len(sets[0]))]
		}
		var v V = false
		for i, y := range sets[0] {
			if canon(x) == canon(y) {
				v = list(sets[0][i:]...)
				break
			}
		}
		op := []string{"memq", "memv", "member"}[r.Intn(3)]
		checkExpr(c, op, call(op, q(x), exprs[0]), wV(v))
	}
}

func c11Sort(c *Case) {
	r := c.R
	n := seqLen(r)
	if r.Intn(4) == 0 {
		n = 12 + r.Intn(80)
	}
	kind := r.Intn(4)
	l := make([]V, n)
	for i := range l {
		switch kind {
		case 0:
			l[i] = genInt(r)
		case 1:
			l[i] = int64(r.Intn(6))
		case 2:
			l[i] = Str(genStr(r))
			if r.Intn(3) == 0 {
				l[i] = Str(strings.Repeat([]string{"ab", "a", "long text "}[r.Intn(3)], r.Intn(12)) + genStr(r))
			}
		case 3:
			l[i] = list(int64(r.Intn(8)), int64(i))
		}
	}
	var less string
	var lt func(a, b V) bool
	switch kind {
	case 0, 1:
		k := r.Intn(4)
		less = []string{"<", ">", "(lambda (a b) (< a b))", "(lambda (a b) (< (% a 3) (% b 3)))"}[k]
		lt = func(a, b V) bool {
			x, y := a.(int64), b.(int64)
			switch k {
			case 1:
				return x > y
			case 3:
				return x%3 < y%3
			}
			return x < y
		}
	case 2:
		k := r.Intn(4)
		less = []string{"string<?", "(lambda (a b) (string>? b a))", "string>?", "(lambda (a b) (string<? b a))"}[k]
		lt = func(a, b V) bool {
			if k >= 2 {
				a, b = b, a
			}
			return a.(Str) < b.(Str)
		}
	case 3:
		less = "(lambda (a b) (< (car a) (car b)))"
		lt = func(a, b V) bool { return a.(*Pair).A.(int64) < b.(*Pair).A.(int64) }
	}
	src := "(sort " + show(buildExpr(r, l, 1)) + " " + less + ")"
	c.Desc("%s", src)
	d, err := evalText(src, freshEnv())
	c.Count("calls", 1)
	c.Count("op_sort", 1)
	c.Count("sorted_elements", n)
	c.Distinct(src)
	// ordered permutation: elements that tie may come in any order
	judge(c, src, d, err, want{pred: func(d *golisp.Data) string {
		var got []string
		for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
			got = append(got, canonD(golisp.Car(x)))
		}
		byCanon := map[string]V{}
		var exp []string
		for _, v := range l {
			byCanon[canon(v)] = v
			exp = append(exp, canon(v))
		}
		g2 := append([]string{}, got...)
		sort.Strings(g2)
		sort.Strings(exp)
		if strings.Join(g2, "\n") != strings.Join(exp, "\n") {
			return "is not a permutation of the input"
		}
		for i := 1; i < len(got); i++ {
			if lt(byCanon[got[i]], byCanon[got[i-1]]) {
				return fmt.Sprintf("is not ordered at position %d", i)
			}
		}
		return ""
	}})
}

// sequences of mutations of lists held in variables; the model shares cells exactly where the
// program makes two names for one list
func c11Mutate(c *Case) {
	r := c.R
	var prog []string
	vars := []string{"la", "lb", "lc"}
	ref := map[string]*[]V{}
	add := func(f string, a ...interface{}) { prog = append(prog, fmt.Sprintf(f, a...)) }
	for _, v := range vars {
		l := genSeq(r, 1+r.Intn(6), 2)
		add("(define %s %s)", v, show(freshList(r, l)))
		ll := l
		ref[v] = &ll
	}
	if r.Intn(3) == 0 { // two names for one list
		add("(define lc la)")
		ref["lc"] = ref["la"]
	}
	for i := 0; i < 3+r.Intn(8); i++ {
		v := vars[r.Intn(3)]
		l := ref[v]
		x := genElem(r, 2)
		n := len(*l)
		k := r.Intn(n)
		switch r.Intn(7) {
		case 0:
			add("(set-car! %s %s)", v, show(q(x)))
			(*l)[0] = x
		case 1:
			add("(set-car! (list-tail %s %d) %s)", v, k, show(q(x)))
			(*l)[k] = x
		case 2:
			m := genSeq(r, r.Intn(4), 2)
			add("(set-cdr! (list-tail %s %d) %s)", v, k, show(freshList(r, m)))
			*l = append((*l)[:k+1:k+1], m...)
		case 3:
			add("(set-nth! %s %d %s)", v, k+1, show(q(x)))
			(*l)[k] = x
		case 4:
			m := genSeq(r, r.Intn(4), 2)
			add("(append! %s %s)", v, show(freshList(r, m)))
			*l = append((*l)[:n:n], m...)
		case 5:
			a := int64(5)
			add("(append! %s %d)", v, a)
			*l = append((*l)[:n:n], a)
		case 6: // derived copies are independent of later mutation
			op := []string{"reverse", "append", "take"}[r.Intn(3)]
			nm := fmt.Sprintf("ld%d", i)
			nl := append([]V{}, (*l)...)
			switch op {
			case "reverse":
				add("(define %s (reverse %s))", nm, v)
				for a, b := 0, len(nl)-1; a < b; a, b = a+1, b-1 {
					nl[a], nl[b] = nl[b], nl[a]
				}
			case "append":
				add("(define %s (append %s '(z)))", nm, v)
				nl = append(nl, Sym("z"))
			case "take":
				add("(define %s (take %d %s))", nm, k, v)
				nl = nl[:k:k]
			}
			ref[nm] = &nl
		}
		if r.Intn(3) == 0 {
			add("(vh-tick 'len (length %s))", v)
		}
	}
	env := freshEnv()
	c.Desc("%s", strings.Join(prog, "\n"))
	rec.take()
	for _, p := range prog {
		if _, err := evalText(p, env); err != nil {
			c.Fail("mut:"+p, "%s failed: %v\nin\n%s", p, err, strings.Join(prog, "\n"))
			return
		}
		c.Count("mutations", 1)
	}
	c.Distinct(c.desc)
	names := make([]string, 0, len(ref))
	for n := range ref {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d, err := evalText(n, env)
		if w := canon(list(*ref[n]...)); err != nil || canonD(d) != w {
			c.Fail("mutval:"+c.desc, "after\n%s\n%s is %s\n want %s", c.desc, n, canonD(d), w)
		}
		d, err = evalText("(length "+n+")", env)
		if err != nil || golisp.IntegerValue(d) != int64(len(*ref[n])) {
			c.Fail("mutlen:"+c.desc, "after\n%s\n(length %s) is %s want %d", c.desc, n, canonD(d), len(*ref[n]))
		}
	}
}

// mcell is a cell of the mutable model.
type mcell struct {
	car V
	cdr *mcell
}

func mcells(l []V, tail *mcell) *mcell {
	for i := len(l) - 1; i >= 0; i-- {
		tail = &mcell{l[i], tail}
	}
	return tail
}

func (m *mcell) slice() (out []V) {
	for ; m != nil; m = m.cdr {
		out = append(out, m.car)
	}
	return
}

func (m *mcell) at(k int) *mcell {
	for ; k > 0; k-- {
		m = m.cdr
	}
	return m
}

// c11Cells: which lists share cells. Results of the constructing operations are new lists, the
// results of drop, list-tail, cons and their like continue in their argument.
func c11Cells(c *Case) {
	r := c.R
	env := freshEnv()
	model := map[string]*mcell{}
	var names, prog []string
	do := func(f string, a ...interface{}) bool {
		t := fmt.Sprintf(f, a...)
		prog = append(prog, t)
		if _, err := evalText(t, env); err != nil {
			c.Fail("cells:"+t, "%s failed: %v\nin\n%s", t, err, strings.Join(prog, "\n"))
			return false
		}
		return true
	}
	def := func(m *mcell, f string, a ...interface{}) bool {
		n := fmt.Sprintf("l%d", len(names))
		names = append(names, n)
		model[n] = m
		return do("(define %s %s)", n, fmt.Sprintf(f, a...))
	}
	num := func() int64 { return int64(r.Intn(8)) }
	nums := func(n int) (l []V) {
		for ; n > 0; n-- {
			l = append(l, num())
		}
		return
	}
	l := nums(1 + r.Intn(6))
	if !def(mcells(l, nil), "%s", show(freshList(r, l))) {
		return
	}
	for step := 0; step < 4+r.Intn(10); step++ {
		v := names[r.Intn(len(names))]
		m := model[v]
		l := m.slice()
		n := len(l)
		ok := true
		cp := func(l []V) *mcell { return mcells(append([]V{}, l...), nil) }
		upto := func(k int) int {
			if k > n {
				return n
			}
			return k
		}
		switch k := r.Intn(n + 3); r.Intn(30) {
		case 0:
			ok = def(cp(l[:upto(k)]), "(take %d %s)", k, v)
		case 1:
			ok = def(cp(l[:upto(k)]), "(list-head %s %d)", v, k)
		case 2:
			ok = def(m.at(upto(k)), "(drop %d %s)", k, v)
		case 3:
			ok = def(m.at(upto(k)), "(list-tail %s %d)", v, k)
		case 4:
			x := num()
			ok = def(&mcell{x, m}, "(cons %d %s)", x, v)
		case 5:
			x, y := num(), num()
			ok = def(&mcell{x, &mcell{y, m}}, "(cons* %d %d %s)", x, y, v)
		case 6:
			ok = def(cp(l), "(append %s)", v)
		case 7:
			ok = def(cp(l), "(append %s '())", v)
		case 8:
			ok = def(cp(l), "(append '() %s)", v)
		case 9:
			w := names[r.Intn(len(names))]
			ok = def(cp(append(append([]V{}, l...), model[w].slice()...)), "(append %s %s)", v, w)
		case 10:
			ok = def(cp(l), "(copy %s)", v)
		case 11:
			x := cp(nil)
			for _, e := range l {
				x = &mcell{e, x}
			}
			ok = def(x, "(reverse %s)", v)
		case 12:
			ok = def(cp(l), []string{"(map (lambda (x) x) %s)", "(filter integer? %s)", "(filter (lambda (x) #t) %s)", "(remove (lambda (x) #f) %s)", "(flatten %s)", "(flatten* %s)", "(fold-right cons '() %s)", "(apply list %s)", "(sort %s (lambda (a b) #f))", "(reverse (reverse %s))", "(car (partition 1000 %s))", "(sublist %s 1 1000)", "(eval (cons 'list %s))", "`(,@%s)"}[r.Intn(14)], v)
		case 13:
			a, b := 1+r.Intn(n+2), 1+r.Intn(n+3)
			var s []V
			for i := a; i < b && i <= n; i++ {
				s = append(s, l[i-1])
			}
			ok = def(cp(s), "(sublist %s %d %d)", v, a, b)
		case 14:
			if n > 0 {
				ok = def(m.at(n-1), "(last-pair %s)", v)
			}
		case 15:
			x := num()
			t := m
			for t != nil && t.car != V(x) {
				t = t.cdr
			}
			if t != nil {
				ok = def(t, "(%s %d %s)", []string{"memq", "member", "memv"}[r.Intn(3)], x, v)
			}
		case 16:
			x := num()
			t := m
			for t != nil && t.car != V(x) {
				t = t.cdr
			}
			if t != nil {
				ok = def(t, "(find-tail (lambda (e) (eqv? e %d)) %s)", x, v)
			}
		case 17:
			ok = def(m, "%s", v)
		case 18:
			s := append([]V{}, l...)
			sort.SliceStable(s, func(i, j int) bool { return s[i].(int64) < s[j].(int64) })
			ok = def(mcells(s, nil), "(sort %s <)", v)
		case 19:
			if n > 0 {
				ok = def(cp(dedup(l)), "(union %s)", v)
			}
		case 20:
			ok = def(cp(l), "(%s %s)", []string{"intersection", "complement"}[r.Intn(2)], v)
		case 21, 22:
			if n > 0 {
				x := num()
				m.at(k % n).car = x
				ok = do([]string{"(set-car! (list-tail %s %d) %d)", "(set-car! (drop %[2]d %[1]s) %[3]d)"}[r.Intn(2)], v, k%n, x)
			}
		case 23, 24:
			if n > 0 {
				x := num()
				m.at(k % n).car = x
				ok = do("(set-nth! %s %d %d)", v, k%n+1, x)
			}
		case 25, 26:
			if n > 0 {
				t := cp(nums(r.Intn(3)))
				m.at(k % n).cdr = t
				ok = do("(set-cdr! (list-tail %s %d) %s)", v, k%n, show(freshList(r, t.slice())))
			}
		case 27:
			if n > 0 {
				t := cp(nums(r.Intn(3)))
				m.at(n - 1).cdr = t
				e := show(freshList(r, t.slice()))
				if r.Intn(4) == 0 { // the first operand has been evaluated by then
					e = fmt.Sprintf("(begin (set! %s %s) %s)", v, show(freshList(r, nums(r.Intn(3)))), e)
				}
				ok = do("(append! %s %s)", v, e)
			}
		case 28:
			if n > 0 {
				m.at(n - 1).cdr = &mcell{int64(5), nil}
				ok = do("(append! %s 5)", v)
			}
		case 29: // the second list becomes the end of the first
			w := names[r.Intn(len(names))]
			cyc := n == 0
			for t := model[w]; t != nil && !cyc; t = t.cdr {
				cyc = t == m.at(n-1)
			}
			if !cyc && len(model[w].slice()) < 40 {
				m.at(n - 1).cdr = model[w]
				ok = do("(append! %s %s)", v, w)
			}
		}
		if !ok {
			return
		}
		for _, x := range names {
			d, err := evalText(x, env)
			if w := canon(list(model[x].slice()...)); err != nil || canonD(d) != w {
				c.Fail("cells:"+strings.Join(prog, "\n"), "after\n%s\n%s is %s\n want %s", strings.Join(prog, "\n"), x, canonD(d), w)
				return
			}
		}
		c.Count("cell_steps", 1)
	}
	c.Distinct(strings.Join(prog, "\n"))
}

// hcell is a cell of a heap model in which elements and tails may be cells too.
type hcell struct{ car, cdr V } // a V here is an atom, Nil or *hcell

func hcanon(b *strings.Builder, v V, left *int) {
	*left--
	if *left < 0 {
		return
	}
	p, ok := v.(*hcell)
	if !ok {
		canonTo(b, v)
		return
	}
	b.WriteByte('(')
	hcanon(b, p.car, left)
	for *left >= 0 {
		t, ok := p.cdr.(*hcell)
		if !ok {
			if !isNil(p.cdr) {
				b.WriteString(" . ")
				canonTo(b, p.cdr)
			}
			break
		}
		b.WriteByte(' ')
		hcanon(b, t.car, left)
		p = t
	}
	b.WriteByte(')')
}

func hreach(v V, goal *hcell, seen map[*hcell]bool) bool {
	for {
		p, ok := v.(*hcell)
		if !ok || seen[p] {
			return false
		}
		if p == goal {
			return true
		}
		seen[p] = true
		if hreach(p.car, goal, seen) {
			return true
		}
		v = p.cdr
	}
}

func hcells(v V) (cells []*hcell, proper bool) {
	for {
		p, ok := v.(*hcell)
		if !ok {
			return cells, isNil(v)
		}
		cells = append(cells, p)
		v = p.cdr
	}
}

// c11Heap: in-place changes that store lists inside lists, make tails of atoms and of other
// lists, through names in the same and in enclosing scopes; a heap of cells is the model.
func c11Heap(c *Case) {
	r := c.R
	env := freshEnv()
	vars := map[string]V{}
	var names, prog []string
	do := func(t string, val V) bool {
		switch r.Intn(6) {
		case 0:
			if !strings.HasPrefix(t, "(define") {
				t = "((lambda (zz) " + t + ") 1)"
			}
		case 1:
			if !strings.HasPrefix(t, "(define") {
				t = "(let ((zz 1)) (let ((yy 2)) " + t + "))"
			}
		}
		prog = append(prog, t)
		c.Desc("%s", strings.Join(prog, "\n"))
		d, err := evalText(t, env)
		if err != nil {
			c.Fail("heap:"+t, "%s failed: %v\nin\n%s", t, err, strings.Join(prog, "\n"))
			return false
		}
		if val != nil {
			var b strings.Builder
			left := 3000
			hcanon(&b, val, &left)
			if canonD(d) != b.String() {
				c.Fail("heapres:"+t, "%s returned %s want %s\nin\n%s", t, canonD(d), b.String(), strings.Join(prog, "\n"))
				return false
			}
		}
		return true
	}
	atom := func() V {
		return []V{int64(r.Intn(100)), Str("s"), false, true, Sym("a"), Nil, int64(-1), float32(0.5)}[r.Intn(8)]
	}
	fresh := func() (string, V) {
		n := 1 + r.Intn(8)
		if r.Intn(4) == 0 {
			n = 9 + r.Intn(50)
		}
		l := make([]V, n)
		var v V = Nil
		for i := n - 1; i >= 0; i-- {
			l[i] = atom()
			v = &hcell{l[i], v}
		}
		return show(freshList(r, l)), v
	}
	ref := func() (string, V) { // a name, and a way down from it
		e := names[r.Intn(len(names))]
		v := vars[e]
		for k := r.Intn(4); k > 0; k-- {
			cells, _ := hcells(v)
			if len(cells) == 0 {
				break
			}
			i := r.Intn(len(cells))
			v = cells[i]
			switch {
			case i == 0:
			case r.Intn(2) == 0 && i <= 3:
				e = "(c" + strings.Repeat("d", i) + "r " + e + ")"
			default:
				e = fmt.Sprintf("(list-tail %s %d)", e, i)
			}
			if h, ok := cells[i].car.(*hcell); ok && r.Intn(3) > 0 {
				e, v = "(car "+e+")", h
			}
		}
		return e, v
	}
	value := func() (string, V) {
		switch r.Intn(6) {
		case 0, 1:
			a := atom()
			return show(q(a)), a
		case 2:
			return fresh()
		}
		return ref()
	}
	def := func() bool {
		n := fmt.Sprintf("h%d", len(names))
		e, v := fresh()
		if len(names) > 1 && r.Intn(2) == 0 {
			e, v = ref()
		}
		names = append(names, n)
		vars[n] = v
		return do("(define "+n+" "+e+")", nil)
	}
	for i := 0; i < 2; i++ {
		if !def() {
			return
		}
	}
	for step := 0; step < 4+r.Intn(10); step++ {
		ok := true
		e, v := ref()
		cells, proper := hcells(v)
		x, xv := value()
		switch k := r.Intn(7); {
		case k == 0 && len(names) < 6:
			ok = def()
		case len(cells) == 0:
		case k <= 2:
			if !hreach(xv, cells[0], map[*hcell]bool{}) {
				cells[0].car = xv
				ok = do(fmt.Sprintf("(set-car! %s %s)", e, x), xv)
			}
		case k == 3:
			if !hreach(xv, cells[0], map[*hcell]bool{}) {
				cells[0].cdr = xv
				ok = do(fmt.Sprintf("(set-cdr! %s %s)", e, x), xv)
			}
		case k == 4 && proper:
			i := r.Intn(len(cells))
			if !hreach(xv, cells[i], map[*hcell]bool{}) {
				cells[i].car = xv
				ok = do(fmt.Sprintf("(set-nth! %s %d %s)", e, i+1, x), xv)
			}
		case proper:
			last := cells[len(cells)-1]
			h, isCell := xv.(*hcell)
			switch {
			case isCell && hreach(h, last, map[*hcell]bool{}):
				continue
			case isCell || isNil(xv):
				last.cdr = xv
			default:
				last.cdr = &hcell{xv, Nil}
			}
			ok = do(fmt.Sprintf("(append! %s %s)", e, x), v)
		}
		if !ok {
			return
		}
		for _, n := range names {
			var b strings.Builder
			left := 3000
			hcanon(&b, vars[n], &left)
			if left < 0 {
				return
			}
			d, err := evalText(n, env)
			if err != nil || canonD(d) != b.String() {
				c.Fail("heap:"+strings.Join(prog, "\n"), "after\n%s\n%s is %s\n want %s", strings.Join(prog, "\n"), n, canonD(d), b.String())
				return
			}
		}
		c.Count("heap_steps", 1)
	}
	c.Distinct(strings.Join(prog, "\n"))
}

// freshList: an expression making a list whose cells nothing else refers to
func freshList(r *rand.Rand, l []V) V {
	switch r.Intn(4) {
	case 0:
		return call("list", qall(l)...)
	case 1:
		var e V = list(Sym("quote"), Nil)
		for i := len(l) - 1; i >= 0; i-- {
			e = call("cons", q(l[i]), e)
		}
		return e
	case 2:
		return call("append", call("list", qall(l)...), list(Sym("list")))
	}
	return call("list-head", call("list", append(qall(l), int64(1))...), int64(len(l)))
}

func c11Wrong(c *Case) {
	r := c.R
	notList := []V{int64(3), Str("abc"), float32(1.5), true}[r.Intn(4)]
	notInt := []V{Sym("x"), Str("1"), list(int64(1)), true}[r.Intn(4)]
	l := list(int64(1), int64(2))
	cases := []V{
		call("take", int64(1), q(notList)), call("drop", int64(1), q(notList)), call("list-head", q(notList), int64(1)), call("list-tail", q(notList), int64(1)),
		call("nth", q(notList), int64(1)), call("list-ref", q(notList), int64(0)), call("sublist", q(notList), int64(1), int64(2)), call("last-pair", q(notList)),
		call("sort", q(notList), Sym("<")), call("sort", q(l), int64(3)), call("union", q(l), q(notList)), call("intersection", q(l), q(notList)), call("complement", q(l), q(notList)),
		call("intersection", q(notList), q(l)), call("complement", q(notList), q(l)),
		call("nth", q(l), q(notInt)), call("list-ref", q(l), q(notInt)), call("sublist", q(l), q(notInt), int64(2)), call("sublist", q(l), int64(1), q(notInt)),
		call("take", q(notInt), q(l)), call("drop", q(notInt), q(l)), call("list-head", q(l), q(notInt)), call("list-tail", q(l), q(notInt)), call("make-list", q(notInt), int64(1)),
		call("partition", q(notInt), q(l)), call("partition", int64(2), q(notList)), call("set-car!", q(notList), int64(1)), call("set-cdr!", q(notList), int64(1)), call("set-nth!", q(notList), int64(1), int64(1)),
		call("set-car!", q(Nil), int64(1)), call("set-cdr!", q(Nil), int64(1)), call("append!", q(notList), int64(1)),
		call("sort", q(list(int64(1), Sym("x"), int64(2))), Sym("<")), call("sort", q(list(int64(3), int64(2))), list(Sym("lambda"), list(Sym("a")), true)),
	}
	x := cases[r.Intn(len(cases))]
	checkExpr(c, "wrong", x, wErr)
}

func init() {
	register(&Check{
		ID: "C11", Setup: setupPrims,
		Need:        []string{"calls", "mutations", "op_sort", "op_union", "op_intersection", "op_complement", "op_sublist", "op_flatten*", "op_cxr", "op_partition", "op_append", "sorted_elements", "cell_steps", "heap_steps"},
		Rule:        "lists of 0 to 40 elements (duplicates, empty lists, nested lists as elements) built by a random composition of constructors, passed to each list operation with indices inside, at and beyond the limits; results compared with the sequence model; sort results checked to be an ordered permutation; sequences of mutators on variables and aliases compared with a mutable model; distinct by expression",
		Assumptions: []string{"cyclic lists and dotted lists given to operations on proper lists are not exercised"},
		Phases: []Phase{
			{Name: "access", Quick: 50000, Thorough: 800000, Run: c11Access},
			{Name: "build", Quick: 40000, Thorough: 600000, Run: c11Build},
			{Name: "sets", Quick: 30000, Thorough: 400000, Run: c11Sets},
			{Name: "sort", Quick: 8000, Thorough: 100000, Run: c11Sort},
			{Name: "mutate", Quick: 20000, Thorough: 300000, Run: c11Mutate},
			{Name: "cells", Quick: 20000, Thorough: 300000, Run: c11Cells},
			{Name: "heap", Quick: 15000, Thorough: 250000, Run: c11Heap},
			{Name: "wrong", Quick: 4000, Thorough: 20000, Run: c11Wrong},
		},
	})
}
