package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/steelseries/golisp"
)

// ---- C13: equality --------------------------------------------------------------------------

// AlistV is an association list as a map (keys unique), in order
type AlistV struct{ K, W []V }

type eqVal struct {
	v V
	x V // expression making it
}

// values for equality tests are made by expressions, so that the same content arises in different ways
func eqGen(r *rand.Rand, d int) V {
	if d >= 2 && r.Intn(150) == 0 { // large ones
		switch r.Intn(5) {
		case 0, 1:
			l := make([]V, r.Intn([]int{40, 300, 3000}[r.Intn(3)]))
			for i := range l {
				l[i] = eqGen(r, 0)
			}
			if len(l) > 0 && r.Intn(4) == 0 {
				return listTail(l, eqGen(r, 0))
			}
			return list(l...)
		case 2:
			f := &FrameV{map[string]V{}}
			for i := r.Intn(120); i > 0; i-- {
				f.M[fmt.Sprintf("s%d:", i)] = eqGen(r, 0)
			}
			return f
		case 3:
			a := &AlistV{}
			for i := 1 + r.Intn(120); i > 0; i-- {
				a.K, a.W = append(a.K, int64(i)), append(a.W, eqGen(r, 0))
			}
			return a
		default:
			v := eqGen(r, 0)
			for i := r.Intn(300); i > 0; i-- {
				v = list(v)
				if r.Intn(8) == 0 {
					v = list(eqGen(r, 0), v)
				}
			}
			return v
		}
	}
	switch r.Intn(12) {
	case 0, 1:
		if d > 0 {
			f := &FrameV{map[string]V{}}
			for i := 0; i < r.Intn(4); i++ {
				f.M[string("abc"[r.Intn(3)])+":"] = eqGen(r, d-1)
			}
			return f
		}
	case 2, 3:
		if d > 0 {
			a := &AlistV{}
			for i := 0; i < 1+r.Intn(4); i++ {
				k := V([]V{Sym("a"), Sym("b"), int64(1), Str("a"), Str("k"), int64(2)}[r.Intn(6)])
				if !contains(a.K, k) {
					a.K = append(a.K, k)
					a.W = append(a.W, eqGen(r, d-1))
				}
			}
			return a
		}
	case 4, 5, 6:
		if d > 0 {
			var l []V
			for i := 0; i < r.Intn(5); i++ {
				l = append(l, eqGen(r, d-1))
			}
			if len(l) > 0 && r.Intn(3) == 0 {
				return listTail(l, eqGen(r, 0))
			}
			return list(l...)
		}
	}
	switch r.Intn(12) {
	case 0:
		return int64(r.Intn(3))
	case 1:
		return float32(r.Intn(3))
	case 2:
		return Str([]string{"", "a", "A", "1", "b"}[r.Intn(5)])
	case 3:
		return Sym([]string{"a", "A", "b", "nilly"}[r.Intn(4)])
	case 4:
		return r.Intn(2) == 0
	case 5:
		return Nil
	case 6, 7:
		b := make([]byte, r.Intn(4))
		for i := range b {
			b[i] = byte(r.Intn(2))
		}
		return &Bytes{b}
	case 8:
		return edgeInts[r.Intn(len(edgeInts))]
	case 9:
		return genFloat(r)
	}
	return genAtom(r, valOpts{bytes: true, floats: true, syms: true})
}

// innerPair: the place of the last element of the list that is a list itself, or -1
func innerPair(v V) (l []V, at int) {
	at = -1
	l, ok := toSlice(v)
	if !ok || len(l) > 2 {
		return nil, -1
	}
	for i, e := range l {
		if _, ok := e.(*Pair); ok {
			at = i
		}
	}
	return
}

// tweakBelow makes the change k levels down
func tweakBelow(r *rand.Rand, v V, k int) V {
	l, at := innerPair(v)
	if k == 0 || at < 0 {
		return tweak(r, v)
	}
	l = append([]V{}, l...)
	l[at] = tweakBelow(r, l[at], k-1)
	return list(l...)
}

// tweak returns a near-equal variant (or an equal deep copy)
func tweak(r *rand.Rand, v V) V {
	switch x := v.(type) {
	case int64:
		return []V{x + 1, float32(x), x ^ 1<<40, Str(fmt.Sprint(x)), x}[r.Intn(5)]
	case float32:
		return []V{-x, x + 1, int64(1), x, math.Nextafter32(x, 1e38), math.Nextafter32(x, -1e38)}[r.Intn(6)]
	case Str:
		if rs := []rune(string(x)); len(rs) > 1 && r.Intn(3) == 0 {
			i := r.Intn(len(rs))
			rs[i] = rs[i]%100 + 'A'
			return Str(string(rs))
		}
		return []V{x + "x", Sym("a"), Str(strings.ToUpper(string(x))), x}[r.Intn(4)]
	case Sym:
		return []V{x + "x", Str(x), x}[r.Intn(3)]
	case bool:
		return []V{!x, Nil, Sym("t")}[r.Intn(3)]
	case NilT:
		return []V{list(Nil), false, &Bytes{}, &FrameV{map[string]V{}}}[r.Intn(4)]
	case *Bytes:
		b := append([]byte{}, x.B...)
		if len(b) > 0 && r.Intn(2) == 0 {
			b[r.Intn(len(b))] ^= 1
		} else if r.Intn(2) == 0 {
			b = append(b, 0)
		}
		return &Bytes{b}
	case *Pair:
		deep := 0
		for w := V(x); ; deep++ {
			l, at := innerPair(w)
			if at < 0 {
				break
			}
			w = l[at]
		}
		if deep > 8 && r.Intn(8) > 0 {
			if r.Intn(3) == 0 {
				return tweakBelow(r, x, deep)
			}
			return tweakBelow(r, x, 1+r.Intn(deep))
		}
		var l []V
		var t V = x
		for {
			p, ok := t.(*Pair)
			if !ok {
				break
			}
			l = append(l, p.A)
			t = p.D
		}
		switch r.Intn(7) {
		case 0:
			i := r.Intn(len(l))
			l[i] = tweak(r, l[i])
		case 1:
			l = l[:len(l)-1]
		case 2:
			l = append(l, int64(0))
		case 3:
			t = tweak(r, t)
		case 4:
			if isNil(t) {
				t = Sym("tail")
			} else {
				l, t = append(l, t), Nil
			}
		case 5:
			l = append(l, Nil)
		}
		return listTail(l, t)
	case *FrameV:
		f := &FrameV{map[string]V{}}
		ks := sortedKeys(x.M)
		for _, k := range ks {
			f.M[k] = x.M[k]
		}
		if len(ks) > 0 {
			k := ks[r.Intn(len(ks))]
			switch r.Intn(5) {
			case 0:
				delete(f.M, k)
			case 1:
				f.M[k] = tweak(r, f.M[k])
			case 2:
				f.M["z:"] = f.M[k]
				delete(f.M, k)
			case 3:
				f.M[k] = Nil
			}
		} else if r.Intn(2) == 0 {
			f.M["a:"] = Nil
		}
		return f
	case *AlistV:
		a := &AlistV{append([]V{}, x.K...), append([]V{}, x.W...)}
		i := r.Intn(len(a.K))
		switch r.Intn(5) {
		case 0:
			a.W[i] = tweak(r, a.W[i])
		case 1:
			if !contains(a.K, Sym("zz")) {
				a.K[i] = Sym("zz")
			}
		case 2: // another order
			r.Shuffle(len(a.K), func(i, j int) { a.K[i], a.K[j] = a.K[j], a.K[i]; a.W[i], a.W[j] = a.W[j], a.W[i] })
		case 3:
			if !contains(a.K, Sym("zy")) {
				a.K = append(a.K, Sym("zy"))
				a.W = append(a.W, Nil)
			}
		case 4: // a plain list with the same content
			var l []V
			for i := range a.K {
				l = append(l, cons(a.K[i], a.W[i]))
			}
			return list(l...)
		}
		return a
	}
	return v
}

func sortedKeys(m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// eqModel: structural equality
func eqModel(a, b V) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case *Pair:
		y, ok := b.(*Pair)
		return ok && eqModel(x.A, y.A) && eqModel(x.D, y.D)
	case *Bytes:
		y, ok := b.(*Bytes)
		return ok && string(x.B) == string(y.B)
	case *FrameV:
		y, ok := b.(*FrameV)
		if !ok || len(x.M) != len(y.M) {
			return false
		}
		for k, v := range x.M {
			w, ok := y.M[k]
			if !ok || !eqModel(v, w) {
				return false
			}
		}
		return true
	case *AlistV:
		y, ok := b.(*AlistV)
		if !ok || len(x.K) != len(y.K) {
			return false
		}
		for i, k := range x.K {
			f := false
			for j, k2 := range y.K {
				if eqModel(k, k2) && eqModel(x.W[i], y.W[j]) {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	}
	return a == b
}

// makeX: an expression making the value from scratch
func makeX(r *rand.Rand, v V) V {
	switch x := v.(type) {
	case *Pair:
		if r.Intn(4) == 0 && pureData(x) {
			return q(x)
		}
		if s, ok := toSlice(x); ok {
			if r.Intn(2) == 0 || len(s) > 30 {
				var l []V
				for _, e := range s {
					l = append(l, makeX(r, e))
				}
				return call("list", l...)
			}
		}
		return call("cons", makeX(r, x.A), makeX(r, x.D))
	case *Bytes:
		var l []V
		for _, b := range x.B {
			l = append(l, int64(b))
		}
		if len(l) == 0 && r.Intn(2) == 0 {
			return call("take", int64(0), &Bytes{[]byte{1}})
		}
		if len(l) == 0 || r.Intn(2) == 0 {
			return x
		}
		return call("list->bytearray", call("list", l...))
	case *FrameV:
		var l []V
		ks := sortedKeys(x.M)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			l = append(l, Sym(k), makeX(r, x.M[k]))
		}
		return call("make-frame", l...)
	case *AlistV:
		if r.Intn(2) == 0 {
			var l []V
			for i := range x.K {
				l = append(l, call("cons", q(x.K[i]), makeX(r, x.W[i])))
			}
			return call("alist", call("list", l...))
		}
		var e V
		for i := len(x.K) - 1; i >= 0; i-- {
			if e == nil {
				e = call("acons", q(x.K[i]), makeX(r, x.W[i]))
			} else {
				e = call("acons", q(x.K[i]), makeX(r, x.W[i]), e)
			}
		}
		return e
	case NilT:
		return []V{Nil, list(Sym("quote"), Nil), call("list"), call("cdr", call("list", int64(1)))}[r.Intn(4)]
	case float32:
		if x != x || x-x != 0 {
			return call("bits->float", int64(0x7f800000))
		}
		return x
	}
	return q(v)
}

func pureData(v V) bool {
	switch x := v.(type) {
	case *Pair:
		return pureData(x.A) && pureData(x.D)
	case *FrameV, *AlistV:
		return false
	}
	return true
}

func truthOf(d *golisp.Data, err error) string {
	if err != nil {
		return "ERROR " + err.Error()
	}
	if golisp.TypeOf(d) != golisp.BooleanType {
		return "not a boolean: " + canonD(d)
	}
	return fmt.Sprint(golisp.BooleanValue(d))
}

func c13Pair(c *Case) {
	r := c.R
	a := eqGen(r, 3)
	b := a
	switch r.Intn(4) {
	case 0:
		b = eqGen(r, 3)
	case 1, 2:
		b = tweak(r, a)
		if r.Intn(3) == 0 {
			b = tweak(r, b)
		}
	}
	xa, xb := makeX(r, a), makeX(r, b)
	env := freshEnv()
	setup := fmt.Sprintf("(define pa %s)\n(define pb %s)", show(xa), show(xb))
	c.Desc("%s", setup)
	da, err1 := evalText(show(xa), env)
	db, err2 := evalText(show(xb), env)
	if err1 != nil || err2 != nil {
		c.Fail("setup:"+setup, "cannot build %s: %v %v", setup, err1, err2)
		return
	}
	env.BindLocallyTo(symD("pa"), da)
	env.BindLocallyTo(symD("pb"), db)
	w := eqModel(a, b)
	if w {
		c.Count("equal_pairs", 1)
	} else {
		c.Count("different_pairs", 1)
	}
	c.Distinct(setup)
	chk := func(src string, want string, got string) {
		c.Count("comparisons", 1)
		if got != want {
			c.Fail("eq:"+src+":"+setup, "%s\n%s is %s, want %s", setup, src, got, want)
		}
	}
	for _, op := range []string{"==", "eq?", "eqv?", "equal?"} {
		for _, p := range []string{"pa pb", "pb pa"} {
			chk("("+op+" "+p+")", fmt.Sprint(w), truthOf(evalText("("+op+" "+p+")", env)))
		}
		chk("("+op+" pa pa)", "true", truthOf(evalText("("+op+" pa pa)", env)))
	}
	for _, op := range []string{"!=", "neq?"} {
		chk("("+op+" pa pb)", fmt.Sprint(!w), truthOf(evalText("("+op+" pa pb)", env)))
	}
	pick := func(t, f string) string {
		if w {
			return t
		}
		return f
	}
	out := func(src string) string { d, err := evalText(src, env); return showOutcome(d, err) }
	// the operations that search use the same notion
	chk("(pair? (member pa (list 99 pb 98)))", pick("#t", "#f"), out("(pair? (member pa (list 'vh-other pb 'vh-more)))"))
	chk("(assoc pa (list (cons 'vh-o 1) (cons pb 2)))", pick("2", "()"), out("(cdr (assoc pa (list (cons 'vh-o 1) (cons pb 2))))"))
	chk("(rassoc pa ...)", pick("|k2|", "()"), out("(car (rassoc pa (list (cons 'k1 'vh-o) (cons 'k2 pb))))"))
	chk("(dissoc pa ...)", pick("1", "2"), out("(length (dissoc pa (list (cons 'vh-o 1) (cons pb 2))))"))
	chk("(length (union (list pa) (list pb)))", pick("1", "2"), out("(length (union (list pa) (list pb)))"))
	chk("(length (intersection (list pa) (list pb)))", pick("1", "0"), out("(length (intersection (list pa) (list pb)))"))
	chk("(length (complement (list pa) (list pb)))", pick("0", "1"), out("(length (complement (list pa) (list pb)))"))
	if pureData(b) {
		src := "(case pa ((vh-z) 0) ((" + show(b) + ") 1) (else 2))"
		chk(src, pick("1", "2"), out(src))
	}
	// Go API
	if golisp.IsEqual(da, db) != w || golisp.IsEqual(db, da) != w {
		c.Fail("api:"+setup, "%s\ngolisp.IsEqual gives %v/%v want %v", setup, golisp.IsEqual(da, db), golisp.IsEqual(db, da), w)
	}
}

// triples from a small family: the relation partitions them
func c13Triple(c *Case) {
	r := c.R
	base := eqGen(r, 2)
	vs := []V{base}
	for i := 0; i < 4; i++ {
		vs = append(vs, tweak(r, vs[r.Intn(len(vs))]))
	}
	env := freshEnv()
	var ds []*golisp.Data
	var src []string
	for _, v := range vs {
		x := show(makeX(r, v))
		d, err := evalText(x, env)
		if err != nil {
			c.Fail("setup:"+x, "cannot build %s: %v", x, err)
			return
		}
		ds = append(ds, d)
		src = append(src, x)
	}
	c.Desc("%s", strings.Join(src, "\n"))
	c.Distinct(c.desc)
	n := len(ds)
	e := make([][]bool, n)
	for i := range ds {
		e[i] = make([]bool, n)
		for j := range ds {
			e[i][j] = golisp.IsEqual(ds[i], ds[j])
			c.Count("comparisons", 1)
			if e[i][j] != eqModel(vs[i], vs[j]) {
				c.Fail(fmt.Sprintf("tri:%s:%s", src[i], src[j]), "%s\n%s\nequal gives %v", src[i], src[j], e[i][j])
			}
		}
	}
	for i := range ds {
		for j := range ds {
			if e[i][j] != e[j][i] {
				c.Fail(fmt.Sprintf("sym:%s:%s", src[i], src[j]), "not symmetric: %s\n%s", src[i], src[j])
			}
			for k := range ds {
				if e[i][j] && e[j][k] && !e[i][k] {
					c.Fail(fmt.Sprintf("trans:%s:%s:%s", src[i], src[j], src[k]), "not transitive: %s\n%s\n%s", src[i], src[j], src[k])
				}
			}
		}
	}
}

// non-data values are equal only to themselves; NaN equals nothing
func c13Identity(c *Case) {
	env := freshEnv()
	exprs := []string{"car", "cdr", "if", "(lambda (x) x)", "(lambda (x) x)", "fa", "fb", "ma", "mb", "(atomic 1)", "(atomic 1)", "cha", "chb", "(make-channel 2)", "5", "'car", "()", "{}", "(the-environment)"}
	evalText("(define (fa x) x)", env)
	evalText("(define (fb x) x)", env)
	evalText("(defmacro (ma x) x)", env)
	evalText("(defmacro (mb x) x)", env)
	evalText("(define cha (make-channel 1))", env)
	evalText("(define chb (make-channel 1))", env)
	i, j := c.R.Intn(len(exprs)), c.R.Intn(len(exprs))
	if c.R.Intn(3) == 0 {
		j = i
	}
	d1, err1 := evalText(exprs[i], env)
	d2, err2 := evalText(exprs[j], env)
	if err1 != nil || err2 != nil {
		return
	}
	wrapped := c.R.Intn(2) == 0
	env.BindLocallyTo(symD("pa"), d1)
	env.BindLocallyTo(symD("pb"), d2)
	fresh := strings.HasPrefix(exprs[i], "(l") || strings.HasPrefix(exprs[i], "(a") || strings.HasPrefix(exprs[i], "(m")
	w := i == j && !fresh
	src := "(== pa pb)"
	if wrapped {
		src = "(== (list 1 pa) (list 1 pb))"
	}
	c.Desc("pa=%s pb=%s %s", exprs[i], exprs[j], src)
	c.Distinct(c.desc)
	c.Count("comparisons", 1)
	if g := truthOf(evalText(src, env)); g != fmt.Sprint(w) {
		c.Fail("id:"+c.desc, "%s is %s, want %v", c.desc, g, w)
	}
	for _, s := range []string{"(== pa pa)", "(== (list pa) (list pa))", "(equal? {a: pa} {a: pa})"} {
		if g := truthOf(evalText(s, env)); g != "true" {
			c.Fail("refl:"+s+exprs[i], "pa=%s: %s is %s", exprs[i], s, g)
		}
	}
	for _, s := range []string{"(== nan nan)", "(== nan 1.0)", "(eqv? nan nan)"} {
		if g := truthOf(evalText(s, env)); g != "false" {
			c.Fail("nan:"+s, "%s is %s", s, g)
		}
	}
}

// ---- C14: copies ------------------------------------------------------------------------------

type node struct {
	kind byte // 'a' atom, 's' string, 'l' list, 'd' dotted list (the last kid is the tail), 'm' alist, 'b' bytes, 'f' frame
	atom V
	kids []*node
	keys []string
	b    []byte
}

func genNode(r *rand.Rand, d int, top bool) *node {
	if d == 0 || !top && r.Intn(4) == 0 {
		if r.Intn(4) == 0 {
			return &node{kind: 's', atom: Str([]string{"abC", "x", "Mixed Case", "", "ünïCode", strings.Repeat("aB", 40)}[r.Intn(6)])}
		}
		return &node{kind: 'a', atom: genElem(r, 0)}
	}
	switch r.Intn(7) {
	case 6:
		n := &node{kind: 'd'}
		for i := 0; i < 1+r.Intn(3); i++ {
			n.kids = append(n.kids, genNode(r, d-1, false))
		}
		var tail *node
		for tail == nil || tail.kind == 'l' || tail.kind == 'd' || tail.kind == 'm' || tail.kind == 'a' && listLike(tail.atom) {
			tail = genNode(r, d-1, false)
		}
		n.kids = append(n.kids, tail)
		return n
	case 0, 1:
		n := &node{kind: 'l'}
		if r.Intn(40) == 0 { // a long one
			for i := 0; i < 40+r.Intn(200); i++ {
				n.kids = append(n.kids, genNode(r, 0, false))
			}
			return n
		}
		for i := 0; i < 1+r.Intn(4); i++ {
			n.kids = append(n.kids, genNode(r, d-1, false))
		}
		return n
	case 2, 3:
		n := &node{kind: 'm'}
		for i := 0; i < 1+r.Intn(3); i++ {
			n.keys = append(n.keys, "k"+string(rune('a'+i)))
			n.kids = append(n.kids, genNode(r, d-1, false))
		}
		return n
	case 4:
		n := &node{kind: 'b'}
		size := 1 + r.Intn(5)
		if r.Intn(10) == 0 {
			size = []int{31, 32, 33, 64, 100, 255, 256, 300, 1000, 4097}[r.Intn(10)]
		}
		for i := 0; i < size; i++ {
			n.b = append(n.b, byte(r.Intn(256)))
		}
		return n
	default:
		n := &node{kind: 'f'}
		for i := 0; i < 1+r.Intn(3); i++ {
			n.keys = append(n.keys, string(rune('a'+i))+":")
			n.kids = append(n.kids, genNode(r, d-1, false))
		}
		return n
	}
}

func (n *node) clone() *node {
	m := *n
	m.kids = nil
	for _, k := range n.kids {
		m.kids = append(m.kids, k.clone())
	}
	m.keys = append([]string{}, n.keys...)
	m.b = append([]byte{}, n.b...)
	return &m
}

func (n *node) V() V {
	switch n.kind {
	case 'a', 's':
		return n.atom
	case 'b':
		return &Bytes{n.b}
	case 'd':
		v := n.kids[len(n.kids)-1].V()
		for i := len(n.kids) - 2; i >= 0; i-- {
			v = cons(n.kids[i].V(), v)
		}
		return v
	case 'l':
		var l []V
		for _, k := range n.kids {
			l = append(l, k.V())
		}
		return list(l...)
	case 'm':
		var l []V
		for i, k := range n.kids {
			l = append(l, cons(Sym(n.keys[i]), k.V()))
		}
		return list(l...)
	}
	f := &FrameV{map[string]V{}}
	for i, k := range n.kids {
		f.M[n.keys[i]] = k.V()
	}
	return f
}

func (n *node) expr() string {
	var p []string
	for i, k := range n.kids {
		switch n.kind {
		case 'l', 'd':
			p = append(p, k.expr())
		case 'm':
			p = append(p, "(cons '"+n.keys[i]+" "+k.expr()+")")
		case 'f':
			p = append(p, n.keys[i]+" "+k.expr())
		}
	}
	s := strings.Join(p, " ")
	switch n.kind {
	case 'a':
		if b, ok := n.atom.(*Bytes); ok {
			return (&node{kind: 'b', b: b.B}).expr()
		}
		return show(q(n.atom))
	case 'b':
		var x []string
		for _, b := range n.b {
			x = append(x, fmt.Sprint(b))
		}
		if len(x) == 0 {
			return "(take 0 [1])"
		}
		return "(list->bytearray (list " + strings.Join(x, " ") + "))"
	case 's':
		return show(n.atom)
	case 'l':
		return "(list " + s + ")"
	case 'd':
		s = p[len(p)-1]
		for i := len(p) - 2; i >= 0; i-- {
			s = "(cons " + p[i] + " " + s + ")"
		}
		return s
	case 'm':
		return "(alist (list " + s + "))"
	}
	return "(make-frame " + s + ")"
}

// target is a mutable container inside a tree with the expression reaching it
type target struct {
	n    *node
	path string
}

func (n *node) targets(path string, out *[]target) {
	if n.kind != 'a' {
		*out = append(*out, target{n, path})
	}
	for i, k := range n.kids {
		switch n.kind {
		case 'l':
			k.targets(fmt.Sprintf("(list-ref %s %d)", path, i), out)
		case 'd':
			e := path
			for j := 0; j < i && j < len(n.kids)-2; j++ {
				e = "(cdr " + e + ")"
			}
			if i == len(n.kids)-1 {
				e = "(cdr " + e + ")"
			} else {
				e = "(car " + e + ")"
			}
			k.targets(e, out)
		case 'm':
			k.targets(fmt.Sprintf("(cdr (assoc '%s %s))", n.keys[i], path), out)
		case 'f':
			k.targets(fmt.Sprintf("(get-slot %s %s)", path, n.keys[i]), out)
		}
	}
}

func mutate(r *rand.Rand, t target) string {
	n := t.n
	x := &node{kind: 'a', atom: V(int64(100 + r.Intn(50)))}
	switch n.kind {
	case 's':
		op, old := r.Intn(3), string(n.atom.(Str))
		n.atom = Str([]func(string) string{strings.ToUpper, strings.ToLower, func(s string) string {
			if s == "" {
				return s
			}
			_, k := utf8.DecodeRuneInString(s)
			return strings.ToUpper(s[:k]) + strings.ToLower(s[k:])
		}}[op](old))
		return fmt.Sprintf("(%s %s)", []string{"string-upcase!", "string-downcase!", "string-capitalize!"}[op], t.path)
	case 'm':
		for _, k := range n.keys {
			if k == "kz" {
				return ""
			}
		}
		n.keys = append(n.keys, "kz")
		n.kids = append(n.kids, x)
		return fmt.Sprintf("(append! %s (alist '((kz . %s))))", t.path, x.expr())
	case 'd':
		i := r.Intn(len(n.kids))
		e := t.path
		for j := 0; j < i && j < len(n.kids)-2; j++ {
			e = "(cdr " + e + ")"
		}
		n.kids[i] = x
		if i == len(n.kids)-1 {
			return fmt.Sprintf("(set-cdr! %s %s)", e, x.expr())
		}
		return fmt.Sprintf("(set-car! %s %s)", e, x.expr())
	case 'l':
		if len(n.kids) == 0 {
			return ""
		}
		i := r.Intn(len(n.kids))
		switch r.Intn(5) {
		case 0:
			n.kids[0] = x
			return fmt.Sprintf("(set-car! %s %s)", t.path, x.expr())
		case 1:
			n.kids[i] = x
			return fmt.Sprintf("(set-nth! %s %d %s)", t.path, i+1, x.expr())
		case 2:
			n.kids = append(n.kids, x)
			return fmt.Sprintf("(append! %s (list %s))", t.path, x.expr())
		case 3:
			n.kids = append(n.kids, x)
			return fmt.Sprintf("(append! %s %s)", t.path, x.expr())
		default:
			n.kids = append(n.kids[:i+1:i+1], x)
			return fmt.Sprintf("(set-cdr! (list-tail %s %d) (list %s))", t.path, i, x.expr())
		}
	case 'b':
		i := r.Intn(len(n.b))
		if r.Intn(3) == 0 {
			n.b = append(n.b, 7, 9)
			return fmt.Sprintf("(append-bytes! %s [7 9])", t.path)
		}
		v := byte(r.Intn(256))
		n.b[i] = v
		return fmt.Sprintf("(replace-byte! %s %d %d)", t.path, i, v)
	default:
		switch r.Intn(4) {
		case 0:
			if len(n.kids) > 1 {
				i := r.Intn(len(n.kids))
				k := n.keys[i]
				n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
				n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
				return fmt.Sprintf("(remove-slot! %s %s)", t.path, k)
			}
			fallthrough
		case 1:
			k := fmt.Sprintf("n%d:", len(n.keys))
			for _, k2 := range n.keys {
				if k2 == k {
					return ""
				}
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, x)
			return fmt.Sprintf("(set-slot! %s %s %s)", t.path, k, x.expr())
		default:
			if len(n.kids) == 0 {
				return ""
			}
			i := r.Intn(len(n.kids))
			n.kids[i] = x
			return fmt.Sprintf("(set-slot! %s %s %s)", t.path, n.keys[i], x.expr())
		}
	}
}

func listLike(v V) bool {
	switch v.(type) {
	case nil, *Pair, NilT:
		return true
	}
	return false
}

func c14Copy(c *Case) {
	r := c.R
	n := genNode(r, 1+r.Intn(4), true)
	trees := map[string]*node{"va": n, "vb": n.clone()}
	names := []string{"va", "vb"}
	env := freshEnv()
	prog := []string{"(define va " + n.expr() + ")", "(define vb (copy va))"}
	if r.Intn(4) == 0 { // a copy of the copy
		prog = append(prog, "(define vc (copy vb))")
		names = append(names, "vc")
		trees["vc"] = n.clone()
	}
	run := func(src string) bool {
		if _, err := evalText(src, env); err != nil {
			c.Fail("run:"+src+n.expr(), "%s failed: %v\nin\n%s", src, err, strings.Join(prog, "\n"))
			return false
		}
		return true
	}
	c.Desc("%s", strings.Join(prog, "\n"))
	for _, p := range prog {
		if !run(p) {
			return
		}
	}
	for _, src := range []string{"(== va vb)", "(== (list? va) (list? vb))", "(== (alist? va) (alist? vb))", "(== (frame? va) (frame? vb))", "(== (bytearray? va) (bytearray? vb))"} {
		if g := truthOf(evalText(src, env)); g != "true" {
			c.Fail("copyeq:"+src+prog[0], "%s\n%s is %s", strings.Join(prog, "\n"), src, g)
		}
	}
	verify := func() bool {
		for _, nm := range names {
			d, err := evalText(nm, env)
			if w := canon(trees[nm].V()); err != nil || canonD(d) != w {
				c.Fail("indep:"+strings.Join(prog, " "), "after\n%s\n%s is %s\n want %s", strings.Join(prog, "\n"), nm, canonD(d), w)
				return false
			}
			c.Count("observations", 1)
		}
		return true
	}
	if !verify() {
		return
	}
	for i := 0; i < 1+r.Intn(8); i++ {
		nm := names[r.Intn(len(names))]
		var ts []target
		trees[nm].targets(nm, &ts)
		if len(ts) == 0 {
			continue
		}
		m := mutate(r, ts[r.Intn(len(ts))])
		if m == "" {
			continue
		}
		prog = append(prog, m)
		c.Desc("%s", strings.Join(prog, "\n"))
		if !run(m) || !verify() {
			return
		}
		c.Count("mutations", 1)
	}
	c.Distinct(c.desc)
}

func c14Clone(c *Case) {
	r := c.R
	env := freshEnv()
	model := map[string]map[string]V{}
	slots := map[string]V{}
	var p []string
	for i := 0; i < r.Intn(6); i++ {
		k := string(rune('a'+r.Intn(6))) + ":"
		if _, ok := slots[k]; ok {
			continue
		}
		v := genElem(r, 1)
		slots[k] = v
		p = append(p, k+" "+show(q(v)))
	}
	prog := []string{"(define fa {" + strings.Join(p, " ") + "})"}
	model["fa"] = slots
	names := []string{"fa"}
	for i := 0; i < 2+r.Intn(10); i++ {
		if len(names) < 4 && r.Intn(3) == 0 || len(names) == 1 {
			src := names[r.Intn(len(names))]
			nm := "f" + string(rune('a'+len(names)))
			prog = append(prog, fmt.Sprintf("(define %s (%s %s))", nm, []string{"clone", "copy"}[r.Intn(2)], src))
			m := map[string]V{}
			for k, v := range model[src] {
				m[k] = v
			}
			model[nm] = m
			names = append(names, nm)
			continue
		}
		nm := names[r.Intn(len(names))]
		k := string(rune('a'+r.Intn(6))) + ":"
		v := genElem(r, 1)
		switch r.Intn(4) {
		case 0, 1:
			prog = append(prog, fmt.Sprintf("(set-slot! %s %s %s)", nm, k, show(q(v))))
			model[nm][k] = v
		case 2:
			prog = append(prog, fmt.Sprintf("(%s! %s %s)", k, nm, show(q(v))))
			model[nm][k] = v
		case 3:
			if _, ok := model[nm][k]; ok {
				prog = append(prog, fmt.Sprintf("(remove-slot! %s %s)", nm, k))
				delete(model[nm], k)
			}
		}
	}
	text := strings.Join(prog, "\n")
	c.Desc("%s", text)
	c.Distinct(text)
	for _, s := range prog {
		if _, err := evalText(s, env); err != nil {
			c.Fail("clonerun:"+text, "%s failed: %v\nin\n%s", s, err, text)
			return
		}
		c.Count("mutations", 1)
	}
	for _, nm := range names {
		d, err := evalText(nm, env)
		if w := canon(&FrameV{model[nm]}); err != nil || canonD(d) != w {
			c.Fail("clone:"+text, "after\n%s\n%s is %s\n want %s", text, nm, canonD(d), w)
		}
		c.Count("observations", 1)
	}
}

// ---- C15: association lists ----------------------------------------------------------------------

type amap struct {
	k []string // canon of key
	m map[string][2]V
}

func (a *amap) clone() *amap {
	b := &amap{append([]string{}, a.k...), map[string][2]V{}}
	for k, v := range a.m {
		b.m[k] = v
	}
	return b
}
func (a *amap) set(k, v V) {
	s := canon(k)
	if _, ok := a.m[s]; !ok {
		a.k = append(a.k, s)
	}
	a.m[s] = [2]V{k, v}
}
func (a *amap) del(k V) {
	s := canon(k)
	if _, ok := a.m[s]; ok {
		delete(a.m, s)
		for i := range a.k {
			if a.k[i] == s {
				a.k = append(a.k[:i:i], a.k[i+1:]...)
				break
			}
		}
	}
}

// diffAlist compares an interpreter alist with the map, "" when they agree
func diffAlist(d *golisp.Data, a *amap) string {
	seen := map[string]bool{}
	n := 0
	for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
		p := golisp.Car(x)
		k := canonD(golisp.Car(p))
		if seen[k] {
			return "key " + k + " occurs twice"
		}
		seen[k] = true
		kv, ok := a.m[k]
		if !ok {
			return "unexpected key " + k
		}
		if g, w := canonD(golisp.Cdr(p)), canon(kv[1]); g != w {
			return fmt.Sprintf("value of %s is %s, want %s", k, g, w)
		}
		n++
		if n > 1000 {
			return "too long"
		}
	}
	if n != len(a.m) {
		return fmt.Sprintf("has %d keys, want %d", n, len(a.m))
	}
	return ""
}

func alistKey(r *rand.Rand) V {
	return []V{Sym("a"), Sym("b"), Sym("c"), Sym("d"), Str("a"), Str("b"), int64(1), int64(2), int64(-7), float32(1), true, false, Str(""), Sym("A"), Sym("k:"), Sym("a:"), Sym("k"), Str("k:"), Str("1"), &Bytes{[]byte{1}}, &Bytes{[]byte{1, 2}}}[r.Intn(21)]
}

func c15History(c *Case) {
	r := c.R
	env := freshEnv()
	maps := map[string]*amap{}
	var names []string
	var prog []string
	fail := func(f string, a ...interface{}) {
		c.Fail("alist:"+strings.Join(prog, " "), "after\n%s\n%s", strings.Join(prog, "\n"), fmt.Sprintf(f, a...))
	}
	def := func(m *amap, expr string) bool {
		nm := fmt.Sprintf("al%d", len(names))
		s := fmt.Sprintf("(define %s %s)", nm, expr)
		prog = append(prog, s)
		c.Desc("%s", strings.Join(prog, "\n"))
		if _, err := evalText(s, env); err != nil {
			fail("%s failed: %v", s, err)
			return false
		}
		names = append(names, nm)
		maps[nm] = m
		return true
	}
	val := func() V { return genElem(r, 2) }
	empty := func() *amap { return &amap{m: map[string][2]V{}} }
	// a start: empty, one acons, a quoted list, a list of conses, alist
	m := empty()
	var ps []string
	npairs, nsteps := r.Intn(5), 2+r.Intn(9)
	alistKey := alistKey
	if r.Intn(12) == 0 {
		npairs, nsteps = 8+r.Intn(40), 2+r.Intn(4)
		space := 40
		if r.Intn(20) == 0 {
			npairs, nsteps, space = 50+r.Intn(400), 2+r.Intn(2), 1000
			c.Count("very_large_maps", 1)
		}
		alistKey = func(r *rand.Rand) V {
			switch r.Intn(3) {
			case 0:
				return Sym(fmt.Sprintf("k%d", r.Intn(space)))
			case 1:
				return Str(fmt.Sprintf("k%d", r.Intn(space)))
			}
			return int64(r.Intn(space))
		}
		c.Count("large_maps", 1)
	}
	for i := 0; i < npairs; i++ {
		k, v := alistKey(r), val()
		if _, ok := m.m[canon(k)]; ok {
			continue
		}
		m.set(k, v)
		ps = append(ps, "(cons "+show(q(k))+" "+show(q(v))+")")
	}
	start := "(list " + strings.Join(ps, " ") + ")"
	switch r.Intn(3) {
	case 0:
		start = "(alist " + start + ")"
	case 1:
		start = "()"
		for i := len(ps) - 1; i >= 0; i-- {
			start = strings.Replace(ps[i], "(cons", "(acons", 1)
			start = start[:len(start)-1]
			start += " ()" + ")"
		}
		m2 := empty()
		if len(ps) > 0 {
			kv := m.m[m.k[0]]
			m2.set(kv[0], kv[1])
		}
		m = m2
	}
	if !def(m, start) {
		return
	}
	for i := 0; i < nsteps; i++ {
		nm := names[r.Intn(len(names))]
		if r.Intn(2) == 0 {
			nm = names[len(names)-1]
		}
		m := maps[nm].clone()
		ok := true
		switch r.Intn(5) {
		case 0, 1:
			k, v := alistKey(r), val()
			if r.Intn(3) == 0 && len(m.k) > 0 {
				k = m.m[m.k[r.Intn(len(m.k))]][0]
			}
			m.set(k, v)
			ok = def(m, fmt.Sprintf("(acons %s %s %s)", show(q(k)), show(q(v)), nm))
			c.Count("acons", 1)
		case 2:
			k := alistKey(r)
			if r.Intn(2) == 0 && len(m.k) > 0 {
				k = m.m[m.k[r.Intn(len(m.k))]][0]
			}
			m.del(k)
			ok = def(m, fmt.Sprintf("(dissoc %s %s)", show(q(k)), nm))
			c.Count("dissoc", 1)
		case 3:
			var ks, vs []V
			for j := r.Intn(4) + npairs/8*r.Intn(4); j > 0; j-- {
				k := alistKey(r)
				if contains(ks, k) {
					continue
				}
				v := val()
				ks, vs = append(ks, k), append(vs, v)
				m.set(k, v)
			}
			ok = def(m, fmt.Sprintf("(pairlis %s %s %s)", show(q(list(ks...))), show(q(list(vs...))), nm))
			c.Count("pairlis", 1)
		case 4:
			ok = def(m, fmt.Sprintf("(%s %s)", []string{"copy", "alist"}[r.Intn(2)], nm))
		}
		if !ok {
			return
		}
		// every alist of the history still is the map it was
		for _, n := range names {
			d, err := evalText(n, env)
			if err != nil {
				fail("%s: %v", n, err)
				return
			}
			if x := diffAlist(d, maps[n]); x != "" {
				fail("%s %s: %s", n, x, golisp.String(d))
				return
			}
			c.Count("observations", 1)
		}
		// lookups
		nm = names[r.Intn(len(names))]
		m = maps[nm]
		k := alistKey(r)
		op := []string{"assoc", "assq", "assv"}[r.Intn(3)]
		d, err := evalText(fmt.Sprintf("(%s %s %s)", op, show(q(k)), nm), env)
		w := "()"
		if kv, ok := m.m[canon(k)]; ok {
			w = canon(cons(kv[0], kv[1]))
		}
		if showOutcome(d, err) != w {
			fail("(%s %s %s) is %s, want %s", op, show(q(k)), nm, showOutcome(d, err), w)
			return
		}
		v := val()
		if r.Intn(2) == 0 && len(m.k) > 0 {
			v = m.m[m.k[r.Intn(len(m.k))]][1]
		}
		d, err = evalText(fmt.Sprintf("(rassoc %s %s)", show(q(v)), nm), env)
		found := map[string]bool{}
		for _, kv := range m.m {
			if canon(kv[1]) == canon(v) {
				found[canon(cons(kv[0], kv[1]))] = true
			}
		}
		if g := showOutcome(d, err); len(found) == 0 && g != "()" || len(found) > 0 && !found[g] {
			fail("(rassoc %s %s) is %s, want one of %v", show(q(v)), nm, g, found)
			return
		}
		c.Count("lookups", 2)
		// the printed form lists exactly the pairs
		d, _ = evalText(nm, env)
		if rd, err := golisp.Parse(golisp.String(d)); err != nil || diffAlist(rd, m) != "" {
			fail("%s prints as %s, which reads as something else: %v", nm, golisp.String(d), err)
			return
		}
	}
	c.Distinct(c.desc)
}

func c15Wrong(c *Case) {
	l := []string{"(acons '(1) 2 ())", "(assoc 'a '(1 2))", "(assoc 'a '(b (a . 1)))", "(rassoc 1 '(5))", "(dissoc 'a '(1))", "(pairlis '(a b) '(1))", "(pairlis 'a '(1))", "(pairlis '(a) 1)", "(pairlis '(()) '(1))", "(acons () 1)", "(pairlis '(a) '(1) 5)"}
	s := l[c.R.Intn(len(l))]
	if c.R.Intn(3) == 0 { // keys without values, values without keys
		n, m := c.R.Intn(50), c.R.Intn(50)
		if n == m {
			m++
		}
		s = fmt.Sprintf("(pairlis (interval 1 %d) (interval 1 %d))", n, m)
		if n == 0 {
			s = fmt.Sprintf("(pairlis '() (interval 1 %d))", m)
		}
		if m == 0 {
			s = fmt.Sprintf("(pairlis (interval 1 %d) '())", n)
		}
	}
	c.Desc("%s", s)
	d, err := evalText(s, freshEnv())
	c.Count("errors_expected", 1)
	if err == nil {
		c.Fail("noerr:"+s, "%s must be an error, it returned %s", s, canonD(d))
	}
}

func init() {
	register(&Check{
		ID: "C13", Setup: setupPrims,
		Need:        []string{"comparisons", "equal_pairs", "different_pairs"},
		Rule:        "pairs and families of values of every kind (atoms, proper and dotted lists, byte arrays, nested frames, association lists), one a near copy of the other with one element, tail, slot, key or type changed, each built by a random route; every equality operation in both orders, its negation and each searching operation (member, assoc, rassoc, dissoc, case, union, intersection, complement) compared with structural equality; families checked for symmetry and transitivity; functions, macros and other opaque values by identity; frames that contain each other, compared by the largest relation in which equal frames have equal slots; distinct by the two expressions",
		Assumptions: []string{"values containing NaN inside containers and association lists with a key twice are not exercised"},
		Phases: []Phase{
			{Name: "pairs", Quick: 25000, Thorough: 400000, Run: c13Pair},
			{Name: "families", Quick: 20000, Thorough: 300000, Run: c13Triple},
			{Name: "identity", Quick: 2000, Thorough: 10000, Run: c13Identity},
			{Name: "cyclic", Quick: 8000, Thorough: 150000, Run: c13Cyclic},
		},
	})
	register(&Check{
		ID: "C14", Setup: setupPrims,
		Need:        []string{"mutations", "observations"},
		Rule:        "random trees of lists, association lists, byte arrays and frames are copied (also copies of copies, clones of frames) and then mutated on either side at a random depth with every mutator; after each mutation both sides are compared with a model in which they are separate; distinct by program",
		Assumptions: []string{"strings inside a copied structure are values, not containers; clone shares the values of slots"},
		Phases: []Phase{
			{Name: "copy", Quick: 40000, Thorough: 600000, Run: c14Copy},
			{Name: "clone", Quick: 20000, Thorough: 300000, Run: c14Clone},
		},
	})
	register(&Check{
		ID: "C15", Setup: setupPrims,
		Need:        []string{"acons", "dissoc", "pairlis", "lookups", "observations", "errors_expected"},
		Rule:        "histories of acons, dissoc, pairlis, alist and copy over several live association lists that share structure, with present, absent and repeated keys of several types; after every step each list of the history is compared with its finite-map model, and lookups by key and value and the printed form are compared; distinct by history",
		Assumptions: []string{"keys are not lists (acons rejects them); lists with a key twice are not exercised"},
		Phases: []Phase{
			{Name: "history", Quick: 20000, Thorough: 300000, Run: c15History},
			{Name: "wrong", Quick: 500, Thorough: 500, Run: c15Wrong},
		},
	})
}

// frames that contain themselves: equal when no path of slots leads to different content
func c13Cyclic(c *Case) {
	r := c.R
	n := 2 + r.Intn(5)
	type slot struct {
		ref, val int
		boxed    bool
	}
	names := []string{"a:", "b:", "c:"}
	nodes := make([][]slot, n)
	half := 1 + r.Intn(n)
	k := 1 + r.Intn(2)
	for i := range nodes {
		m := k
		if r.Intn(6) == 0 {
			m = 1 + r.Intn(2)
		}
		if i >= half && r.Intn(3) > 0 { // near copies of the first ones
			src := nodes[r.Intn(half)]
			nodes[i] = append([]slot{}, src...)
			x := r.Intn(len(src))
			if nodes[i][x].ref >= 0 && r.Intn(2) == 0 {
				nodes[i][x].ref = r.Intn(n)
			} else if r.Intn(3) == 0 {
				nodes[i][x].val++
			}
			continue
		}
		for j := 0; j < m; j++ {
			s := slot{ref: -1, val: r.Intn(2), boxed: r.Intn(4) == 0}
			if r.Intn(3) > 0 {
				s.ref = r.Intn(n)
			}
			nodes[i] = append(nodes[i], s)
		}
	}
	env := freshEnv()
	var prog []string
	for i := range nodes {
		prog = append(prog, fmt.Sprintf("(define f%d {})", i))
	}
	for i, ss := range nodes {
		for j, s := range ss {
			v := fmt.Sprint(s.val)
			if s.ref >= 0 {
				v = fmt.Sprintf("f%d", s.ref)
			}
			if s.boxed {
				v = "(list 1 " + v + ")"
			}
			prog = append(prog, fmt.Sprintf("(set-slot! f%d %s %s)", i, names[j], v))
		}
	}
	c.Desc("%s", strings.Join(prog, "\n"))
	for _, p := range prog {
		if _, err := evalText(p, env); err != nil {
			c.Fail("setup:"+c.desc, "%s: %v", p, err)
			return
		}
	}
	// the largest relation in which equal nodes have equal slots
	eq := make([][]bool, n)
	for i := range eq {
		eq[i] = make([]bool, n)
		for j := range eq[i] {
			eq[i][j] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := range eq {
			for j := range eq {
				if !eq[i][j] {
					continue
				}
				same := len(nodes[i]) == len(nodes[j])
				for x := 0; same && x < len(nodes[i]); x++ {
					a, b := nodes[i][x], nodes[j][x]
					same = a.boxed == b.boxed && (a.ref >= 0) == (b.ref >= 0)
					if same && a.ref >= 0 {
						same = eq[a.ref][b.ref]
					} else if same {
						same = a.val == b.val
					}
				}
				if !same {
					eq[i][j], changed = false, true
				}
			}
		}
	}
	for t := 0; t < 4; t++ {
		i, j := r.Intn(n), r.Intn(n)
		op := []string{"==", "eq?", "eqv?", "equal?", "!=", "neq?"}[r.Intn(6)]
		src := fmt.Sprintf("(%s f%d f%d)", op, i, j)
		want := eq[i][j]
		switch r.Intn(6) {
		case 0:
			src = fmt.Sprintf("(%s (list 1 f%d) (list 1 f%d))", op, i, j)
		case 1:
			src, op = fmt.Sprintf("(if (memq f%d (list f%d)) #t #f)", i, j), "memq"
		}
		if op == "!=" || op == "neq?" {
			want = !want
		}
		d, err := evalText(src, env)
		c.Count("comparisons", 1)
		if err != nil || !golisp.BooleanP(d) || golisp.BooleanValue(d) != want {
			c.Fail("cyclic:"+src+c.desc, "after\n%s\n%s is %s (error %v), want %v", c.desc, src, golisp.String(d), err, want)
			return
		}
		if eq[i][j] && i != j {
			c.Count("cyclic_equal", 1)
		} else if i != j {
			c.Count("cyclic_different", 1)
		}
	}
	c.Distinct(c.desc)
}
