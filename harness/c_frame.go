package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C19: frame slots against a model of prototype inheritance -----------------------------------------

// mv is a model value: a frame of the history (fr >= 0) or plain data
type mv struct {
	fr int
	v  V
}

func (m mv) String() string {
	if m.fr >= 0 {
		return fmt.Sprintf("frame f%d", m.fr)
	}
	return show(m.v)
}

type frameWorld struct {
	c     *Case
	env   *golisp.SymbolTableFrame
	slots []map[string]mv    // model: own slots, by key with its colon
	real  []*golisp.FrameMap // the frames themselves
	index map[*golisp.FrameMap]int
	log   []string
	fns   []*golisp.Function // functions that are values of slots
}

func newFrameWorld(c *Case) *frameWorld {
	return &frameWorld{c: c, env: freshEnv(), index: map[*golisp.FrameMap]int{}}
}

func (w *frameWorld) add(d *golisp.Data, m map[string]mv) int {
	i := len(w.real)
	w.env.BindLocallyTo(symD(fmt.Sprintf("f%d", i)), d)
	w.real = append(w.real, golisp.FrameValue(d))
	w.slots = append(w.slots, m)
	w.index[golisp.FrameValue(d)] = i
	return i
}

func isParentSlot(k string) bool { return strings.HasSuffix(k, "*:") }

// find: the values a lookup may give. There is one unless several parents of a frame have the slot.
func (w *frameWorld) find(i int, k string) []mv {
	return w.findIn(i, k, map[int]bool{})
}

func (w *frameWorld) findIn(i int, k string, path map[int]bool) []mv {
	if path[i] {
		return nil
	}
	if v, ok := w.slots[i][k]; ok {
		return []mv{v}
	}
	path[i] = true
	var out []mv
	for _, pk := range slotKeys(w.slots[i]) {
		if p := w.slots[i][pk]; isParentSlot(pk) && p.fr >= 0 {
			out = append(out, w.findIn(p.fr, k, path)...)
		}
	}
	delete(path, i)
	if len(out) > 16 {
		seen := map[string]bool{}
		var o []mv
		for _, v := range out {
			if !seen[v.String()] {
				seen[v.String()] = true
				o = append(o, v)
			}
		}
		out = o
	}
	return out
}

func slotKeys(m map[string]mv) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (w *frameWorld) is(d *golisp.Data, m mv) bool {
	if m.fr >= 0 {
		return golisp.FrameP(d) && golisp.FrameValue(d) == w.real[m.fr]
	}
	if golisp.FunctionP(d) || isClosureMark(m.v) {
		return w.showD(d) == canon(m.v)
	}
	return !golisp.FrameP(d) && canonD(d) == canon(m.v)
}

// isClosureMark: the value stands for the function that the variable of this name has
func isClosureMark(v V) bool {
	s, ok := v.(Sym)
	return ok && strings.HasPrefix(string(s), "vh-closure-")
}

func (w *frameWorld) showD(d *golisp.Data) string {
	if golisp.FrameP(d) {
		if i, ok := w.index[golisp.FrameValue(d)]; ok {
			return fmt.Sprintf("frame f%d", i)
		}
		return "an unknown frame"
	}
	if golisp.FunctionP(d) {
		for i, f := range w.fns {
			if f == golisp.FunctionValue(d) {
				return canon(Sym(fmt.Sprintf("vh-closure-%d", i)))
			}
		}
		return "an unknown function"
	}
	return canonD(d)
}

func (w *frameWorld) fail(what, format string, args ...interface{}) {
	h := strings.Join(w.log, "\n")
	w.c.Fail(what+":"+h, "%s\nhistory:\n%s", fmt.Sprintf(format, args...), h)
}

// audit compares every frame's own slots with the model through the host API
func (w *frameWorld) audit() bool {
	for i, f := range w.real {
		d := f.Clone().Data
		if len(d) != len(w.slots[i]) {
			var ks []string
			for k := range d {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			w.fail("own", "f%d has the slots %v, want %v", i, ks, slotKeys(w.slots[i]))
			return false
		}
		for k, v := range w.slots[i] {
			x, ok := d[k]
			if !ok || !w.is(x, v) {
				w.fail("own", "slot %s of f%d is %s (present %v), want %s", k, i, w.showD(x), ok, v)
				return false
			}
		}
		w.c.Count("audited_slots", len(d))
	}
	return true
}

var frameSlots = []string{"a:", "b:", "c:", "long-slot:", "x1:", "p*:", "q*:", "*:", "a*b:", "é:", "a:b:", "proto*:", "a-slot-whose-name-is-longer-than-what-anyone-would-think-of-when-naming-a-slot-of-a-frame:", strings.Repeat("sl", 300) + ":", strings.Repeat("sl", 299) + "l:"}

func (w *frameWorld) frameExpr(i int) string {
	if w.c.R.Intn(4) == 0 { // through another frame's slot
		for j := range w.slots {
			for _, k := range slotKeys(w.slots[j]) {
				if w.slots[j][k].fr == i && w.c.R.Intn(2) == 0 {
					return fmt.Sprintf("(%s f%d)", k, j)
				}
			}
		}
	}
	return fmt.Sprintf("f%d", i)
}

func (w *frameWorld) value() (mv, string) {
	r := w.c.R
	if len(w.real) > 0 && r.Intn(4) == 0 {
		i := r.Intn(len(w.real))
		return mv{fr: i}, fmt.Sprintf("f%d", i)
	}
	if r.Intn(10) == 0 { // a slot that holds nothing is a slot all the same
		return mv{fr: -1, v: Nil}, []string{"'()", "nil", "(cdr '(1))"}[r.Intn(3)]
	}
	if r.Intn(10) == 0 {
		n := Sym(fmt.Sprintf("vh-closure-%d", len(w.fns)))
		if len(w.fns) > 0 && r.Intn(2) == 0 {
			n = Sym(fmt.Sprintf("vh-closure-%d", r.Intn(len(w.fns))))
		} else {
			t := []string{"(let ((z %d)) (lambda () z))", "(lambda (x) (+ x %d))", "((lambda (n) (lambda (a b) n)) %d)", "(named-lambda (zz . r) %d)"}[r.Intn(4)]
			d, err := evalText(fmt.Sprintf("(define %s "+t+")", n, len(w.fns)), w.env)
			if err == nil && golisp.FunctionP(d) {
				w.fns = append(w.fns, golisp.FunctionValue(d))
			}
		}
		return mv{fr: -1, v: n}, string(n)
	}
	v := genVal(r, 2, valOpts{floats: true, syms: true, dotted: true})
	for bareQuote(v) || !showable(v) {
		v = genVal(r, 2, valOpts{floats: true, syms: true, dotted: true})
	}
	return mv{fr: -1, v: v}, "'" + show(v)
}

func (w *frameWorld) key(parentToo bool) string {
	for {
		k := frameSlots[w.c.R.Intn(len(frameSlots))]
		if parentToo || !isParentSlot(k) {
			return k
		}
	}
}

// eval evaluates the form, wrapped in some context that must not matter
func (w *frameWorld) eval(form func(fr string) string, i int) (*golisp.Data, error) {
	fe := w.frameExpr(i)
	var text string
	switch w.c.R.Intn(6) {
	case 0:
		text = fmt.Sprintf("(let ((z %s)) %s)", fe, form("z"))
	case 1:
		text = fmt.Sprintf("((lambda (z) %s) %s)", form("z"), fe)
	case 2:
		text = fmt.Sprintf("(car (map (lambda (z) %s) (list %s)))", form("z"), fe)
	default:
		text = form(fe)
	}
	w.log = append(w.log, text)
	w.c.Desc("%s", strings.Join(w.log, "\n"))
	return evalText(text, w.env)
}

// equality of own slots, frames that refer to each other being equal unless some slot tells them apart
func (w *frameWorld) equal(i, j int, assumed map[[2]int]bool) bool {
	if i == j || assumed[[2]int{i, j}] {
		return true
	}
	assumed[[2]int{i, j}] = true
	if len(w.slots[i]) != len(w.slots[j]) {
		return false
	}
	for k, v := range w.slots[i] {
		o, ok := w.slots[j][k]
		if !ok || (v.fr >= 0) != (o.fr >= 0) {
			return false
		}
		if v.fr >= 0 {
			if !w.equal(v.fr, o.fr, assumed) {
				return false
			}
		} else if canon(v.v) != canon(o.v) {
			return false
		}
	}
	return true
}

// tree: the frame as a value, if nothing it reaches contains itself
func (w *frameWorld) tree(i int, path map[int]bool, n *int) (V, bool) {
	if *n++; path[i] || *n > 200 {
		return nil, false
	}
	path[i] = true
	defer delete(path, i)
	f := &FrameV{map[string]V{}}
	for k, v := range w.slots[i] {
		if v.fr < 0 {
			if isClosureMark(v.v) {
				return nil, false
			}
			f.M[k] = v.v
			continue
		}
		t, ok := w.tree(v.fr, path, n)
		if !ok {
			return nil, false
		}
		f.M[k] = t
	}
	return f, true
}

func (w *frameWorld) printSize(i int, path map[int]bool, n *int) {
	if *n++; path[i] || *n > 2000 {
		return
	}
	path[i] = true
	for _, v := range w.slots[i] {
		if v.fr >= 0 {
			w.printSize(v.fr, path, n)
		}
	}
	delete(path, i)
}

func hasFloat(v V) bool {
	switch x := v.(type) {
	case float32:
		return true
	case *Pair:
		return hasFloat(x.A) || hasFloat(x.D)
	case *FrameV:
		for _, y := range x.M {
			if hasFloat(y) {
				return true
			}
		}
	}
	return false
}

// one step of a history; false: a violation was reported
func (w *frameWorld) step() bool {
	c, r := w.c, w.c.R
	i := r.Intn(len(w.real))
	n := len(w.real)
	switch op := r.Intn(20); {
	case op < 4: // get
		k := w.key(true)
		want := w.find(i, k)
		how := r.Intn(4)
		var d *golisp.Data
		var err error
		switch how {
		case 0, 1:
			d, err = w.eval(func(f string) string { return pick(r.Intn(2) == 0, "(get-slot "+f+" "+k+")", "("+k+" "+f+")") }, i)
		case 2:
			d, err = w.eval(func(f string) string { return "(get-slot-or-nil " + f + " " + k + ")" }, i)
		default:
			w.log = append(w.log, fmt.Sprintf("[go] f%d.Get(%s)", i, k))
			d = w.real[i].Get(k)
		}
		c.Count("gets", 1)
		if len(want) == 0 {
			c.Count("gets_missing", 1)
			if how < 2 && err == nil {
				w.fail("missing", "reading the missing slot %s of f%d gave %s instead of an error", k, i, w.showD(d))
				return false
			}
			if how >= 2 && (err != nil || golisp.NotNilP(d)) {
				w.fail("missing", "reading the missing slot %s of f%d gave %s (err %v), want ()", k, i, w.showD(d), err)
				return false
			}
			return true
		}
		if _, own := w.slots[i][k]; !own {
			c.Count("gets_inherited", 1)
		}
		if err != nil {
			w.fail("get", "reading slot %s of f%d failed: %v\nwant %v", k, i, err, want)
			return false
		}
		for _, m := range want {
			if w.is(d, m) {
				return true
			}
		}
		w.fail("get", "slot %s of f%d reads %s, want %v", k, i, w.showD(d), want)
		return false
	case op < 6: // has
		k := w.key(true)
		want := len(w.find(i, k)) > 0
		var got bool
		if r.Intn(4) == 0 {
			w.log = append(w.log, fmt.Sprintf("[go] f%d.HasSlot(%s)", i, k))
			got = w.real[i].HasSlot(k)
		} else {
			d, err := w.eval(func(f string) string { return pick(r.Intn(2) == 0, "(has-slot? "+f+" "+k+")", "("+k+"? "+f+")") }, i)
			if err != nil || !golisp.BooleanP(d) {
				w.fail("has", "has-slot? gave %s, %v", w.showD(d), err)
				return false
			}
			got = golisp.BooleanValue(d)
		}
		c.Count("has", 1)
		if got != want {
			w.fail("has", "has-slot? of %s in f%d is %v, want %v", k, i, got, want)
			return false
		}
	case op < 11: // set
		k := w.key(true)
		m, text := w.value()
		if isParentSlot(k) && r.Intn(3) > 0 {
			j := r.Intn(n)
			m, text = mv{fr: j}, fmt.Sprintf("f%d", j)
		}
		if r.Intn(5) == 0 {
			w.log = append(w.log, fmt.Sprintf("[go] f%d.Set(%s, %s)", i, k, text))
			d, err := evalText(text, w.env)
			if err != nil {
				w.fail("value", "%s failed: %v", text, err)
				return false
			}
			if isNil(m.v) && m.fr < 0 && r.Intn(2) == 0 {
				d = nil
			}
			w.real[i].Set(k, d)
		} else {
			d, err := w.eval(func(f string) string {
				return pick(r.Intn(2) == 0, "(set-slot! "+f+" "+k+" "+text+")", "("+k+"! "+f+" "+text+")")
			}, i)
			if err != nil || !w.is(d, m) {
				w.fail("set", "setting slot %s of f%d to %s gave %s (err %v)", k, i, m, w.showD(d), err)
				return false
			}
		}
		w.slots[i][k] = m
		c.Count("sets", 1)
		return w.audit()
	case op < 13: // remove
		k := w.key(true)
		_, want := w.slots[i][k]
		var got bool
		if r.Intn(4) == 0 {
			w.log = append(w.log, fmt.Sprintf("[go] f%d.Remove(%s)", i, k))
			got = w.real[i].Remove(k)
		} else {
			d, err := w.eval(func(f string) string { return "(remove-slot! " + f + " " + k + ")" }, i)
			if err != nil || !golisp.BooleanP(d) {
				w.fail("remove", "remove-slot! gave %s, %v", w.showD(d), err)
				return false
			}
			got = golisp.BooleanValue(d)
		}
		delete(w.slots[i], k)
		c.Count("removes", 1)
		if got != want {
			w.fail("remove", "remove-slot! of %s in f%d reported %v, want %v", k, i, got, want)
			return false
		}
		return w.audit()
	case op < 14: // clone
		if n >= 9 {
			return true
		}
		d, err := w.eval(func(f string) string { return "(clone " + f + ")" }, i)
		if err != nil || !golisp.FrameP(d) {
			w.fail("clone", "clone gave %s, %v", w.showD(d), err)
			return false
		}
		if _, known := w.index[golisp.FrameValue(d)]; known {
			w.fail("clone", "clone of f%d is an existing frame, %s", i, w.showD(d))
			return false
		}
		m := map[string]mv{}
		for k, v := range w.slots[i] {
			m[k] = v
		}
		w.add(d, m)
		c.Count("clones", 1)
		return w.audit()
	case op < 15: // a new frame
		return n >= 9 || w.makeFrame()
	case op < 17: // own keys and values
		d, err := w.eval(func(f string) string { return "(frame-keys " + f + ")" }, i)
		if err != nil {
			w.fail("keys", "frame-keys failed: %v", err)
			return false
		}
		var ks []string
		for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
			ks = append(ks, golisp.StringValue(golisp.Car(x)))
		}
		sort.Strings(ks)
		if strings.Join(ks, " ") != strings.Join(slotKeys(w.slots[i]), " ") {
			w.fail("keys", "frame-keys of f%d: %v, want %v", i, ks, slotKeys(w.slots[i]))
			return false
		}
		d, err = w.eval(func(f string) string { return "(frame-values " + f + ")" }, i)
		if err != nil {
			w.fail("values", "frame-values failed: %v", err)
			return false
		}
		var vs, want []string
		for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
			vs = append(vs, w.showD(golisp.Car(x)))
		}
		for _, m := range w.slots[i] {
			if m.fr >= 0 {
				want = append(want, m.String())
			} else {
				want = append(want, canon(m.v))
			}
		}
		sort.Strings(vs)
		sort.Strings(want)
		if strings.Join(vs, "\n") != strings.Join(want, "\n") {
			w.fail("values", "frame-values of f%d: %v, want %v", i, vs, want)
			return false
		}
		c.Count("listings", 1)
	case op < 19: // equality
		j := r.Intn(n)
		d, err := w.eval(func(f string) string { return fmt.Sprintf("(equal? %s f%d)", f, j) }, i)
		want := w.equal(i, j, map[[2]int]bool{})
		if err != nil || !golisp.BooleanP(d) || golisp.BooleanValue(d) != want {
			w.fail("equal", "(equal? f%d f%d) gave %s (err %v), want %v", i, j, w.showD(d), err, want)
			return false
		}
		c.Count("equality", 1)
		if want && i != j {
			c.Count("equal_frames", 1)
		}
	default: // printing
		cnt := 0
		v, acyclic := w.tree(i, map[int]bool{}, &cnt)
		cnt = 0
		if w.printSize(i, map[int]bool{}, &cnt); cnt > 2000 {
			return true // would print very large
		}
		w.log = append(w.log, fmt.Sprintf("[go] String(f%d)", i))
		c.Desc("%s", strings.Join(w.log, "\n"))
		s := golisp.String(golisp.FrameWithValue(w.real[i]))
		c.Count("printed", 1)
		if acyclic && !hasFloat(v) && s != printed(v) {
			w.fail("print", "f%d prints as\n %s\nwant\n %s", i, s, printed(v))
			return false
		}
		if !acyclic {
			c.Count("printed_cyclic", 1)
		}
	}
	return true
}

func pick(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func (w *frameWorld) makeFrame() bool {
	r := w.c.R
	m := map[string]mv{}
	var parts []string
	size := r.Intn(5)
	if r.Intn(12) == 0 { // many slots
		size = 20 + r.Intn(60)
		w.c.Count("wide_frames", 1)
	}
	for i := 0; i < size; i++ {
		k := w.key(true)
		if i >= 5 {
			k = fmt.Sprintf("w%d:", i)
		}
		if _, dup := m[k]; dup {
			continue
		}
		v, text := w.value()
		if isParentSlot(k) && len(w.real) > 0 && r.Intn(4) > 0 {
			j := r.Intn(len(w.real))
			v, text = mv{fr: j}, fmt.Sprintf("f%d", j)
		}
		m[k] = v
		parts = append(parts, k+" "+text)
	}
	text := "{" + strings.Join(parts, " ") + "}"
	if r.Intn(2) == 0 {
		text = "(make-frame " + strings.Join(parts, " ") + ")"
	}
	w.log = append(w.log, fmt.Sprintf("(define f%d %s)", len(w.real), text))
	w.c.Desc("%s", strings.Join(w.log, "\n"))
	d, err := evalText(text, w.env)
	if err != nil || !golisp.FrameP(d) {
		w.fail("make", "%s gave %s, %v", text, w.showD(d), err)
		return false
	}
	w.add(d, m)
	return w.audit()
}

func c19History(c *Case) {
	w := newFrameWorld(c)
	steps := 12 + c.R.Intn(30)
	for i := 0; i < 1+c.R.Intn(5); i++ {
		if !w.makeFrame() {
			return
		}
	}
	for i := 0; i < steps; i++ {
		if !w.step() {
			return
		}
		c.Count("events", 1)
	}
	w.audit()
	c.Count("histories", 1)
	c.Distinct(strings.Join(w.log, "\n"))
	if c.Idx < 3 {
		c.Sample(strings.Join(w.log, "; "))
	}
}

// deep chains, rings and lattices of parents: where a slot is found, and that looking for a missing one ends
func c19Shapes(c *Case) {
	r := c.R
	w := newFrameWorld(c)
	n := 2 + r.Intn(40)
	if r.Intn(6) == 0 {
		n = 200 + r.Intn(200)
	}
	shape := []string{"chain", "ring", "lattice", "self", "complete"}[r.Intn(5)]
	if shape == "complete" && n > 12 {
		n = 12
	}
	for i := 0; i < n; i++ {
		m := map[string]mv{}
		f := &golisp.FrameMap{Data: golisp.FrameMapData{}}
		w.add(golisp.FrameWithValue(f), m)
	}
	put := func(i int, k string, v mv) {
		w.slots[i][k] = v
		if v.fr >= 0 {
			w.real[i].Set(k, golisp.FrameWithValue(w.real[v.fr]))
		} else {
			d := toData(v.v)
			if isNil(v.v) && r.Intn(2) == 0 {
				d = nil
			}
			w.real[i].Set(k, d)
		}
	}
	for i := 0; i < n; i++ {
		switch shape {
		case "chain":
			if i > 0 {
				put(i, "p*:", mv{fr: i - 1})
			}
		case "ring":
			put(i, "p*:", mv{fr: (i + n - 1) % n})
		case "lattice":
			if i >= 2 {
				put(i, "p*:", mv{fr: i/2*2 - 2})
				put(i, "q*:", mv{fr: i/2*2 - 1})
			}
		case "self":
			put(i, "p*:", mv{fr: i})
			if i > 0 {
				put(i, "q*:", mv{fr: i - 1})
			}
		case "complete":
			for j := 0; j < n; j++ {
				put(i, fmt.Sprintf("p%d*:", j), mv{fr: j})
			}
		}
	}
	held := mv{fr: -1, v: int64(11)}
	if r.Intn(2) == 0 {
		held.v = Nil
		c.Count("shape_nil_values", 1)
	}
	put(r.Intn(n), "a:", held) // one holder only, so the answer does not depend on an order
	if shape == "chain" || shape == "ring" {
		put(r.Intn(n), "b:", mv{fr: -1, v: int64(12)})
		put(r.Intn(n), "b:", mv{fr: -1, v: int64(13)})
	}
	reach := func(i int) map[int]bool { // frames reachable through parents
		seen := map[int]bool{}
		todo := []int{i}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if seen[x] {
				continue
			}
			seen[x] = true
			for k, v := range w.slots[x] {
				if isParentSlot(k) && v.fr >= 0 {
					todo = append(todo, v.fr)
				}
			}
		}
		return seen
	}
	for q := 0; q < 6; q++ {
		i := n - 1
		if q > 0 {
			i = r.Intn(n)
		}
		for _, k := range []string{"a:", "b:", "missing:"} {
			w.log = []string{fmt.Sprintf("%s of %d frames; (has-slot? f%d %s), (get-slot f%d %s)", shape, n, i, k, i, k)}
			c.Desc("%s", w.log[0])
			has := false
			for x := range reach(i) {
				if _, ok := w.slots[x][k]; ok {
					has = true
				}
			}
			d, err := evalText(fmt.Sprintf("(list (has-slot? f%d %s) (get-slot-or-nil f%d %s))", i, k, i, k), w.env)
			if err != nil {
				w.fail("shape", "failed: %v", err)
				return
			}
			got, v := golisp.BooleanValue(golisp.Car(d)), golisp.Cadr(d)
			if got != has {
				w.fail("shape", "has-slot? is %v, want %v", got, has)
				return
			}
			ok := true
			if !has {
				ok = golisp.NilP(v)
			} else if shape == "chain" || shape == "ring" {
				want := w.find(i, k)
				ok = w.is(v, want[0])
			} else {
				ok = w.is(v, held)
			}
			if g, gerr := evalText(fmt.Sprintf("(get-slot f%d %s)", i, k), w.env); (gerr == nil) != has || has && canonD(g) != canonD(v) {
				w.fail("shape", "get-slot gave %s (err %v) and get-slot-or-nil %s", w.showD(g), gerr, w.showD(v))
				return
			}
			if !ok {
				w.fail("shape", "get-slot-or-nil gave %s", w.showD(v))
				return
			}
			c.Count("shape_lookups", 1)
			if !has {
				c.Count("shape_missing", 1)
			}
		}
	}
	if shape == "chain" || shape == "ring" {
		i := r.Intn(n)
		if r.Intn(2) == 0 {
			i = n - 1
		}
		cnt := 0
		v, acyclic := w.tree(i, map[int]bool{}, &cnt)
		s := golisp.String(golisp.FrameWithValue(w.real[i]))
		if acyclic && s != printed(v) {
			w.log = []string{fmt.Sprintf("%s of %d frames; String(f%d)", shape, n, i)}
			w.fail("shape-print", "prints as\n %s\nwant\n %s", s, printed(v))
			return
		}
	}
	c.Distinct(fmt.Sprintf("%s %d %v", shape, n, c.Idx))
	c.Count("shape_"+shape, 1)
}

func init() {
	register(&Check{ID: "C19",
		Rule: "history: a random sequence of slot operations (built-ins, shortcuts and host API) on up to nine frames with arbitrary, also cyclic, parents, each compared with a model and followed by an audit of every frame's own slots; shapes: lookups in deep chains, rings and lattices of parents. A case is non-trivial when its history is new.",
		Assumptions: []string{"where several parents of one frame provide a slot, any of their values is accepted",
			"printing is compared exactly for frames that reach no cycle and hold no floats, and otherwise must end"},
		Setup: setupPrims,
		Need:  []string{"histories", "gets_inherited", "gets_missing", "removes", "clones", "equal_frames", "printed_cyclic", "shape_missing"},
		Phases: []Phase{
			{"history", 48000, 600000, c19History},
			{"shapes", 3000, 40000, c19Shapes},
		}})
}
