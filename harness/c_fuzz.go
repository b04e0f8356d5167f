package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C25: built-ins never crash ---------------------------------------------------------------------

// c25Call makes one call and looks at what came back
func c25Call(c *Case, f *fuzzer, p *primInfo, ds []*golisp.Data, route int) {
	f.clamp(p, ds)
	if blocking[p.name] && p.name == "join" && len(ds) > 0 && golisp.ObjectP(ds[0]) {
		// joining twice is an error, joining once waits for a process that ends
		c.Count("joins", 1)
	}
	c.Desc("(%s %s) route %d", p.name, descData(ds), route)
	r, err := f.callPrim(p, ds, route)
	c.Count("calls", 1)
	if err != nil {
		c.Count("rejected", 1)
		if err.Error() == "" {
			c.Count("empty_messages", 1)
		}
		return
	}
	c.Count("accepted", 1)
	// the result is a proper value
	canonD(r)
	golisp.String(r)
}

func c25Shared(c *Case) {
	if m := sharedIntact(); m != "" {
		c.Fail("shared:"+m, "after %s: %s", c.desc, m)
	}
}

func c25Pairs(c *Case) {
	var plain []*primInfo
	for _, p := range allPrims {
		if !p.special {
			plain = append(plain, p)
		}
	}
	p := plain[(c.Idx/nKinds)%len(plain)]
	k1 := c.Idx % nKinds
	f := newFuzzer(c.R, false)
	r := c.R
	slow := p.name == "sleep" || p.name == "proc-sleep" || p.name == "schedule"
	for n := 0; n <= 4; n++ {
		ok := false
		for _, x := range p.counts {
			ok = ok || x == n
		}
		if !ok && r.Intn(4) > 0 {
			continue
		}
		if n < 2 {
			var ds []*golisp.Data
			if n == 1 {
				ds = []*golisp.Data{f.kind(k1, 2)}
			}
			c25Call(c, f, p, ds, r.Intn(3))
			continue
		}
		for k2 := 0; k2 < nKinds; k2++ {
			if slow && k2%4 > 0 {
				continue
			}
			ds := []*golisp.Data{f.kind(k1, 2), f.kind(k2, 2)}
			if r.Intn(2) == 0 && n > 2 {
				ds[1] = f.kind(r.Intn(nKinds), 2)
			}
			for len(ds) < n {
				ds = append(ds, f.kind(r.Intn(nKinds), 2))
			}
			if len(ds) > 2 && r.Intn(2) == 0 {
				ds[2] = f.kind(k2, 2)
			}
			c25Call(c, f, p, ds, r.Intn(3))
		}
	}
	c.Distinct(fmt.Sprint(p.name, " ", k1, " ", c.Idx/(nKinds*len(plain))))
	c.Count("prim_"+p.name, 1)
	c25Shared(c)
}

func c25Random(c *Case) {
	f := newFuzzer(c.R, false)
	r := c.R
	for i := 0; i < 12; i++ {
		p := allPrims[r.Intn(len(allPrims))]
		if p.special {
			continue
		}
		n := r.Intn(6)
		if len(p.counts) > 0 && r.Intn(5) > 0 {
			n = p.counts[r.Intn(len(p.counts))]
		}
		var ds []*golisp.Data
		for len(ds) < n {
			ds = append(ds, f.any(3))
		}
		c25Call(c, f, p, ds, r.Intn(3))
		c.Distinct(c.desc)
	}
	c25Shared(c)
}

// c25Related: arguments that are almost right for each other. A sequence of a known length with numbers around its
// length and around each other, functions with lists whose lengths fit or nearly fit, a frame with its slot names.
func c25Related(c *Case) {
	f := newFuzzer(c.R, false)
	r := c.R
	p := allPrims[c.Idx%len(allPrims)]
	if p.special || p.name == "sleep" || p.name == "proc-sleep" || p.name == "schedule" {
		return
	}
	c.Count("related_functions", 1)
	for i := 0; i < 60; i++ {
		n := 1 + r.Intn(4)
		if len(p.counts) > 0 && r.Intn(8) > 0 {
			n = p.counts[r.Intn(len(p.counts))]
		}
		if n == 0 {
			n = 1
		}
		L := r.Intn(9)
		if r.Intn(6) == 0 {
			L = r.Intn(120)
		}
		seq := func(k, n int) *golisp.Data {
			if n < 0 {
				n = 0
			}
			switch k {
			case 0:
				return golisp.StringWithValue(strings.Repeat("a bé", n)[:n])
			case 1:
				b := make([]byte, n)
				r.Read(b)
				return mkBytes(b)
			case 2:
				var a *golisp.Data
				for ; n > 0; n-- {
					a = golisp.Acons(golisp.IntegerWithValue(int64(n)), golisp.IntegerWithValue(int64(n)), a)
				}
				return a
			case 3:
				m := golisp.FrameMap{Data: golisp.FrameMapData{}}
				for ; n > 0; n-- {
					m.Data[fmt.Sprintf("k%d:", n)] = golisp.IntegerWithValue(int64(n))
				}
				return golisp.FrameWithValue(&m)
			case 4:
				var l []*golisp.Data
				for ; n > 0; n-- {
					l = append(l, f.kind([]int{2, 7, 10, 16, 19, 22}[r.Intn(6)], 1))
				}
				return dlist(l...)
			}
			var l []*golisp.Data
			for ; n > 0; n-- {
				l = append(l, golisp.IntegerWithValue(int64(r.Intn(9)-2)))
			}
			return dlist(l...)
		}
		k := r.Intn(7)
		near := []int{0, 1, L - 1, L, L + 1, 2 * L, -1, -L, L / 2, L + 2, 2*L + 1}
		at := r.Intn(n)
		if r.Intn(3) > 0 {
			at = 0
		}
		last := L
		var ds []*golisp.Data
		for j := 0; j < n; j++ {
			switch {
			case j == at:
				ds = append(ds, seq(k, L))
			case r.Intn(4) > 0:
				v := near[r.Intn(len(near))]
				if r.Intn(4) == 0 {
					v = last + r.Intn(3) - 1
				}
				last = v
				ds = append(ds, golisp.IntegerWithValue(int64(v)))
			case r.Intn(3) == 0:
				ds = append(ds, f.funcs[r.Intn(len(f.funcs))])
			case r.Intn(3) == 0:
				ds = append(ds, symD(fmt.Sprintf("k%d:", r.Intn(L+2))))
			default:
				ds = append(ds, seq([]int{k, r.Intn(7)}[r.Intn(2)], L+r.Intn(3)-1))
			}
		}
		if j := r.Intn(n); r.Intn(3) == 0 && j != at { // a function where one may be expected
			ds[j] = f.funcs[r.Intn(len(f.funcs))]
		}
		c25Call(c, f, p, ds, r.Intn(3))
		c.Count("related_calls", 1)
	}
	c.Distinct(c.desc)
	c25Shared(c)
}

// raw: an arbitrary form, not necessarily well formed, that cannot recurse or loop when evaluated
func (f *fuzzer) raw(depth int, quasi bool) *golisp.Data {
	r := f.r
	if depth <= 0 || r.Intn(3) == 0 {
		switch r.Intn(9) {
		case 0, 1:
			return symD(fmt.Sprintf("v%d", r.Intn(4)))
		case 2:
			return quoteD(f.any(2))
		case 3:
			return f.kind([]int{0, 1, 2, 4, 5, 7, 12, 22}[r.Intn(8)], 0)
		case 4:
			return symD([]string{"else", "=>", "unbound", "k:", "a:", ".", "nil", "self"}[r.Intn(8)])
		case 5:
			return golisp.BooleanWithValue(r.Intn(2) == 0)
		case 6:
			return f.any(1)
		default:
			return golisp.IntegerWithValue(int64(r.Intn(5)))
		}
	}
	var l []*golisp.Data
	switch r.Intn(6) {
	case 0:
		l = append(l, symD([]string{"list", "car", "cons", "+", "length", "v0", "v1", "eq?"}[r.Intn(8)]))
	case 1:
		l = append(l, symD(fmt.Sprintf("v%d", r.Intn(4))))
	case 2:
		if quasi {
			l = append(l, symD([]string{"unquote", "unquote-splicing", "quasiquote"}[r.Intn(3)]))
		}
	}
	for i := 0; i < r.Intn(4); i++ {
		l = append(l, f.raw(depth-1, quasi))
	}
	d := dlist(l...)
	if len(l) > 0 && r.Intn(8) == 0 { // dotted form
		d = golisp.Cons(l[0], f.kind([]int{2, 7, 10}[r.Intn(3)], 0))
	}
	return d
}

// nameForm: what stands where a definition expects a name or a name with parameters
func (f *fuzzer) nameForm() *golisp.Data {
	r := f.r
	n := func() *golisp.Data { return symD(fmt.Sprintf("d%d", r.Intn(4))) }
	switch r.Intn(6) {
	case 0, 1:
		return n()
	case 2:
		return f.kind([]int{0, 1, 2, 7, 12, 5}[r.Intn(6)], 0)
	case 3:
		return golisp.Cons(n(), n())
	default:
		var l []*golisp.Data
		for i := 0; i < r.Intn(4); i++ {
			if r.Intn(4) == 0 {
				l = append(l, f.kind([]int{2, 7, 1, 12}[r.Intn(4)], 0))
			} else {
				l = append(l, n())
			}
		}
		return dlist(l...)
	}
}

// specialForm makes a call of the special form with arbitrary operands
func (f *fuzzer) specialForm(p *primInfo) *golisp.Data {
	r := f.r
	n := r.Intn(6)
	if len(p.counts) > 0 && r.Intn(4) > 0 {
		n = p.counts[r.Intn(len(p.counts))]
	}
	form := []*golisp.Data{symD(p.name)}
	for i := 0; i < n; i++ {
		form = append(form, f.raw(3, p.name == "quasiquote"))
	}
	switch p.name {
	case "define", "defmacro", "named-lambda", "lambda":
		if n > 0 {
			form[1] = f.nameForm()
		}
	case "let", "let*", "letrec":
		if n > 0 {
			if golisp.SymbolP(form[1]) {
				form[1] = symD("nl")
			}
			if r.Intn(2) == 0 {
				var bs []*golisp.Data
				for i := 0; i < r.Intn(4); i++ {
					bs = append(bs, dlist(symD(fmt.Sprintf("v%d", r.Intn(4))), f.raw(2, false)))
				}
				k := 1
				if p.name == "let" && r.Intn(3) == 0 && n > 2 {
					form[1] = symD("nl")
					k = 2
				}
				form[k] = dlist(bs...)
			}
		}
	case "do": // a test that holds at once, or operands that are rejected
		if n > 1 {
			form[2] = dlist(golisp.BooleanWithValue(true), f.raw(2, false))
			if r.Intn(4) == 0 {
				form[2] = golisp.IntegerWithValue(int64(r.Intn(5)))
			}
		}
		if n > 0 && r.Intn(2) == 0 {
			form[1] = dlist(dlist(symD("v1"), f.raw(2, false), f.raw(1, false)), f.raw(2, false))
		}
	case "set!":
		if n > 0 && r.Intn(2) == 0 {
			form[1] = symD([]string{"v0", "v1", "undefined-name", "car", "nil", "self"}[r.Intn(6)])
		}
	case "set-car!", "set-cdr!", "set-nth!", "append!": // nothing that could put a list into itself
		for i := 2; i < len(form); i++ {
			form[i] = quoteD(f.any(2))
		}
	case "cond", "case":
		for i := 1; i < len(form); i++ {
			if r.Intn(2) == 0 {
				form[i] = dlist(f.raw(1, false), f.raw(1, false), f.raw(1, false))
			}
		}
	case "apply-slot", "apply-slot-super":
		if n > 1 && r.Intn(2) == 0 {
			form[1], form[2] = quoteD(f.kind(23, 2)), symD("f:")
		}
	case "expand":
		if n > 0 && r.Intn(2) == 0 {
			form[1] = quoteD(f.kind(26, 0))
		}
	}
	return dlist(form...)
}

func c25Forms(c *Case) {
	r := c.R
	f := newFuzzer(r, false)
	var special []*primInfo
	for _, p := range allPrims {
		if p.special {
			special = append(special, p)
		}
	}
	for i := 0; i < 4; i++ {
		f.env.BindLocallyTo(symD(fmt.Sprintf("v%d", i)), f.any(2))
	}
	p := special[c.Idx%len(special)]
	for i := 0; i < 6; i++ {
		form := f.specialForm(p)
		c.Desc("%s", descData([]*golisp.Data{form}))
		env := golisp.NewSymbolTableFrameBelow(f.env, "form")
		v, err := golisp.Eval(form, env)
		c.Count("forms", 1)
		if err == nil {
			canonD(v)
			golisp.String(v)
			c.Count("forms_accepted", 1)
		} else {
			c.Count("forms_rejected", 1)
		}
		c.Distinct(c.desc)
	}
	c.Count("form_"+p.name, 1)
	c25Shared(c)
}

// the operations on files, in a private directory, and arguments they must reject
func c25Files(c *Case) {
	r := c.R
	f := newFuzzer(r, false)
	dir := scratch()
	path := filepath.Join(dir, fmt.Sprintf("c25-%d", c.Idx))
	defer os.Remove(path)
	os.WriteFile(path, []byte([]string{"", "(+ 1 2)", "(car", ")", "(error \"x\")", "\"abc", "{a: 1}", "[1 2", "#", "'"}[r.Intn(10)]), 0o600)
	arg := func() *golisp.Data {
		switch r.Intn(4) {
		case 0:
			return golisp.StringWithValue(path)
		case 1:
			return golisp.StringWithValue(filepath.Join(dir, "absent", "x"))
		}
		for {
			if d := f.any(2); !golisp.StringP(d) {
				return d
			}
		}
	}
	for i := 0; i < 4; i++ {
		name := []string{"open-output-file", "open-input-file", "list-directory", "load", "close-port", "read", "write-bytes", "exec", "profile", "global-eval"}[r.Intn(10)]
		var ds []*golisp.Data
		for k := 0; k < 1+r.Intn(2); k++ {
			ds = append(ds, arg())
		}
		if name == "exec" {
			for golisp.StringP(ds[0]) {
				ds[0] = f.any(2)
			}
		}
		if name == "profile" {
			form := dlist(symD("profile"), golisp.IntegerWithValue(3), ds[0])
			c.Desc("(profile 3 %s)", descData(ds[:1]))
			if golisp.StringP(ds[0]) || r.Intn(2) == 0 {
				golisp.Eval(form, f.env)
				c.Count("file_calls", 1)
			}
			continue
		}
		if name == "global-eval" {
			ds = []*golisp.Data{f.kind([]int{0, 1, 2, 5, 7, 12}[r.Intn(6)], 0)}
		}
		c.Desc("(%s %s)", name, descData(ds))
		v, err := golisp.ApplyWithoutEval(golisp.Global.ValueOf(symD(name)), dlist(ds...), f.env)
		c.Count("file_calls", 1)
		if err == nil {
			golisp.String(v)
			if golisp.PortP(v) {
				for _, s := range []string{"(read pp)", "(read pp)", "(write 3 pp)", "(close-port pp)", "(close-port pp)", "(write 3 pp)", "(read pp)"} {
					f.env.BindLocallyTo(symD("pp"), v)
					evalText(s, f.env)
				}
			}
		}
		c.Distinct(strings.Replace(c.desc, dir, "", -1))
	}
	c25Shared(c)
}

// ---- C08: code and arguments stay as they are ----------------------------------------------------------

// snap: structure and types of a value
func snap(d *golisp.Data) string {
	var b strings.Builder
	snapTo(&b, d, 0)
	return b.String()
}

func snapTo(b *strings.Builder, d *golisp.Data, depth int) {
	if d == nil {
		b.WriteString("nil")
		return
	}
	if depth > 300 {
		b.WriteString("...")
		return
	}
	switch golisp.TypeOf(d) {
	case golisp.ConsCellType, golisp.AlistType, golisp.AlistCellType:
		if golisp.NilP(d) {
			b.WriteString("()")
			return
		}
		fmt.Fprintf(b, "(%d ", golisp.TypeOf(d))
		for {
			snapTo(b, golisp.Car(d), depth+1)
			b.WriteByte(' ')
			t := golisp.Cdr(d)
			if t == nil || golisp.NilP(t) {
				break
			}
			if !isPairD(t) {
				b.WriteString(". ")
				snapTo(b, t, depth+1)
				break
			}
			d = t
		}
		b.WriteByte(')')
	default:
		b.WriteString(canonD(d))
	}
}

// the same parsed program evaluated twice, from equal states
func c08Program(c *Case) {
	g := newGen(c.R, map[string]int{"top-macro": 12, "macro": 8, "quasi": 6, "l-quasi": 6, "apply": 5, "rest": 20, "l-map": 5, "chain": 3, "tap": 3, "case": 3, "onerror": 3})
	prog := g.Program(2+g.n(4), 5)
	in := newRef(20000)
	for _, f := range prog {
		if _, _, _, over := in.Run(f, in.G); over {
			c.Count("skipped_too_long", 1)
			return
		}
	}
	var src []string
	for _, f := range prog {
		src = append(src, show(f))
	}
	text := strings.Join(src, "\n")
	c.Desc("%s", text)
	forms := make([]*golisp.Data, len(src))
	before := make([]string, len(src))
	for i, s := range src {
		d, err := golisp.Parse(s)
		if err != nil {
			return // judged by C02
		}
		forms[i] = d
		before[i] = snap(d)
	}
	run := func() (out []string, vals []*golisp.Data) {
		env := freshEnv()
		rec.take()
		for i, d := range forms {
			v, err := golisp.Eval(d, env)
			out = append(out, showOutcome(v, err)+" "+stripErrStrings(strings.Join(rec.take(), ";")))
			vals = append(vals, v)
			for k := range forms {
				if s := snap(forms[k]); s != before[k] {
					c.Fail("code:"+text, "evaluating form %d changed the parsed form %d\nfrom %s\nto   %s\nprogram:\n%s", i, k, before[k], s, text)
					return
				}
			}
			c.Count("forms", 1)
		}
		return
	}
	o1, v1 := run()
	var keep []string
	for _, v := range v1 {
		keep = append(keep, snap(v))
	}
	if len(o1) < len(forms) {
		return
	}
	o2, _ := run()
	if len(o2) < len(forms) {
		return
	}
	for i := range o1 {
		if o1[i] != o2[i] {
			c.Fail("again:"+text, "evaluating the same parsed form %d again gives\n%s\ninstead of\n%s\nprogram:\n%s", i, o2[i], o1[i], text)
			return
		}
		if s := snap(v1[i]); s != keep[i] {
			c.Fail("result:"+text, "the value of form %d changed from %s to %s while the program ran again\n%s", i, keep[i], s, text)
			return
		}
	}
	c.Count("evaluated_twice", 1)
	c.Distinct(text)
}

// histories of operations without ! over a pool of values that share structure
func c08History(c *Case) {
	r := c.R
	f := newFuzzer(r, true)
	type item struct {
		d *golisp.Data
		s string
	}
	var pool []item
	add := func(d *golisp.Data) { pool = append(pool, item{d, snap(d)}) }
	for i := 0; i < 4; i++ {
		add(f.any(3))
	}
	// shared structure
	pick := func() *golisp.Data { return pool[r.Intn(len(pool))].d }
	add(golisp.Cons(pick(), pick()))
	add(dlist(pick(), pick(), pick()))
	add(f.kind(20, 2))
	add(f.kind(20, 2))
	add(f.kind(13, 3))
	add(f.kind(16, 3))
	add(f.kind(22, 0))
	add(f.kind(23, 2))
	var log []string
	for step := 0; step < 4+r.Intn(12); step++ {
		p := allPrims[r.Intn(len(allPrims))]
		if p.special || strings.HasSuffix(p.name, "!") || blocking[p.name] || smallInts[p.name] || p.name == "fork" || p.name == "eval" || p.name == "close-channel" || p.name == "restrict-environment" {
			continue
		}
		if len(p.counts) == 0 {
			continue
		}
		n := p.counts[r.Intn(len(p.counts))]
		var ds []*golisp.Data
		for len(ds) < n {
			switch r.Intn(6) {
			case 0:
				ds = append(ds, f.funcs[r.Intn(len(f.funcs))])
			case 1:
				ds = append(ds, f.kind([]int{2, 7, 10, 11}[r.Intn(4)], 0))
			default:
				ds = append(ds, pick())
			}
		}
		hof := map[string]bool{"map": true, "for-each": true, "filter": true, "remove": true, "find": true, "find-tail": true, "memp": true, "any": true, "every": true, "reduce": true, "reduce-left": true, "reduce-right": true, "fold-left": true, "fold-right": true, "apply": true, "partition": true}
		if hof[p.name] && len(ds) > 0 {
			ds[0] = f.funcs[r.Intn(len(f.funcs))]
		}
		if p.name == "sort" && len(ds) > 1 {
			ds[1] = f.funcs[r.Intn(len(f.funcs))]
		}
		call := "(" + p.name + " " + descData(ds) + ")"
		log = append(log, call)
		c.Desc("%s", strings.Join(log, "\n"))
		v, err := f.callPrim(p, ds, r.Intn(3))
		c.Count("calls", 1)
		for i := range pool {
			if s := snap(pool[i].d); s != pool[i].s {
				c.Fail("arg:"+p.name+":"+call, "%s\nchanged a value from\n%s\nto\n%s\nafter\n%s", call, pool[i].s, s, strings.Join(log, "\n"))
				return
			}
			c.Count("observations", 1)
		}
		if err == nil {
			c.Count("accepted", 1)
			c.Count("op_"+p.name, 1)
			if v != nil && len(snap(v)) < 3000 && len(pool) < 40 {
				add(v)
			}
		}
	}
	c.Distinct(strings.Join(log, "\n"))
}

// special forms over arbitrary operands: the form stays as it is and gives the same again
func c08Forms(c *Case) {
	r := c.R
	f := newFuzzer(r, true)
	var special []*primInfo
	for _, p := range allPrims {
		if p.special && !strings.HasSuffix(p.name, "!") {
			special = append(special, p)
		}
	}
	vals := make([]*golisp.Data, 4)
	snaps := make([]string, 4)
	for i := range vals {
		vals[i] = f.any(3)
		f.env.BindLocallyTo(symD(fmt.Sprintf("v%d", i)), vals[i])
		snaps[i] = snap(vals[i])
	}
	for k := 0; k < 5; k++ {
		p := special[r.Intn(len(special))]
		form := f.specialForm(p)
		s := snap(form)
		c.Desc("%s", descData([]*golisp.Data{form}))
		var out [2]string
		for n := 0; n < 2; n++ {
			v, err := golisp.Eval(form, golisp.NewSymbolTableFrameBelow(f.env, "form"))
			out[n] = showOutcome(v, err)
			c.Count("special_forms", 1)
			if snap(form) != s {
				c.Fail("form:"+s, "evaluating the form changed it from\n%s\nto\n%s", s, snap(form))
				return
			}
			for i := range vals {
				if snap(vals[i]) != snaps[i] {
					c.Fail("formarg:"+s, "evaluating %s changed v%d from\n%s\nto\n%s", s, i, snaps[i], snap(vals[i]))
					return
				}
			}
		}
		if out[0] != out[1] {
			c.Fail("formagain:"+s, "%s\ngives %s the first time and %s the second time", s, out[0], out[1])
			return
		}
		c.Distinct(s)
	}
}

func init() {
	register(&Check{
		ID: "C25", Setup: setupFuzz,
		Need:        []string{"calls", "accepted", "rejected", "forms_accepted", "forms_rejected", "file_calls", "related_calls"},
		Rule:        "every built-in function with every pair of the 32 kinds of values (all types, boundary numbers, malformed and dotted lists, association lists, frames with odd parent slots, functions, macros, environments, channels, atomics, processes, ports, foreign objects) and random longer argument lists, sequences with numbers around their lengths and nearly fitting companions, and every special form with arbitrary operand forms, over several calling routes, in a checkptr build; watched: panics, faults, runaways, deadlocks, usability of results, shared values and global bindings; distinct by call",
		Assumptions: []string{"quit, panic!, the debugger and tracing switches, process execution with a command, sizes that exhaust memory and loops whose test is never true are not called", "waiting operations are given channels and processes that are ready"},
		Phases: []Phase{
			{Name: "pairs", Quick: 11000, Thorough: 44000, Run: c25Pairs},
			{Name: "random", Quick: 8000, Thorough: 120000, Run: c25Random},
			{Name: "related", Quick: 4000, Thorough: 60000, Run: c25Related},
			{Name: "forms", Quick: 12000, Thorough: 200000, Run: c25Forms},
			{Name: "files", Quick: 1500, Thorough: 10000, Run: c25Files},
		},
	})
	register(&Check{
		ID: "C08", Setup: setupFuzz,
		Need:        []string{"evaluated_twice", "calls", "observations", "special_forms", "accepted"},
		Rule:        "random programs parsed once and evaluated twice from equal states, with structural snapshots of every parsed form after each evaluation; special forms with arbitrary operands likewise; histories of built-ins without ! over a pool of values that share structure (results join the pool), with a snapshot of the whole pool after every call; distinct by program or history",
		Assumptions: []string{"operations that wait, and allocation by a given size, are left out of the histories"},
		Phases: []Phase{
			{Name: "programs", Quick: 20000, Thorough: 200000, Run: c08Program},
			{Name: "histories", Quick: 30000, Thorough: 500000, Run: c08History},
			{Name: "forms", Quick: 30000, Thorough: 400000, Run: c08Forms},
		},
	})
}
