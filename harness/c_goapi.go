package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unsafe"

	"github.com/steelseries/golisp"
)

// C40: what a host program does with Lisp data through the Go functions, against models.

type hStr struct{ s string }
type hCell struct{ car, cdr interface{} }

// hv is nil (the empty list), int64, bool, Sym, *hStr or *hCell.
type hv interface{}

func hSize(m hv, max int) int {
	if max <= 0 {
		return 1
	}
	if c, ok := m.(*hCell); ok {
		n := 1 + hSize(c.car, max-1)
		if n > max {
			return n
		}
		return n + hSize(c.cdr, max-n)
	}
	return 1
}

func hText(m hv) string {
	switch x := m.(type) {
	case nil:
		return "()"
	case *hStr:
		return fmt.Sprintf("%q", x.s)
	case *hCell:
		var b []string
		var t hv = x
		for {
			p, ok := t.(*hCell)
			if !ok {
				break
			}
			b = append(b, hText(p.car))
			t = p.cdr
		}
		if t != nil {
			b = append(b, ".", hText(t))
		}
		return "(" + strings.Join(b, " ") + ")"
	}
	return fmt.Sprint(m)
}

func hEqual(a, b hv) bool {
	switch x := a.(type) {
	case *hStr:
		y, ok := b.(*hStr)
		return ok && x.s == y.s
	case *hCell:
		y, ok := b.(*hCell)
		return ok && hEqual(x.car, y.car) && hEqual(x.cdr, y.cdr)
	}
	return a == b
}

func hProper(m hv) (out []hv, ok bool) {
	for {
		switch x := m.(type) {
		case nil:
			return out, true
		case *hCell:
			out = append(out, x.car)
			m = x.cdr
		default:
			return out, false
		}
	}
}

func hReaches(from hv, to *hCell) bool {
	c, ok := from.(*hCell)
	return ok && (c == to || hReaches(c.car, to) || hReaches(c.cdr, to))
}

func hList(vs []hv, tail hv) hv {
	for i := len(vs) - 1; i >= 0; i-- {
		tail = &hCell{vs[i], tail}
	}
	return tail
}

func hCopy(m hv) hv {
	switch x := m.(type) {
	case *hStr:
		return &hStr{x.s}
	case *hCell:
		return &hCell{hCopy(x.car), hCopy(x.cdr)}
	}
	return m
}

// hSame says where the data differs from the model, if it does.
func hSame(d *golisp.Data, m hv) string {
	bad := func() string { return fmt.Sprintf("%s where %s belongs", golisp.String(d), hText(m)) }
	if m == nil {
		if !golisp.NilP(d) || golisp.NotNilP(d) || !golisp.ListP(d) {
			return bad()
		}
		return ""
	}
	if d == nil || golisp.NilP(d) {
		return bad()
	}
	switch x := m.(type) {
	case int64:
		if !golisp.IntegerP(d) || golisp.IntegerValue(d) != x {
			return bad()
		}
	case bool:
		if !golisp.BooleanP(d) || golisp.BooleanValue(d) != x {
			return bad()
		}
	case Sym:
		if !golisp.SymbolP(d) || golisp.StringValue(d) != string(x) {
			return bad()
		}
	case *hStr:
		if !golisp.StringP(d) || golisp.StringValue(d) != x.s {
			return bad()
		}
	case *hCell:
		if !golisp.PairP(d) {
			return bad()
		}
		if s := hSame(golisp.Car(d), x.car); s != "" {
			return s
		}
		return hSame(golisp.Cdr(d), x.cdr)
	}
	return ""
}

func hAtom(r *rand.Rand) (*golisp.Data, hv) {
	switch r.Intn(9) {
	case 0:
		if r.Intn(2) == 0 {
			return nil, nil
		}
		return golisp.EmptyCons(), nil
	case 1:
		b := r.Intn(2) == 0
		return golisp.BooleanWithValue(b), b
	case 2, 3:
		s := []string{"a", "b", "quote", "long-name"}[r.Intn(4)]
		return golisp.Intern(s), Sym(s)
	case 4, 5:
		s := []string{"", "a", "b c"}[r.Intn(3)]
		return golisp.StringWithValue(s), &hStr{s}
	}
	n := []int64{0, 1, 2, 3, -1, 1 << 40}[r.Intn(6)]
	return golisp.IntegerWithValue(n), n
}

func c40Data(c *Case) {
	r := c.R
	type slot struct {
		d *golisp.Data
		m hv
	}
	pool := make([]slot, 6)
	var log []string
	for i := range pool {
		pool[i].d, pool[i].m = hAtom(r)
		log = append(log, fmt.Sprintf("v%d := %s", i, hText(pool[i].m)))
	}
	failed := false
	fail := func(sig, f string, a ...interface{}) {
		failed = true
		c.Desc("%s", strings.Join(log, "\n"))
		c.Fail(sig+":"+log[len(log)-1], f, a...)
	}
	steps := 15 + r.Intn(40)
	ops := map[string]bool{}
	for n := 0; n < steps; n++ {
		i, j, k := r.Intn(len(pool)), r.Intn(len(pool)), r.Intn(len(pool))
		a, b := pool[i], pool[j]
		as, aList := hProper(a.m)
		var res slot
		ok := true // the operation yields a value
		op := ""
		say := func(name string, args ...interface{}) {
			op = name
			var ss []string
			for _, x := range args {
				ss = append(ss, fmt.Sprint(x))
			}
			log = append(log, fmt.Sprintf("v%d := %s(%s)", k, name, strings.Join(ss, ", ")))
		}
		vi, vj := fmt.Sprint("v", i), fmt.Sprint("v", j)
		elems := func() (ds []*golisp.Data, ms []hv, names []interface{}) {
			for e := r.Intn(6); e > 0; e-- {
				x := r.Intn(len(pool))
				ds, ms, names = append(ds, pool[x].d), append(ms, pool[x].m), append(names, fmt.Sprint("v", x))
			}
			return
		}
		pan := ""
		func() {
			defer func() {
				if x := recover(); x != nil {
					pan = fmt.Sprint(x)
				}
			}()
			switch r.Intn(26) {
			case 0, 1:
				say("atom")
				res.d, res.m = hAtom(r)
				log[len(log)-1] += " " + hText(res.m)
			case 2:
				say("Cons", vi, vj)
				res = slot{golisp.Cons(a.d, b.d), &hCell{a.m, b.m}}
			case 3, 4:
				ds, ms, names := elems()
				say("InternalMakeList", names...)
				res = slot{golisp.InternalMakeList(ds...), hList(ms, nil)}
			case 5, 6:
				ds, ms, names := elems()
				say("ArrayToList", names...)
				res = slot{golisp.ArrayToList(ds), hList(ms, nil)}
				for x := range ds { // the array stays the host's
					ds[x] = nil
				}
			case 7:
				ds, ms, names := elems()
				say("ArrayToListWithTail", append(names, "tail", vi)...)
				res = slot{golisp.ArrayToListWithTail(ds, a.d), hList(ms, a.m)}
			case 8:
				if ok = aList; ok {
					say("Append", vi, vj)
					res = slot{golisp.Append(a.d, b.d), hList(hCopyAll(as), &hCell{b.m, nil})}
				}
			case 9:
				if ok = aList; ok {
					if len(as) > 0 && hReaches(b.m, hLast(a.m)) {
						ok = false
						return
					}
					say("AppendBang", vi, vj)
					d := golisp.AppendBang(a.d, b.d)
					if len(as) == 0 {
						res = slot{d, &hCell{b.m, nil}}
					} else {
						hLast(a.m).cdr = &hCell{b.m, nil}
						res = slot{d, a.m}
					}
				}
			case 10:
				if ok = aList; ok {
					say("AppendList", vi, vj)
					res = slot{golisp.AppendList(a.d, b.d), hList(hCopyAll(as), b.m)}
				}
			case 11:
				if ok = aList; ok {
					if len(as) > 0 && hReaches(b.m, hLast(a.m)) {
						ok = false
						return
					}
					say("AppendBangList", vi, vj)
					d := golisp.AppendBangList(a.d, b.d)
					if len(as) == 0 {
						res = slot{d, b.m}
					} else {
						hLast(a.m).cdr = b.m
						res = slot{d, a.m}
					}
				}
			case 12:
				if ok = aList; ok {
					if len(as) > 0 && r.Intn(2) == 0 {
						x := as[r.Intn(len(as))]
						b = slot{hBuild(x), x}
						vj = "a value equal to " + hText(x)
					}
					say("RemoveFromListBang", vi, vj)
					d := golisp.RemoveFromListBang(a.d, b.d)
					var prev *hCell
					m := a.m
					for t := a.m; t != nil; t = t.(*hCell).cdr {
						cell := t.(*hCell)
						if hEqual(cell.car, b.m) {
							if prev == nil {
								m = cell.cdr
							} else {
								prev.cdr = cell.cdr
							}
							break
						}
						prev = cell
					}
					res = slot{d, m}
				}
			case 13:
				if ok = aList; ok {
					say("Reverse", vi)
					var m hv
					for _, x := range as {
						m = &hCell{x, m}
					}
					res = slot{golisp.Reverse(a.d), m}
				}
			case 14, 15:
				deep := r.Intn(2) == 0
				out, fine := hFlatten(a.m, deep)
				if ok = fine; ok {
					say(map[bool]string{true: "RecursiveFlatten", false: "Flatten"}[deep], vi)
					var d *golisp.Data
					var err error
					if deep {
						d, err = golisp.RecursiveFlatten(a.d)
					} else {
						d, err = golisp.Flatten(a.d)
					}
					if err != nil {
						fail("error", "%s fails: %v", op, err)
					}
					res = slot{d, hList(out, nil)}
				}
			case 16:
				if ok = aList; ok && r.Intn(2) == 0 {
					say("QuoteAll", vi)
					var ms []hv
					for _, x := range as {
						ms = append(ms, hList([]hv{Sym("quote"), x}, nil))
					}
					res = slot{golisp.QuoteAll(a.d), hList(ms, nil)}
				} else {
					ok = true
					say("QuoteIt", vi)
					res = slot{golisp.QuoteIt(a.d), hList([]hv{Sym("quote"), a.m}, nil)}
				}
			case 17, 18:
				say("Copy", vi)
				res = slot{golisp.Copy(a.d), hCopy(a.m)}
			case 19:
				if ok = aList && len(as) > 0; ok {
					x := 1 + r.Intn(len(as)+1)
					cell, _ := a.m.(*hCell)
					for y := 1; y < x && cell != nil; y++ {
						cell, _ = cell.cdr.(*hCell)
					}
					if cell != nil && hReaches(b.m, cell) {
						ok = false
						return
					}
					say("SetNth", vi, x, vj)
					d := golisp.SetNth(a.d, x, b.d)
					if cell != nil {
						cell.car = b.m
					}
					res = slot{d, b.m}
				}
			case 20:
				s, isStr := a.m.(*hStr)
				if ok = isStr; ok {
					t := fmt.Sprint("s", n)
					say("SetStringValue", vi, t)
					golisp.SetStringValue(a.d, t)
					s.s = t
					res = a
				}
			case 21, 22:
				path := ""
				m, walkable := a.m, true
				for x := 1 + r.Intn(5); x > 0; x-- {
					p := []string{"a", "d", "d"}[r.Intn(3)]
					path = p + path
					switch y := m.(type) {
					case nil:
					case *hCell:
						if p == "a" {
							m = y.car
						} else {
							m = y.cdr
						}
					default:
						m, walkable = nil, false // what is not a list has no parts
					}
				}
				_ = walkable
				say("c"+path+"r", vi)
				f := map[string]func(*golisp.Data) *golisp.Data{"a": golisp.Car, "d": golisp.Cdr, "aa": golisp.Caar, "ad": golisp.Cadr, "da": golisp.Cdar, "dd": golisp.Cddr,
					"aaa": golisp.Caaar, "aad": golisp.Caadr, "ada": golisp.Cadar, "add": golisp.Caddr, "daa": golisp.Cdaar, "dad": golisp.Cdadr, "dda": golisp.Cddar, "ddd": golisp.Cdddr}[path]
				if f == nil {
					f = func(d *golisp.Data) *golisp.Data { return golisp.WalkList(d, path) }
				}
				res = slot{f(a.d), m}
			case 23, 24:
				if ok = aList; ok {
					x := r.Intn(13) - 1
					say("Nth", vi, x)
					d := golisp.Nth(a.d, x)
					if x >= 1 && x <= 10 && r.Intn(2) == 0 {
						log[len(log)-1] += " by its name"
						d = []func(*golisp.Data) *golisp.Data{golisp.First, golisp.Second, golisp.Third, golisp.Fourth, golisp.Fifth, golisp.Sixth, golisp.Seventh, golisp.Eighth, golisp.Ninth, golisp.Tenth}[x-1](a.d)
					}
					var m hv
					if x >= 1 && x <= len(as) {
						m = as[x-1]
					}
					res = slot{d, m}
				}
			case 25:
				ok = false
				log = append(log, fmt.Sprintf("IsEqual(%s, %s), ToArray, Length", vi, vj))
				if golisp.IsEqual(a.d, b.d) != hEqual(a.m, b.m) {
					fail("equal", "IsEqual of %s and %s is %v", hText(a.m), hText(b.m), !hEqual(a.m, b.m))
				}
				if aList {
					arr := golisp.ToArray(a.d)
					if len(arr) != len(as) || golisp.Length(a.d) != len(as) {
						fail("array", "ToArray of %s has %d elements, Length is %d", hText(a.m), len(arr), golisp.Length(a.d))
						return
					}
					for x := range arr {
						if s := hSame(arr[x], as[x]); s != "" {
							fail("array", "ToArray of %s: %s", hText(a.m), s)
						}
						arr[x] = nil // the array is the host's
					}
				}
			}
		}()
		if pan != "" {
			fail("panic:"+op, "panic: %s", pan)
			return
		}
		if failed {
			return
		}
		if op != "" {
			ops[op] = true
		}
		if ok && op != "" {
			if s := hSame(res.d, res.m); s != "" {
				fail(op, "the result is %s, want %s (%s)", golisp.String(res.d), hText(res.m), s)
				return
			}
			pool[k] = res
		}
		for x, p := range pool {
			if hSize(p.m, 400) >= 400 {
				return
			}
			if s := hSame(p.d, p.m); s != "" {
				fail(op, "afterwards v%d is %s, want %s (%s)", x, golisp.String(p.d), hText(p.m), s)
				return
			}
		}
	}
	for o := range ops {
		if !strings.HasPrefix(o, "c") {
			c.Count("op_"+o, 1)
		}
	}
	c.Distinct(strings.Join(log, "\n"))
}

func hCopyAll(ms []hv) (out []hv) {
	for _, m := range ms {
		out = append(out, hCopy(m))
	}
	return
}

func hLast(m hv) *hCell {
	c := m.(*hCell)
	for {
		n, ok := c.cdr.(*hCell)
		if !ok {
			return c
		}
		c = n
	}
}

func hFlatten(m hv, deep bool) (out []hv, ok bool) {
	l, ok := hProper(m)
	if !ok {
		return nil, false
	}
	for _, x := range l {
		if _, isCell := x.(*hCell); x == nil || isCell {
			sub, fine := hProper(x)
			if deep {
				sub, fine = hFlatten(x, true)
			}
			if !fine {
				return nil, false
			}
			out = append(out, sub...)
		} else {
			out = append(out, x)
		}
	}
	return out, true
}

func hBuild(m hv) *golisp.Data {
	switch x := m.(type) {
	case int64:
		return golisp.IntegerWithValue(x)
	case bool:
		return golisp.BooleanWithValue(x)
	case Sym:
		return golisp.Intern(string(x))
	case *hStr:
		return golisp.StringWithValue(x.s)
	case *hCell:
		return golisp.Cons(hBuild(x.car), hBuild(x.cdr))
	}
	return golisp.EmptyCons()
}

func c40Alists(c *Case) {
	r := c.R
	type slot struct {
		d *golisp.Data
		m map[string]hv
	}
	pool := make([]slot, 4)
	for i := range pool {
		pool[i] = slot{nil, map[string]hv{}}
	}
	keys := []hv{int64(1), int64(2), Sym("a"), Sym("b"), &hStr{"a"}, &hStr{"k"}, true}
	val := func() hv {
		var vs []hv
		for i := r.Intn(3); i > 0; i-- {
			_, m := hAtom(r)
			vs = append(vs, m)
		}
		if r.Intn(2) == 0 && len(vs) > 0 {
			return vs[0]
		}
		return hList(vs, nil)
	}
	with := func(m map[string]hv, k string, v hv) map[string]hv {
		out := map[string]hv{}
		for x, y := range m {
			out[x] = y
		}
		if k != "" {
			out[k] = v
		}
		return out
	}
	var log []string
	fail := func(sig, f string, a ...interface{}) {
		c.Desc("%s", strings.Join(log, "\n"))
		c.Fail(sig+":"+log[len(log)-1], f, a...)
	}
	for n := 12 + r.Intn(30); n > 0; n-- {
		i, j := r.Intn(4), r.Intn(4)
		a := pool[i]
		key := keys[r.Intn(len(keys))]
		switch r.Intn(7) {
		case 0, 1, 2:
			v := val()
			log = append(log, fmt.Sprintf("v%d := Acons(%s, %s, v%d)", j, hText(key), hText(v), i))
			pool[j] = slot{golisp.Acons(hBuild(key), hBuild(v), a.d), with(a.m, hText(key), v)}
		case 3:
			log = append(log, fmt.Sprintf("v%d := Dissoc(%s, v%d)", j, hText(key), i))
			d, err := golisp.Dissoc(hBuild(key), a.d)
			if err != nil {
				fail("dissoc", "Dissoc: %v", err)
				return
			}
			m := with(a.m, "", nil)
			delete(m, hText(key))
			pool[j] = slot{d, m}
		case 4:
			var pairs []hv
			m := map[string]hv{}
			for e := r.Intn(6); e > 0; e-- {
				k, v := keys[r.Intn(len(keys))], val()
				pairs = append(pairs, &hCell{k, v})
				if _, dup := m[hText(k)]; !dup {
					m[hText(k)] = v
				}
			}
			log = append(log, fmt.Sprintf("v%d := Alist(%s)", j, hText(hList(pairs, nil))))
			src := hBuild(hList(pairs, nil))
			pool[j] = slot{golisp.Alist(src), m}
			if s := hSame(src, hList(pairs, nil)); s != "" {
				fail("alist", "Alist changes its argument: %s", s)
				return
			}
		case 5:
			log = append(log, fmt.Sprintf("v%d := Copy(v%d)", j, i))
			pool[j] = slot{golisp.Copy(a.d), a.m}
		case 6:
			log = append(log, fmt.Sprintf("IsEqual(v%d, v%d)", i, j))
			want := len(a.m) == len(pool[j].m)
			for k, v := range a.m {
				if w, ok := pool[j].m[k]; !ok || !hEqual(v, w) {
					want = false
				}
			}
			if golisp.IsEqual(a.d, pool[j].d) != want {
				fail("equal", "IsEqual of %s and %s is %v", golisp.String(a.d), golisp.String(pool[j].d), !want)
				return
			}
		}
		for x, p := range pool {
			if golisp.Length(p.d) != len(p.m) {
				fail("length", "v%d %s has length %d, want %d", x, golisp.String(p.d), golisp.Length(p.d), len(p.m))
				return
			}
			if len(p.m) > 0 && !golisp.AlistP(p.d) {
				fail("type", "v%d %s is no alist", x, golisp.String(p.d))
				return
			}
			for _, k := range keys {
				pair, err := golisp.Assoc(hBuild(k), p.d)
				v, has := p.m[hText(k)]
				if err != nil || golisp.NilP(pair) == has {
					fail("assoc", "Assoc(%s, v%d) of %s is %s, %v", hText(k), x, golisp.String(p.d), golisp.String(pair), err)
					return
				}
				if has {
					s := hSame(golisp.Car(pair), k)
					if s == "" {
						s = hSame(golisp.Cdr(pair), v)
					}
					if s != "" {
						fail("assoc", "Assoc(%s, v%d) of %s: %s", hText(k), x, golisp.String(p.d), s)
						return
					}
				}
			}
		}
	}
	c.Count("alists", 1)
	c.Distinct(strings.Join(log, "\n"))
}

type hFrame struct {
	f     *golisp.FrameMap
	slots map[string]interface{} // int64, nil or *hFrame
}

func (f *hFrame) parents() (out []*hFrame) {
	for k, v := range f.slots {
		if p, ok := v.(*hFrame); ok && strings.HasSuffix(k, "*:") {
			out = append(out, p)
		}
	}
	return
}

func (f *hFrame) find(k string, seen map[*hFrame]bool) (out []interface{}) {
	if v, ok := f.slots[k]; ok {
		return []interface{}{v}
	}
	if seen[f] {
		return nil
	}
	s2 := map[*hFrame]bool{f: true}
	for x := range seen {
		s2[x] = true
	}
	for _, p := range f.parents() {
		out = append(out, p.find(k, s2)...)
	}
	return
}

func hfSame(d *golisp.Data, v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return golisp.NilP(d)
	case int64:
		return d != nil && golisp.IntegerP(d) && golisp.IntegerValue(d) == x
	case *hFrame:
		return d != nil && golisp.FrameP(d) && golisp.FrameValue(d) == x.f
	}
	return false
}

func hfOne(d *golisp.Data, vs []interface{}) bool {
	for _, v := range vs {
		if hfSame(d, v) {
			return true
		}
	}
	return false
}

var c40Keys = []string{"a:", "b:", "c:", "p*:", "q*:"}

func (f *hFrame) randomSet(r *rand.Rand, fs []*hFrame) string {
	k := c40Keys[r.Intn(len(c40Keys))]
	var v interface{}
	var d *golisp.Data
	switch {
	case strings.HasSuffix(k, "*:") && r.Intn(6) > 0 || r.Intn(8) == 0:
		p := fs[r.Intn(len(fs))]
		v, d = p, golisp.FrameWithValue(p.f)
	case r.Intn(7) == 0:
	default:
		n := int64(r.Intn(100))
		v, d = n, golisp.IntegerWithValue(n)
	}
	f.f.Set(k, d)
	f.slots[k] = v
	return fmt.Sprintf("Set(%s, %v)", k, golisp.IntegerValue(d))
}

func hNewFrames(n int) (fs []*hFrame) {
	for i := 0; i < n; i++ {
		fs = append(fs, &hFrame{&golisp.FrameMap{Data: golisp.FrameMapData{}}, map[string]interface{}{}})
	}
	return
}

func c40Frames(c *Case) {
	r := c.R
	fs := hNewFrames(5)
	var log []string
	fail := func(sig, f string, a ...interface{}) {
		c.Desc("%s", strings.Join(log, "\n"))
		c.Fail(sig+":"+log[len(log)-1], f, a...)
	}
	for n := 15 + r.Intn(40); n > 0; n-- {
		i := r.Intn(len(fs))
		f := fs[i]
		k := c40Keys[r.Intn(len(c40Keys))]
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			log = append(log, fmt.Sprintf("f%d.%s", i, f.randomSet(r, fs)))
		case 4:
			log = append(log, fmt.Sprintf("f%d.Remove(%s)", i, k))
			_, has := f.slots[k]
			if f.f.Remove(k) != has {
				fail("remove", "Remove is %v", !has)
				return
			}
			delete(f.slots, k)
		case 5:
			j := r.Intn(len(fs))
			log = append(log, fmt.Sprintf("f%d = f%d.Clone()", j, i))
			g := &hFrame{f.f.Clone(), map[string]interface{}{}}
			for x, v := range f.slots {
				g.slots[x] = v
			}
			fs[j] = g
		default:
			log = append(log, fmt.Sprintf("f%d.Keys, Values, Parents", i))
			var got, want []string
			for _, x := range f.f.Keys() {
				got = append(got, golisp.StringValue(x))
				if !golisp.SymbolP(x) {
					fail("keys", "the key %s is no symbol", golisp.String(x))
				}
			}
			for x := range f.slots {
				want = append(want, x)
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				fail("keys", "Keys: %v, want %v", got, want)
				return
			}
			vals := f.f.Values()
			if len(vals) != len(f.slots) || golisp.Length(golisp.FrameWithValue(f.f)) != len(f.slots) {
				fail("values", "%d values of %d slots", len(vals), len(f.slots))
				return
			}
			for _, v := range f.slots {
				found := -1
				for x := range vals {
					if hfSame(vals[x], v) {
						found = x
					}
				}
				if found < 0 {
					fail("values", "Values lacks %v", v)
					return
				}
				vals = append(vals[:found], vals[found+1:]...)
			}
			ps := map[*golisp.FrameMap]int{}
			for _, p := range f.f.Parents() {
				ps[p]++
			}
			for _, p := range f.parents() {
				ps[p.f]--
			}
			for _, x := range ps {
				if x != 0 {
					fail("parents", "wrong parents")
					return
				}
			}
		}
		for x, g := range fs {
			for _, k := range c40Keys {
				want := g.find(k, nil)
				got := g.f.Get(k)
				v, found := g.f.Find(k)
				if g.f.HasSlot(k) != (len(want) > 0) || found != (len(want) > 0) {
					fail("has", "f%d has slot %s: %v", x, k, g.f.HasSlot(k))
					return
				}
				if len(want) > 0 && (!hfOne(got, want) || !hfOne(v, want)) || len(want) == 0 && (got != nil || v != nil) {
					fail("get", "f%d.Get(%s) is %s, want %v", x, k, golisp.TypeName(golisp.TypeOf(got)), want)
					return
				}
			}
		}
	}
	c.Count("frame_graphs", 1)
	c.Distinct(strings.Join(log, "\n"))
}

type hBinding struct {
	v         int64
	protected bool
}

type hEnv struct {
	e      *golisp.SymbolTableFrame
	parent *hEnv
	vars   map[string]*hBinding
	frame  *hFrame
}

func (e *hEnv) find(n string) *hBinding {
	for ; e != nil; e = e.parent {
		if b := e.vars[n]; b != nil {
			return b
		}
	}
	return nil
}

func (e *hEnv) near(n string) *hBinding {
	for x := e; x != nil && x.frame == e.frame; x = x.parent {
		if b := x.vars[n]; b != nil {
			return b
		}
	}
	return nil
}

func c40Envs(c *Case) {
	r := c.R
	fs := hNewFrames(2)
	top := golisp.NewSymbolTableFrameBelow(golisp.Global, "c40")
	envs := []*hEnv{{e: top, vars: map[string]*hBinding{}}}
	names := []string{"zz-a", "zz-b", "zz-c"}
	var log []string
	fail := func(sig, f string, a ...interface{}) {
		c.Desc("%s", strings.Join(log, "\n"))
		c.Fail(sig+":"+log[len(log)-1], f, a...)
	}
	for n := 15 + r.Intn(45); n > 0; n-- {
		i := r.Intn(len(envs))
		e := envs[i]
		name := names[r.Intn(len(names))]
		sym := golisp.Intern(name)
		v := int64(r.Intn(1000))
		d := golisp.IntegerWithValue(v)
		k := r.Intn(12)
		call := func(op string) { log = append(log, fmt.Sprintf("e%d.%s(%s, %d)", i, op, name, v)) }
		check := func(op string, got *golisp.Data, err error, ok bool) bool {
			if ok != (err == nil) || ok && (golisp.IntegerValue(got) != v || !golisp.IntegerP(got)) {
				fail(op, "%s is %s, %v", op, golisp.String(got), err)
				return false
			}
			return true
		}
		switch {
		case k < 2 && len(envs) < 7:
			x := &hEnv{parent: e, vars: map[string]*hBinding{}, frame: e.frame}
			if r.Intn(3) == 0 {
				x.frame = fs[r.Intn(2)]
				x.e = golisp.NewSymbolTableFrameBelowWithFrame(e.e, x.frame.f, "inner")
			} else {
				x.e = golisp.NewSymbolTableFrameBelow(e.e, "inner")
			}
			log = append(log, fmt.Sprintf("e%d := below e%d", len(envs), i))
			envs = append(envs, x)
		case k < 4:
			call("BindTo")
			got, err := e.e.BindTo(sym, d)
			b := e.find(name)
			ok := b == nil || !b.protected
			if b == nil {
				e.vars[name] = &hBinding{v, false}
			} else if ok {
				b.v = v
			}
			if !check("BindTo", got, err, ok) {
				return
			}
		case k < 6:
			call("BindLocallyTo")
			got, err := e.e.BindLocallyTo(sym, d)
			b := e.vars[name]
			ok := b == nil || !b.protected
			if ok {
				e.vars[name] = &hBinding{v, false}
			}
			if !check("BindLocallyTo", got, err, ok) {
				return
			}
		case k < 7:
			call("BindToProtected")
			got := e.e.BindToProtected(sym, d)
			if b := e.find(name); b == nil {
				e.vars[name] = &hBinding{v, true}
			} else {
				b.v, b.protected = v, true
			}
			if !check("BindToProtected", got, nil, true) {
				return
			}
		case k < 9:
			call("SetTo")
			got, err := e.e.SetTo(sym, d)
			ok := true
			if b := e.near(name); b != nil {
				if ok = !b.protected; ok {
					b.v = v
				}
			} else if e.frame != nil && len(e.frame.find(name+":", nil)) > 0 {
				e.frame.slots[name+":"] = v
			} else if b := e.find(name); b != nil {
				if ok = !b.protected; ok {
					b.v = v
				}
			} else {
				ok = false
			}
			if !check("SetTo", got, err, ok) {
				return
			}
		case k < 10:
			call("DeleteBinding")
			e.e.DeleteBinding(name)
			delete(e.vars, name)
		default:
			x := r.Intn(2)
			slot := name + ":"
			if r.Intn(5) == 0 {
				log = append(log, fmt.Sprintf("f%d.Set(parent)", x))
				fs[x].f.Set("up*:", golisp.FrameWithValue(fs[1-x].f))
				fs[x].slots["up*:"] = fs[1-x]
			} else if r.Intn(3) == 0 {
				log = append(log, fmt.Sprintf("f%d.Remove(%s)", x, slot))
				fs[x].f.Remove(slot)
				delete(fs[x].slots, slot)
			} else {
				log = append(log, fmt.Sprintf("f%d.Set(%s, %d)", x, slot, v))
				fs[x].f.Set(slot, d)
				fs[x].slots[slot] = v
			}
		}
		for x, y := range envs {
			if y.e.HasFrame() != (y.frame != nil) {
				fail("frame", "e%d has a frame: %v", x, y.e.HasFrame())
				return
			}
			for _, nm := range names {
				s := golisp.Intern(nm)
				b := y.vars[nm]
				lb, present := y.e.BindingNamed(nm)
				if present != (b != nil) || present && (golisp.IntegerValue(lb.Val) != b.v || lb.Protected != b.protected || lb.Sym != s) {
					fail("local", "e%d's own %s is %v, want %v", x, nm, present, b)
					return
				}
				b = y.find(nm)
				fb, present := y.e.FindBindingFor(s)
				if present != (b != nil) || present && golisp.IntegerValue(fb.Val) != b.v {
					fail("binding", "the binding of %s seen from e%d is %v, want %v", nm, x, present, b)
					return
				}
				var want []interface{}
				if b := y.near(nm); b != nil {
					want = []interface{}{b.v}
				} else if y.frame != nil && len(y.frame.find(nm+":", nil)) > 0 {
					want = y.frame.find(nm+":", nil)
				} else if b != nil {
					want = []interface{}{b.v}
				} else {
					want = []interface{}{nil}
				}
				if b := y.find(nm); b != nil && want[0] == nil {
					want[0] = b.v
				}
				if got := y.e.ValueOf(s); !hfOne(got, want) {
					fail("value", "the value of %s in e%d is %s, want %v", nm, x, golisp.String(got), want)
					return
				}
			}
		}
	}
	c.Count("environment_histories", 1)
	c.Distinct(strings.Join(log, "\n"))
}

// c40Values: what goes into a datum comes out again, under its type and no other.
func c40Values(c *Case) {
	r := c.R
	var d *golisp.Data
	kind := r.Intn(12)
	i := int64(r.Uint64()) >> uint(r.Intn(64))
	f := float32(r.NormFloat64() * []float64{1, 1e-30, 1e10, 1e36}[r.Intn(4)])
	s := randText(r)
	fm := &golisp.FrameMap{Data: golisp.FrameMapData{}}
	en := golisp.NewSymbolTableFrameBelow(golisp.NewSymbolTableFrameBelow(golisp.Global, "c40"), "v")
	obj := &struct{ n int }{7}
	prim := golisp.PrimitiveValue(golisp.Global.ValueOf(golisp.Intern("car")))
	var want struct {
		i        int64
		f        float32
		s        string
		isTrue   bool
		p        unsafe.Pointer
		typeName string
	}
	want.isTrue = true
	ps := []string{"nil", "integer", "float", "boolean", "string", "symbol", "frame", "environment", "object", "primitive", "function", "macro"}
	switch ps[kind] {
	case "nil":
		want.isTrue = false
		if r.Intn(2) == 0 {
			d = golisp.EmptyCons()
		}
	case "integer":
		d = golisp.IntegerWithValue(i)
		want.i, want.f = i, float32(i)
	case "float":
		d = golisp.FloatWithValue(f)
		want.f = f
		if f > -9e18 && f < 9e18 {
			want.i = int64(f)
		} else {
			want.i = golisp.IntegerValue(d)
		}
	case "boolean":
		want.isTrue = i&1 == 0
		d = golisp.BooleanWithValue(want.isTrue)
	case "string":
		d = golisp.StringWithValue(s)
		if r.Intn(2) == 0 {
			d = golisp.SetStringValue(golisp.StringWithValue("old"), s)
		}
		want.s = s
	case "symbol":
		switch r.Intn(3) {
		case 0:
			d = golisp.SymbolWithName(s)
		case 1:
			d = golisp.Intern(s)
			if d != golisp.Intern(string(append([]byte{}, s...))) {
				c.Fail("intern", "Intern(%q) gives different symbols", s)
			}
		case 2:
			d = golisp.NakedSymbolWithName(s)
			if !golisp.NakedP(d) {
				c.Fail("naked", "NakedSymbolWithName(%q) is not naked", s)
			}
			s += ":"
		}
		want.s = s
	case "frame":
		d = golisp.FrameWithValue(fm)
	case "environment":
		d = golisp.EnvironmentWithValue(en)
	case "object":
		d = golisp.ObjectWithTypeAndValue("T"+s, unsafe.Pointer(obj))
	case "primitive":
		d = golisp.PrimitiveWithNameAndFunc("car", prim)
	case "function":
		d = golisp.FunctionWithNameParamsBodyAndParent(s, golisp.InternalMakeList(golisp.Intern("x")), golisp.InternalMakeList(golisp.Intern("x")), en)
	case "macro":
		d = golisp.MacroWithNameParamsBodyAndParent(s, golisp.InternalMakeList(golisp.Intern("x")), golisp.InternalMakeList(golisp.Intern("x")), en)
	}
	c.Desc("a %s: %d %v %q", ps[kind], i, f, s)
	bad := func(what string, got interface{}) { c.Fail(what+":"+c.desc, "%s is %v", what, got) }
	if got := golisp.IntegerValue(d); got != want.i {
		bad("IntegerValue", got)
	}
	if got := golisp.FloatValue(d); got != want.f {
		bad("FloatValue", got)
	}
	if got := golisp.StringValue(d); got != want.s {
		bad("StringValue", got)
	}
	if got := golisp.BooleanValue(d); got != want.isTrue {
		bad("BooleanValue", got)
	}
	for name, p := range map[string]func(*golisp.Data) bool{"integer": golisp.IntegerP, "float": golisp.FloatP, "boolean": golisp.BooleanP, "string": golisp.StringP, "symbol": golisp.SymbolP, "frame": golisp.FrameP,
		"environment": golisp.EnvironmentP, "object": golisp.ObjectP, "primitive": golisp.PrimitiveP, "function": golisp.FunctionP, "macro": golisp.MacroP, "nil": golisp.NilP} {
		if got := p(d); got != (ps[kind] == name) && !(ps[kind] == "nil" && d == nil) {
			bad("the predicate of "+name, got)
		}
	}
	if golisp.NumberP(d) != (kind == 1 || kind == 2) && d != nil || golisp.FunctionOrPrimitiveP(d) != (kind == 9 || kind == 10) && d != nil {
		bad("NumberP or FunctionOrPrimitiveP", golisp.NumberP(d))
	}
	if got := golisp.FrameValue(d); (got == fm) != (kind == 6) || kind != 6 && got != nil {
		bad("FrameValue", got)
	}
	if got := golisp.EnvironmentValue(d); (got == en) != (kind == 7) || kind != 7 && got != nil {
		bad("EnvironmentValue", got)
	}
	if got := golisp.ObjectValue(d); (got == unsafe.Pointer(obj)) != (kind == 8) || kind != 8 && got != nil {
		bad("ObjectValue", got)
	}
	if got := golisp.ObjectType(d); kind == 8 && got != "T"+s || kind != 8 && got != "" {
		bad("ObjectType", got)
	}
	if got := golisp.PrimitiveValue(d); (got == prim) != (kind == 9) || kind != 9 && got != nil {
		bad("PrimitiveValue", got)
	}
	if got := golisp.FunctionValue(d); (got != nil) != (kind == 10) || got != nil && (got.Name != s || got.Env != en) {
		bad("FunctionValue", got)
	}
	if got := golisp.MacroValue(d); (got != nil) != (kind == 11) || got != nil && (got.Name != s || got.Env != en) {
		bad("MacroValue", got)
	}
	if golisp.Car(d) != nil || golisp.Cdr(d) != nil || golisp.NotNilP(d) == golisp.NilP(d) {
		bad("Car or Cdr", golisp.String(golisp.Car(d)))
	}
	if cp := golisp.Copy(d); !golisp.IsEqual(cp, d) && !(kind == 2 && f != f) {
		bad("Copy", golisp.String(cp))
	}
	c.Count("values_"+ps[kind], 1)
	c.Distinct(c.desc)
}

func randText(r *rand.Rand) string {
	var b strings.Builder
	for i := r.Intn(8); i >= 0; i-- {
		b.WriteRune(textRunes[r.Intn(len(textRunes))])
	}
	return b.String()
}

var errC40 = errors.New("the host's error")

// c40Prims: functions of the host are called exactly when the number of their arguments fits.
func c40Prims(c *Case) {
	r := c.R
	type term struct{ lo, hi int }
	var terms []term
	var parts []string
	for i := 1 + r.Intn(4); i > 0; i-- {
		n := r.Intn(6)
		if r.Intn(8) == 0 {
			n = 10 + r.Intn(6)
		}
		switch r.Intn(7) {
		case 0:
			terms, parts = append(terms, term{n, 1 << 30}), append(parts, fmt.Sprint(">=", n))
		case 1, 2:
			hi := n + r.Intn(5)
			terms, parts = append(terms, term{n, hi}), append(parts, fmt.Sprintf("(%d,%d)", n, hi))
		case 3:
			if r.Intn(4) == 0 {
				terms, parts = append(terms, term{0, 1 << 30}), append(parts, "*")
				continue
			}
			fallthrough
		default:
			terms, parts = append(terms, term{n, n}), append(parts, fmt.Sprint(n))
		}
	}
	arity := strings.Join(parts, "|")
	special, restricted := r.Intn(3) == 0, r.Intn(3) == 0
	fails := r.Intn(6) == 0
	maker := golisp.MakePrimitiveFunction
	switch {
	case special && restricted:
		maker = golisp.MakeRestrictedSpecialForm
	case special:
		maker = golisp.MakeSpecialForm
	case restricted:
		maker = golisp.MakeRestrictedPrimitiveFunction
	}
	var gotArgs []*golisp.Data
	var gotEnv *golisp.SymbolTableFrame
	calls := 0
	result := golisp.IntegerWithValue(int64(r.Intn(1000)))
	maker("c40-prim", arity, func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
		calls++
		gotArgs, gotEnv = golisp.ToArray(args), env
		if fails {
			return nil, errC40
		}
		return result, nil
	})
	env := golisp.NewSymbolTableFrameBelow(golisp.Global, "c40")
	env.IsRestricted = r.Intn(3) == 0
	for n := 0; n <= 17; n++ {
		fit := false
		for _, t := range terms {
			fit = fit || n >= t.lo && n <= t.hi
		}
		way := r.Intn(3)
		var args []*golisp.Data
		for i := 0; i < n; i++ {
			x := golisp.IntegerWithValue(int64(i * i))
			if way != 2 {
				x = golisp.InternalMakeList(golisp.Intern("+"), x, golisp.IntegerWithValue(1))
			}
			args = append(args, x)
		}
		f := golisp.Global.ValueOf(golisp.Intern("c40-prim"))
		calls, gotArgs, gotEnv = 0, nil, nil
		var v *golisp.Data
		var err error
		switch way {
		case 0:
			v, err = golisp.Eval(golisp.Cons(golisp.Intern("c40-prim"), golisp.ArrayToList(args)), env)
		case 1:
			v, err = golisp.Apply(f, golisp.ArrayToList(args), env)
		case 2:
			v, err = golisp.ApplyWithoutEval(f, golisp.ArrayToList(args), env)
		}
		c.Desc("a function of the host, arity %s, special %v, restricted %v, called in way %d with %d arguments, environment restricted %v", arity, special, restricted, way, n, env.IsRestricted)
		allowed := fit && !(restricted && env.IsRestricted)
		if (calls == 1) != allowed || calls > 1 {
			c.Fail("calls:"+c.desc, "it is called %d times (%v)", calls, err)
			return
		}
		if !allowed {
			if err == nil {
				c.Fail("accepted:"+c.desc, "no error")
				return
			}
			c.Count("rejected", 1)
			continue
		}
		if fails {
			if !errors.Is(err, errC40) {
				c.Fail("err:"+c.desc, "the host's error becomes %v", err)
				return
			}
			c.Count("failed", 1)
			continue
		}
		if err != nil || v != result || gotEnv != env || len(gotArgs) != n {
			c.Fail("result:"+c.desc, "result %s, %v; %d arguments", golisp.String(v), err, len(gotArgs))
			return
		}
		for i, a := range gotArgs {
			ok := golisp.IntegerP(a) && golisp.IntegerValue(a) == int64(i*i+1)
			if special && way != 2 {
				ok = a == args[i]
			} else if way == 2 {
				ok = a == args[i]
			}
			if !ok {
				c.Fail("arg:"+c.desc, "argument %d is %s", i, golisp.String(a))
				return
			}
		}
		c.Count("called", 1)
	}
	c.Distinct(fmt.Sprint(arity, special, restricted, fails, env.IsRestricted))
}

func init() {
	register(&Check{
		ID: "C40", Setup: setupPrims,
		Need: []string{"op_Append", "op_AppendBang", "op_AppendList", "op_AppendBangList", "op_RemoveFromListBang", "op_Reverse", "op_Flatten", "op_RecursiveFlatten", "op_QuoteAll", "op_QuoteIt", "op_Copy", "op_SetNth", "op_SetStringValue", "op_Nth",
			"op_ArrayToList", "op_ArrayToListWithTail", "op_InternalMakeList", "alists", "frame_graphs", "environment_histories", "values_object", "values_macro", "called", "rejected", "failed",
			"way_Eval", "way_Apply", "way_ApplyWithoutEval", "way_Function.Apply", "way_Function.ApplyWithoutEval", "way_Function.ApplyWithFrame", "way_Function.ApplyWithoutEvalWithFrame", "way_Function.ApplyOveriddingEnvironment", "way_Macro.Apply", "way_Macro.ApplyWithoutEval", "way_Macro.Expand"},
		Rule: "histories of calls of the Go functions on lists that share parts, on alists, on graphs of frames and on environments; values of every type put into data; functions of the host with random argument counts; distinct by history",
		Phases: []Phase{
			{Name: "data", Quick: 60000, Thorough: 1500000, Run: c40Data},
			{Name: "alists", Quick: 15000, Thorough: 300000, Run: c40Alists},
			{Name: "frames", Quick: 15000, Thorough: 300000, Run: c40Frames},
			{Name: "environments", Quick: 15000, Thorough: 300000, Run: c40Envs},
			{Name: "values", Quick: 20000, Thorough: 300000, Run: c40Values},
			{Name: "host functions", Quick: 10000, Thorough: 200000, Run: c40Prims},
			{Name: "functions", Quick: 40000, Thorough: 1000000, Run: c40Functions},
		},
		Assumptions: []string{"cyclic lists are excluded; list operations get proper lists; with several parents any parent's slot is accepted"},
	})
}

var textRunes = []rune("abcXYZ019 -_?*\"\\\nåé漢😀")

// c40Functions: functions and macros of programs called by the host, in every way there is
func c40Functions(c *Case) {
	r := c.R
	e := golisp.NewSymbolTableFrameBelow(golisp.Global, "c40-def")
	call := golisp.NewSymbolTableFrameBelow(golisp.Global, "c40-call")
	bind := func(env *golisp.SymbolTableFrame, n string, v int) {
		env.BindLocallyTo(golisp.Intern(n), golisp.IntegerWithValue(int64(v)))
	}
	fm := &golisp.FrameMap{Data: golisp.FrameMapData{}}
	home := &golisp.FrameMap{Data: golisp.FrameMapData{}}
	type place struct {
		e, f, h, c map[string]int // definition environment, frame given, frame of the definition, calling environment
	}
	p := place{map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}}
	free := []string{"x", "y", "z"}
	for i, n := range free {
		p.e[n], p.c[n] = 10+i, 20+i
		if r.Intn(2) == 0 {
			p.f[n] = 30 + i
			fm.Set(n+":", golisp.IntegerWithValue(int64(30+i)))
		}
		if r.Intn(3) == 0 {
			p.h[n] = 40 + i
			home.Set(n+":", golisp.IntegerWithValue(int64(40+i)))
		}
		bind(e, n, p.e[n])
		bind(call, n, p.c[n])
	}
	hasHome := r.Intn(3) == 0
	if hasHome {
		e.Frame = home
	}
	np := r.Intn(4)
	rest := r.Intn(3) == 0 && np > 0 // a parameter list that is one symbol has no syntax here
	var params, refs []string
	for i := 0; i < np; i++ {
		n := fmt.Sprintf("p%d", i)
		if r.Intn(6) == 0 {
			n = free[r.Intn(3)]
			for _, q := range params {
				if q == n {
					n = fmt.Sprintf("p%d", i)
				}
			}
		}
		params = append(params, n)
		refs = append(refs, n)
	}
	plist := strings.Join(params, " ")
	if rest {
		plist += " . more"
		refs = append(refs, "more")
	}
	isParam := func(n string) int {
		for i, q := range params {
			if q == n {
				return i
			}
		}
		return -1
	}
	macro := r.Intn(4) == 0
	fails := r.Intn(8) == 0
	set := ""
	body := "(vh-tick 100)"
	if !macro && r.Intn(2) == 0 {
		set = free[r.Intn(3)]
		body += fmt.Sprintf(" (set! %s 99)", set)
	}
	if fails {
		body += " (vh-fail 101)"
	}
	var src string
	if macro {
		src = fmt.Sprintf("(defmacro (c40-f %s) (begin %s (list 'list (list 'quote (list %s)) x y z 'x 'y 'z %s)))", plist, body, strings.Join(refs, " "), strings.Join(params, " "))
	} else {
		src = fmt.Sprintf("(define (c40-f %s) %s (list %s x y z (frame? self)))", plist, body, strings.Join(refs, " "))
	}
	fd, err := golisp.ParseAndEvalInEnvironment(src, e)
	if err != nil {
		c.Fail("define:"+src, "%s failed: %v", src, err)
		return
	}
	f := e.ValueOf(golisp.Intern("c40-f"))
	n := np
	if rest {
		n += r.Intn(4)
	}
	if r.Intn(5) == 0 {
		n = r.Intn(6)
	}
	fits := n == np || rest && n >= np
	ways := []string{"Eval", "Apply", "ApplyWithoutEval", "Function.Apply", "Function.ApplyWithoutEval", "Function.ApplyWithFrame", "Function.ApplyWithoutEvalWithFrame", "Function.ApplyOveriddingEnvironment"}
	if macro {
		ways = []string{"Eval", "Apply", "ApplyWithoutEval", "Macro.Apply", "Macro.ApplyWithoutEval", "Macro.Expand"}
	}
	way := ways[r.Intn(len(ways))]
	asValues := strings.Contains(way, "WithoutEval") && !macro
	failAt := -1
	if !asValues && n > 0 && r.Intn(8) == 0 {
		failAt = r.Intn(n)
	}
	var args []*golisp.Data
	var code []string
	var vals, codeV []V
	for i := 0; i < n; i++ {
		cv := V(list(Sym("vh-tick"), int64(i), list(Sym("+"), Sym(free[i%3]), int64(i))))
		s := fmt.Sprintf("(vh-tick %d (+ %s %d))", i, free[i%3], i)
		v := V(int64(p.c[free[i%3]] + i))
		if i == failAt {
			s = fmt.Sprintf("(vh-fail %d)", i)
			cv = list(Sym("vh-fail"), int64(i))
		} else if !asValues && r.Intn(8) == 0 {
			s, v, cv = "()", Nil, Nil
		}
		codeV = append(codeV, cv)
		if asValues {
			v = []V{int64(i), Sym("x"), list(Sym("vh-fail"), int64(7)), Str("s"), Nil}[r.Intn(5)]
			args = append(args, toData(v))
			code = append(code, show(v))
		} else {
			d, _ := golisp.Parse(s)
			args = append(args, d)
			code = append(code, s)
		}
		vals = append(vals, v)
	}
	c.Desc("%s\n%s of it to (%s); frame given %v, frame of the definition %v (%v)", src, way, strings.Join(code, " "), p.f, p.h, hasHome)
	_ = fd
	// what must happen
	given := strings.HasSuffix(way, "WithFrame")
	over := way == "Function.ApplyOveriddingEnvironment"
	slot := map[string]int(nil) // what of the frame is seen before the environment of the definition
	if given {                  // otherwise the bindings of the definition, which has the frame it has, come first
		slot = p.f
	}
	env := p.e
	if over {
		env = p.c
	}
	var ticks []string
	wantErr := !fits
	var want V
	if fits {
		stop := false
		evalArgs := func() {
			for i := 0; i < n && !stop; i++ {
				if i == failAt {
					ticks = append(ticks, fmt.Sprintf("FAIL %d", i))
					wantErr, stop = true, true
				} else if !isNil(codeV[i]) {
					ticks = append(ticks, fmt.Sprintf("%d %d", i, p.c[free[i%3]]+i))
				}
			}
		}
		if !macro && !asValues {
			evalArgs()
		}
		if !stop {
			ticks = append(ticks, "100")
			vars := map[string]V{}
			for _, v := range free {
				x, ok := slot[v]
				if !ok {
					x = env[v]
				}
				vars[v] = int64(x)
			}
			for i, q := range params {
				vars[q] = V(nil)
				if macro {
					vars[q] = codeV[i]
				} else {
					vars[q] = vals[i]
				}
			}
			if set != "" {
				vars[set] = int64(99)
				if isParam(set) < 0 {
					if _, ok := slot[set]; ok {
						p.f[set] = 99
					} else {
						env[set] = 99
					}
				}
			}
			if fails {
				ticks = append(ticks, "FAIL 101")
				wantErr = true
			} else if !macro {
				var l []V
				for _, q := range params {
					l = append(l, vars[q])
				}
				if rest {
					l = append(l, list(vals[np:]...))
				}
				want = list(append(l, vars["x"], vars["y"], vars["z"], given)...)
			} else {
				var quoted []V
				for _, q := range params {
					quoted = append(quoted, vars[q])
				}
				if rest {
					quoted = append(quoted, list(codeV[np:]...))
				}
				exp := []V{Sym("list"), list(Sym("quote"), list(quoted...)), vars["x"], vars["y"], vars["z"], Sym("x"), Sym("y"), Sym("z")}
				for _, q := range params {
					exp = append(exp, vars[q])
				}
				if way == "Macro.Expand" {
					want = list(exp...)
				} else {
					var out []V
					out = append(out, list(quoted...))
					ev := func(v V) { // the code of an operand, evaluated where the call is
						if _, ok := v.(*Pair); ok {
							for i := range code {
								if canon(codeV[i]) == canon(v) && !stop {
									if i == failAt {
										ticks = append(ticks, fmt.Sprintf("FAIL %d", i))
										wantErr, stop = true, true
									} else {
										ticks = append(ticks, fmt.Sprintf("%d %s", i, canon(vals[i])))
										out = append(out, vals[i])
									}
								}
							}
							return
						}
						out = append(out, v)
					}
					for _, v := range free {
						ev(vars[v])
					}
					for _, v := range free {
						out = append(out, int64(p.c[v]))
					}
					for _, q := range params {
						ev(vars[q])
					}
					want = list(out...)
				}
			}
		}
	}
	rec.take()
	l := golisp.ArrayToList(args)
	var got *golisp.Data
	switch way {
	case "Eval":
		call.BindLocallyTo(golisp.Intern("c40-g"), f)
		got, err = golisp.Eval(golisp.Cons(golisp.Intern("c40-g"), l), call)
	case "Apply":
		got, err = golisp.Apply(f, l, call)
	case "ApplyWithoutEval":
		got, err = golisp.ApplyWithoutEval(f, l, call)
	case "Function.Apply":
		got, err = golisp.FunctionValue(f).Apply(l, call)
	case "Function.ApplyWithoutEval":
		got, err = golisp.FunctionValue(f).ApplyWithoutEval(l, call)
	case "Function.ApplyWithFrame":
		got, err = golisp.FunctionValue(f).ApplyWithFrame(l, call, fm)
	case "Function.ApplyWithoutEvalWithFrame":
		got, err = golisp.FunctionValue(f).ApplyWithoutEvalWithFrame(l, call, fm)
	case "Function.ApplyOveriddingEnvironment":
		got, err = golisp.FunctionValue(f).ApplyOveriddingEnvironment(l, call)
	case "Macro.Apply":
		got, err = golisp.MacroValue(f).Apply(l, call)
	case "Macro.ApplyWithoutEval":
		got, err = golisp.MacroValue(f).ApplyWithoutEval(l, call)
	case "Macro.Expand":
		got, err = golisp.MacroValue(f).Expand(l, call)
	}
	tr := rec.take()
	if (err != nil) != wantErr {
		c.Fail("error:"+c.desc, "result %s, error %v; an error is expected: %v", showD(got), err, wantErr)
		return
	}
	if strings.Join(tr, ";") != strings.Join(ticks, ";") {
		c.Fail("events:"+c.desc, "the markers were %v, want %v", tr, ticks)
		return
	}
	if !wantErr && canonD(got) != canon(want) {
		c.Fail("result:"+c.desc, "the result is %s, want %s", canonD(got), canon(want))
		return
	}
	for _, v := range free {
		val := func(env *golisp.SymbolTableFrame) int {
			b, _ := env.BindingNamed(v)
			return int(golisp.IntegerValue(b.Val))
		}
		slotOf := func(f *golisp.FrameMap) int {
			if !f.HasSlot(v + ":") {
				return 0
			}
			return int(golisp.IntegerValue(f.Get(v + ":")))
		}
		if val(e) != p.e[v] || val(call) != p.c[v] || slotOf(fm) != p.f[v] || slotOf(home) != p.h[v] {
			c.Fail("left:"+c.desc, "afterwards %s is %d in the environment of the definition, %d in that of the call, %d and %d in the frames; want %d, %d, %d, %d", v, val(e), val(call), slotOf(fm), slotOf(home), p.e[v], p.c[v], p.f[v], p.h[v])
			return
		}
	}
	c.Count("way_"+way, 1)
	c.Distinct(c.desc)
}
