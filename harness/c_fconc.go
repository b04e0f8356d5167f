package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/steelseries/golisp"
)

// ---- C29: frames shared between processes ------------------------------------------

type fIn struct {
	loc string // frame and slot
	op  string // set get has remove
	v   int64
}
type fOut struct {
	found bool
	v     int64
	bad   string
}

const absent = int64(-1)

var frameModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(fIn).loc
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Init: func() interface{} { return absent },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		st, in, o := state.(int64), input.(fIn), output.(fOut)
		if o.bad != "" {
			return false, st
		}
		switch in.op {
		case "set":
			return o.v == in.v, in.v
		case "get":
			if st == absent {
				return !o.found, st
			}
			return o.found && o.v == st, st
		case "has":
			return o.found == (st != absent), st
		case "remove":
			return o.found == (st != absent), absent
		}
		return false, st
	},
	DescribeOperation: func(in, out interface{}) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

// fop is one operation on a frame: a form, and the observations its result stands for.
type fop struct {
	src  string
	form *golisp.Data
	read func(d *golisp.Data, err error) []fObs
}
type fObs struct {
	in  fIn
	out fOut
}

var fSlots = []string{"a", "b", "c"}

func frameObs(frame string, d *golisp.Data) []fObs {
	var out []fObs
	if !golisp.FrameP(d) || golisp.FrameValue(d) == nil {
		return []fObs{{fIn{frame + ".a", "get", 0}, fOut{bad: "not a frame: " + canonD(d)}}}
	}
	fm := golisp.FrameValue(d)
	for _, s := range fSlots {
		v, ok := fm.Data[s+":"]
		o := fOut{found: ok}
		if ok {
			if !golisp.IntegerP(v) {
				o.bad = "a value that was never stored: " + canonD(v)
			} else {
				o.v = golisp.IntegerValue(v)
			}
		}
		out = append(out, fObs{fIn{frame + "." + s, "get", 0}, o})
	}
	return out
}

func genFrameOp(r *rand.Rand, frames int, val int64) fop {
	f := fmt.Sprintf("f%d", r.Intn(frames))
	s := fSlots[r.Intn(len(fSlots))]
	loc := f + "." + s
	via := f
	if r.Intn(3) == 0 {
		via = "g" + f[1:] // a frame whose only parent is f
	}
	intOut := func(d *golisp.Data, err error, missing func() bool) fOut {
		if missing() {
			return fOut{}
		}
		if err != nil {
			return fOut{bad: err.Error()}
		}
		if !golisp.IntegerP(d) {
			return fOut{bad: "a value that was never stored: " + canonD(d)}
		}
		return fOut{found: true, v: golisp.IntegerValue(d)}
	}
	boolOut := func(d *golisp.Data, err error) fOut {
		if err != nil {
			return fOut{bad: err.Error()}
		}
		if !golisp.BooleanP(d) {
			return fOut{bad: "not a boolean: " + canonD(d)}
		}
		return fOut{found: golisp.BooleanValue(d)}
	}
	one := func(src, op string, out func(d *golisp.Data, err error) fOut) fop {
		in := fIn{loc, op, val}
		return fop{src, mustParse(src), func(d *golisp.Data, err error) []fObs { return []fObs{{in, out(d, err)}} }}
	}
	switch k := r.Intn(20); {
	case k < 5:
		src := []string{"(set-slot! %s %s: %d)", "(%[2]s:! %[1]s %[3]d)", "(apply set-slot! (list %s %s: %d))", "((lambda (fr) (set-slot! fr %[2]s: %[3]d)) %[1]s)"}[r.Intn(4)]
		return one(fmt.Sprintf(src, f, s, val), "set", func(d *golisp.Data, err error) fOut {
			return intOut(d, err, func() bool { return false })
		})
	case k < 8:
		src := []string{"(get-slot %s %s:)", "(%[2]s: %[1]s)", "(apply get-slot (list %s %s:))"}[r.Intn(3)]
		return one(fmt.Sprintf(src, via, s), "get", func(d *golisp.Data, err error) fOut {
			return intOut(d, err, func() bool { return err != nil && strings.Contains(err.Error(), "existing slot") })
		})
	case k < 10:
		return one(fmt.Sprintf("(get-slot-or-nil %s %s:)", via, s), "get", func(d *golisp.Data, err error) fOut {
			return intOut(d, err, func() bool { return err == nil && golisp.NilP(d) })
		})
	case k < 12:
		src := []string{"(has-slot? %s %s:)", "(%[2]s:? %[1]s)"}[r.Intn(2)]
		return one(fmt.Sprintf(src, via, s), "has", boolOut)
	case k < 15:
		return one(fmt.Sprintf("(remove-slot! %s %s:)", f, s), "remove", boolOut)
	case k < 16:
		src := fmt.Sprintf("(frame-keys %s)", f)
		return fop{src, mustParse(src), func(d *golisp.Data, err error) []fObs {
			have := map[string]bool{}
			bad := ""
			if err != nil {
				bad = err.Error()
			}
			for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
				k := golisp.StringValue(golisp.Car(x))
				if have[k] {
					bad = "a key twice: " + canonD(d)
				}
				have[k] = true
			}
			var out []fObs
			for _, s := range fSlots {
				out = append(out, fObs{fIn{f + "." + s, "has", 0}, fOut{found: have[s+":"], bad: bad}})
				delete(have, s+":")
			}
			delete(have, "get:")
			delete(have, "set:")
			if len(have) > 0 {
				out[0].out.bad = "keys that never were: " + canonD(d)
			}
			return out
		}}
	case k < 17:
		src := fmt.Sprintf("(%s %s)", []string{"clone", "copy"}[r.Intn(2)], f)
		return fop{src, mustParse(src), func(d *golisp.Data, err error) []fObs {
			if err != nil {
				return []fObs{{fIn{f + ".a", "get", 0}, fOut{bad: err.Error()}}}
			}
			return frameObs(f, d)
		}}
	case k < 18:
		// the printed form, read back
		src := fmt.Sprintf("(lisp->json (let ((cl (clone %s))) (remove-slot! cl get:) (remove-slot! cl set:) cl))", f)
		back := mustParse
		return fop{src, back(src), func(d *golisp.Data, err error) []fObs {
			if err != nil {
				return []fObs{{fIn{f + ".a", "get", 0}, fOut{bad: err.Error()}}}
			}
			e := freshEnv()
			e.BindLocallyTo(golisp.Intern("js"), d)
			fr, err := evalText("(json->lisp js)", e)
			if err != nil {
				return []fObs{{fIn{f + ".a", "get", 0}, fOut{bad: err.Error()}}}
			}
			return frameObs(f, fr)
		}}
	default: // a method, which finds the slot of the frame it is sent to
		src := fmt.Sprintf("(send %s get: %s:)", f, s)
		if r.Intn(2) == 0 {
			src = fmt.Sprintf("(send %s set: %s: %d)", f, s, val)
			return one(src, "set", func(d *golisp.Data, err error) fOut { return intOut(d, err, func() bool { return false }) })
		}
		return one(src, "get", func(d *golisp.Data, err error) fOut {
			return intOut(d, err, func() bool { return err == nil && golisp.NilP(d) })
		})
	}
}

func frameHistory(c *Case) {
	r := c.R
	frames := 1 + r.Intn(2)
	clients := 2 + r.Intn(4)
	ops := 2 + r.Intn(8)
	env := freshEnv()
	var pre []porcupine.Operation
	for i := 0; i < frames; i++ {
		src := fmt.Sprintf("(define f%d {get: (lambda (s) (get-slot-or-nil self s)) set: (lambda (s v) (set-slot! self s v))", i)
		for _, s := range fSlots {
			if r.Intn(2) == 0 {
				v := int64(900 + r.Intn(90))
				src += fmt.Sprintf(" %s: %d", s, v)
				t := tickClock()
				pre = append(pre, porcupine.Operation{ClientId: 99, Input: fIn{fmt.Sprintf("f%d.%s", i, s), "set", v}, Output: fOut{found: true, v: v}, Call: t, Return: tickClock()})
			}
		}
		src += "})"
		if _, err := evalText(src, env); err != nil {
			c.Fail("make", "%s failed: %v", src, err)
			return
		}
		evalText(fmt.Sprintf("(define g%d {proto*: f%d})", i, i), env)
	}
	opsOf := make([][]fop, clients)
	var desc strings.Builder
	for i := range opsOf {
		fmt.Fprintf(&desc, "\nclient %d:", i)
		for k := 0; k < ops; k++ {
			o := genFrameOp(r, frames, int64(i*100+k))
			opsOf[i] = append(opsOf[i], o)
			desc.WriteString(" " + o.src)
		}
	}
	mode := r.Intn(2)
	perturb := r.Intn(2) == 0
	seed := r.Int63()
	c.Desc("frames mode %d:%s", mode, desc.String())
	hist := make([][]porcupine.Operation, clients)
	par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		rr := rand.New(rand.NewSource(seed + int64(i)))
		for _, o := range opsOf[i] {
			if perturb {
				pause(rr)
			}
			t0 := tickClock()
			d, err := golisp.Eval(o.form, env)
			t1 := tickClock()
			for _, ob := range o.read(d, err) {
				hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: ob.in, Output: ob.out, Call: t0, Return: t1})
			}
		}
	})
	all := pre
	var hv []hev
	for i, h := range hist {
		for k, o := range h {
			hv = append(hv, hev{i, k, o.Call, o.Return})
			c.Count("frame_"+o.Input.(fIn).op, 1)
		}
		all = append(all, h...)
	}
	for i := 0; i < frames; i++ {
		t0 := tickClock()
		d, err := evalText(fmt.Sprintf("(clone f%d)", i), env)
		if err != nil {
			c.Fail("clone", "clone failed: %v", err)
			return
		}
		for _, ob := range frameObs(fmt.Sprintf("f%d", i), d) {
			all = append(all, porcupine.Operation{ClientId: 98, Input: ob.in, Output: ob.out, Call: t0, Return: tickClock()})
		}
	}
	if overlaps(hv) > 0 {
		c.Count("concurrent_histories", 1)
		c.Distinct(desc.String() + interleaving(hv))
	}
	c.Sample(interleaving(hv))
	switch porcupine.CheckOperationsTimeout(frameModel, all, 20*time.Second) {
	case porcupine.Illegal:
		c.Fail("history:"+desc.String(), "slot by slot, the history is not one of operations one at a time:\n%s", describeHistory(frameModel, all))
	case porcupine.Unknown:
		c.Inconclusive("linearizability was not decided in time")
	}
}

// frameStress: everything at once on a graph of frames, without recording in
// between; invariants that hold whatever the order, and everything completes.
func frameStress(c *Case) {
	r := c.R
	n := 2 + r.Intn(2)
	clients := 3 + r.Intn(4)
	ops := 40 + r.Intn(120)
	env := freshEnv()
	var setup []string
	ev := func(src string) {
		setup = append(setup, src)
		if _, err := evalText(src, env); err != nil {
			c.Fail("setup:"+src, "%s failed: %v", src, err)
		}
	}
	for i := 0; i < n; i++ {
		src := fmt.Sprintf("(define f%d {name: %d k%d: %d m%d: (lambda (x) (+ x k%d)) up: (lambda () (send-super name-of:)) name-of: (lambda () name)", i, i, i, 1000+i, i, i)
		for j := 0; j < clients; j++ {
			src += fmt.Sprintf(" c%d: 0", j)
		}
		ev(src + "})")
	}
	// parents: possibly each other's; and frames that contain each other
	for i := 0; i < n; i++ {
		ev(fmt.Sprintf("(set-slot! f%d proto*: f%d)", i, (i+1)%n))
		if r.Intn(2) == 0 {
			ev(fmt.Sprintf("(set-slot! f%d inner: f%d)", i, r.Intn(n)))
		}
	}
	cyc := r.Intn(3) > 0
	if !cyc {
		ev(fmt.Sprintf("(remove-slot! f%d proto*:)", n-1))
	}
	ev("(define const {x: 1 y: \"two\" z: '(1 2 3)})")
	style := r.Intn(3)
	mode := r.Intn(2)
	c.Desc("frames stress style %d mode %d clients %d ops %d cyclic %v\n%s", style, mode, clients, ops, cyc, strings.Join(setup, "\n"))
	c.Distinct(c.desc)
	seed := r.Int63()
	var mu sync.Mutex
	var problems []string
	var stop int32
	problem := func(f string, a ...interface{}) {
		atomic.StoreInt32(&stop, 1)
		mu.Lock()
		problems = append(problems, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		rr := rand.New(rand.NewSource(seed + int64(i)))
		last := make([]int64, n)             // what this client last stored in its slot of each frame
		seen := make([][]int64, n)           // the greatest value seen in the others' slots
		extra := make([]map[string]int64, n) // this client's own temporary slots
		for f := range seen {
			seen[f] = make([]int64, clients)
			extra[f] = map[string]int64{}
		}
		run := func(src string) (*golisp.Data, error) {
			d, err := evalText(src, env)
			return d, err
		}
		for k := 0; k < ops; k++ {
			f := rr.Intn(n)
			g := rr.Intn(n)
			if atomic.LoadInt32(&stop) == 1 {
				return
			}
			w := rr.Intn(24)
			if style == 1 { // writers and whole-frame readers
				if i%2 == 0 {
					w = []int{0, 0, 0, 6, 7}[rr.Intn(5)]
				} else {
					w = []int{8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}[rr.Intn(11)]
				}
			}
			if style == 2 { // writers and lookups through parents
				if i%2 == 0 {
					w = []int{0, 0, 6, 7, 19}[rr.Intn(5)]
				} else {
					w = []int{3, 4, 5, 15, 16, 17}[rr.Intn(6)]
				}
			}
			switch w {
			case 0, 1, 2: // count up
				last[f]++
				src := fmt.Sprintf("(set-slot! f%d c%d: %d)", f, i, last[f])
				if d, err := run(src); err != nil || golisp.IntegerValue(d) != last[f] {
					problem("%s gave %s", src, showOutcome(d, err))
				}
			case 3: // read back, own or others'
				j := rr.Intn(clients)
				src := fmt.Sprintf("(get-slot f%d c%d:)", f, j)
				d, err := run(src)
				if err != nil || !golisp.IntegerP(d) {
					problem("%s gave %s, the slot is there throughout", src, showOutcome(d, err))
					return
				}
				v := golisp.IntegerValue(d)
				if j == i && v != last[f] {
					problem("%s gave %d to its only writer, who had stored %d", src, v, last[f])
				}
				if v < seen[f][j] {
					problem("%s gave %d after %d, the slot only ever grows", src, v, seen[f][j])
				}
				seen[f][j] = v
			case 4: // a constant, through parents when these are cyclic
				h := f
				if cyc {
					h = g
				}
				src := []string{"(get-slot f%d k%d:)", "(k%[2]d: f%[1]d)", "(get-slot-or-nil f%d k%d:)"}[rr.Intn(3)]
				src = fmt.Sprintf(src, h, f)
				if d, err := run(src); err != nil || !golisp.IntegerP(d) || golisp.IntegerValue(d) != int64(1000+f) {
					problem("%s gave %s, want %d", src, showOutcome(d, err), 1000+f)
				}
			case 5:
				src := fmt.Sprintf("(has-slot? f%d k%d:)", f, f)
				want := true
				if cyc && rr.Intn(2) == 0 {
					src = fmt.Sprintf("(has-slot? f%d missing:)", f)
					want = false
				}
				if d, err := run(src); err != nil || !golisp.BooleanP(d) || golisp.BooleanValue(d) != want {
					problem("%s gave %s, want %v", src, showOutcome(d, err), want)
				}
			case 6: // a slot of one's own comes
				s := fmt.Sprintf("t%d%c:", i, 'a'+rr.Intn(3))
				extra[f][s] = int64(k)
				run(fmt.Sprintf("(set-slot! f%d %s %d)", f, s, k))
			case 7: // and goes
				s := fmt.Sprintf("t%d%c:", i, 'a'+rr.Intn(3))
				_, had := extra[f][s]
				src := fmt.Sprintf("(remove-slot! f%d %s)", f, s)
				d, err := run(src)
				if err != nil || !golisp.BooleanP(d) || golisp.BooleanValue(d) != had {
					problem("%s gave %s to the only one who sets it, want %v", src, showOutcome(d, err), had)
				}
				delete(extra[f], s)
			case 8, 9: // whole copies
				src := fmt.Sprintf("(%s f%d)", []string{"clone", "copy"}[w-8], f)
				d, err := run(src)
				if err != nil || !golisp.FrameP(d) {
					problem("%s gave %s", src, showOutcome(d, err))
					return
				}
				fm := golisp.FrameValue(d)
				for j := 0; j < clients; j++ {
					v, ok := fm.Data[fmt.Sprintf("c%d:", j)]
					if !ok || !golisp.IntegerP(v) || j == i && golisp.IntegerValue(v) != last[f] || golisp.IntegerValue(v) < seen[f][j] {
						problem("%s: slot c%d: is %s (own %d, seen %d)", src, j, canonD(v), last[f], seen[f][j])
						return
					}
					seen[f][j] = golisp.IntegerValue(v)
				}
				for s, x := range extra[f] {
					if v, ok := fm.Data[s]; !ok || golisp.IntegerValue(v) != x {
						problem("%s: slot %s is %s, want %d", src, s, canonD(v), x)
					}
				}
			case 10:
				src := fmt.Sprintf("(frame-keys f%d)", f)
				d, err := run(src)
				have := map[string]bool{}
				for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
					have[golisp.StringValue(golisp.Car(x))] = true
				}
				for j := 0; j < clients; j++ {
					if err != nil || !have[fmt.Sprintf("c%d:", j)] {
						problem("%s gave %s without c%d:, which is there throughout", src, showOutcome(d, err), j)
						return
					}
				}
				for _, t := range []string{"a", "b", "c"} {
					s := fmt.Sprintf("t%d%s:", i, t)
					if _, want := extra[f][s]; want != have[s] {
						problem("%s: has %s %v, want %v", src, s, have[s], want)
					}
				}
			case 11:
				src := fmt.Sprintf("(length (frame-values f%d))", f)
				if d, err := run(src); err != nil || golisp.IntegerValue(d) < int64(clients+5) {
					problem("%s gave %s, there are at least %d slots", src, showOutcome(d, err), clients+5)
				}
			case 12, 13: // equality, of frames under modification
				src := []string{"(equal? f%d f%d)", "(eq? f%d f%d)", "(eqv? f%d f%d)", "(not (equal? f%d (list f%d)))"}[rr.Intn(4)]
				src = fmt.Sprintf(src, f, g)
				d, err := run(src)
				if err != nil || !golisp.BooleanP(d) {
					problem("%s gave %s", src, showOutcome(d, err))
				} else if f != g && strings.HasPrefix(src, "(equal?") && golisp.BooleanValue(d) {
					problem("%s: the frames have different slots throughout, but are equal", src)
				}
			case 14: // printing
				src := fmt.Sprintf("(str f%d)", f)
				d, err := run(src)
				if err != nil || !golisp.StringP(d) {
					problem("%s gave %s", src, showOutcome(d, err))
					return
				}
				if s := golisp.StringValue(d); !strings.Contains(s, fmt.Sprintf("k%d: %d", f, 1000+f)) {
					problem("%s gave %s without slot k%d:", src, s, f)
				}
			case 15:
				src := fmt.Sprintf("(send f%d m%d: %d)", f, f, k)
				if d, err := run(src); err != nil || golisp.IntegerValue(d) != int64(1000+f+k) {
					problem("%s gave %s, want %d", src, showOutcome(d, err), 1000+f+k)
				}
			case 16:
				src := fmt.Sprintf("(m%d:> f%d %d)", f, f, k)
				if d, err := run(src); err != nil || golisp.IntegerValue(d) != int64(1000+f+k) {
					problem("%s gave %s, want %d", src, showOutcome(d, err), 1000+f+k)
				}
			case 17:
				src := fmt.Sprintf("(send f%d up:)", f)
				d, err := run(src)
				if cyc && (err != nil || golisp.IntegerValue(d) != int64(f)) {
					problem("%s gave %s, want %d", src, showOutcome(d, err), f)
				}
			case 18:
				if !cyc {
					run(fmt.Sprintf("(lisp->json f%d)", f))
				} else {
					run("(lisp->json const)")
				}
			case 19: // an additional parent comes and goes
				if rr.Intn(2) == 0 {
					run(fmt.Sprintf("(set-slot! f%d extra%d*: f%d)", f, i, g))
				} else {
					run(fmt.Sprintf("(remove-slot! f%d extra%d*:)", f, i))
				}
			case 20:
				src := fmt.Sprintf("(apply-slot f%d m%d: (list %d))", f, f, k)
				if d, err := run(src); err != nil || golisp.IntegerValue(d) != int64(1000+f+k) {
					problem("%s gave %s, want %d", src, showOutcome(d, err), 1000+f+k)
				}
			case 21: // found where it is shared
				src := fmt.Sprintf("(memq 5 (list f%d f%d 5))", f, g)
				if d, err := run(src); err != nil || golisp.NilP(d) {
					problem("%s gave %s", src, showOutcome(d, err))
				}
			case 22:
				src := fmt.Sprintf("(equal? (clone f%d) f%d)", f, g)
				if d, err := run(src); err != nil || !golisp.BooleanP(d) {
					problem("%s gave %s", src, showOutcome(d, err))
				}
			case 23:
				src := fmt.Sprintf("(begin (set-slot! f%d box%d: (list f%d)) (length (get-slot f%d box%d:)))", f, i, g, f, i)
				if style == 0 && k%8 == 0 {
					if d, err := run(src); err != nil || golisp.IntegerValue(d) != 1 {
						problem("%s gave %s", src, showOutcome(d, err))
					}
				}
			}
		}
		for f := 0; f < n; f++ {
			for s, x := range extra[f] {
				src := fmt.Sprintf("(get-slot f%d %s)", f, s)
				if d, err := run(src); err != nil || !golisp.IntegerP(d) || golisp.IntegerValue(d) != x {
					problem("at the end %s gave %s, want %d", src, showOutcome(d, err), x)
				}
			}
		}
	})
	c.Count("stress_operations", clients*ops)
	if len(problems) > 0 {
		sort.Strings(problems)
		c.Fail("stress:"+c.desc, "%s", strings.Join(problems, "\n"))
	}
}

// frameClaims: exactly one of several removals of a slot finds it, and everybody's
// new slots are all there in the end.
func frameClaims(c *Case) {
	r := c.R
	clients := 2 + r.Intn(6)
	rounds := 20 + r.Intn(30)
	env := freshEnv()
	mode := r.Intn(2)
	c.Desc("claims: clients %d rounds %d mode %d", clients, rounds, mode)
	c.Distinct(fmt.Sprint(c.desc, c.Idx))
	src := "(define f {"
	for k := 0; k < rounds; k++ {
		src += fmt.Sprintf("s%d: %d ", k, k)
	}
	if _, err := evalText(src+"})", env); err != nil {
		c.Fail("make", "%v", err)
		return
	}
	won := make([][]bool, clients)
	par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		won[i] = make([]bool, rounds)
		for k := 0; k < rounds; k++ {
			d, err := evalText(fmt.Sprintf("(remove-slot! f s%d:)", k), env)
			won[i][k] = err == nil && golisp.BooleanP(d) && golisp.BooleanValue(d)
			evalText(fmt.Sprintf("(set-slot! f n%dx%d: %d)", i, k, i*1000+k), env)
		}
	})
	for k := 0; k < rounds; k++ {
		n := 0
		for i := range won {
			if won[i][k] {
				n++
			}
		}
		if n != 1 {
			c.Fail("claims", "%d of %d processes that removed one slot were told that it was there", n, clients)
			return
		}
	}
	d, _ := evalText("f", env)
	fm := golisp.FrameValue(d)
	if len(fm.Data) != clients*rounds {
		c.Fail("slots", "the frame has %d slots, %d were stored and kept", len(fm.Data), clients*rounds)
		return
	}
	for i := 0; i < clients; i++ {
		for k := 0; k < rounds; k++ {
			v, ok := fm.Data[fmt.Sprintf("n%dx%d:", i, k)]
			if !ok || golisp.IntegerValue(v) != int64(i*1000+k) {
				c.Fail("slot", "a slot that was stored holds %s", canonD(v))
				return
			}
		}
	}
	c.Count("claims", rounds)
}

func init() {
	register(&Check{
		ID:     "C29",
		Shards: concShards,
		Rule: "histories: 2-5 clients (host goroutines or forked processes) run generated slot operations, copies, key lists and methods on shared frames and their children with call and return recorded, judged slot by slot by a linearizability checker; non-trivial when operations overlap, distinct by operations and interleaving. " +
			"stress: all frame operations at once on frames that are each other's parents and contain each other, under the race detector, with invariants and progress judged",
		Assumptions: []string{"a process group in which nothing runs any more and everything waits counts as blocked forever"},
		Setup:       setupConc,
		Need:        []string{"concurrent_histories", "stress_operations", "claims"},
		Phases: []Phase{
			{Name: "histories", Quick: 3000, Thorough: 60000, Run: frameHistory},
			{Name: "stress", Quick: 400, Thorough: 8000, Run: frameStress},
			{Name: "claims", Quick: 60, Thorough: 1200, Run: frameClaims},
		},
	})
}
