package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/steelseries/golisp"
)

// ---- running several evaluations at once ---------------------------------------

var clock int64

func tickClock() int64 { return atomic.AddInt64(&clock, 1) }

var runMu sync.Mutex
var runBodies = map[int64]func(env *golisp.SymbolTableFrame){}
var runSeq int64

var concOnce sync.Once

const concShards = 3

func setupConc() {
	runtime.GOMAXPROCS(4) // a few shards of a few threads each
	setupPrims()
	concOnce.Do(func() {
		// (vh-run n) runs a piece of the harness in whatever process evaluates it
		golisp.MakePrimitiveFunction("vh-run", "1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			n := golisp.IntegerValue(golisp.Car(args))
			runMu.Lock()
			f := runBodies[n]
			delete(runBodies, n)
			runMu.Unlock()
			if f == nil {
				return nil, fmt.Errorf("vh-run %d ran twice", n)
			}
			f(env)
			return golisp.IntegerWithValue(n), nil
		})
	})
}

func registerBody(f func(env *golisp.SymbolTableFrame)) int64 {
	n := atomic.AddInt64(&runSeq, 1)
	runMu.Lock()
	runBodies[n] = f
	runMu.Unlock()
	return n
}

// par runs n bodies at once and waits for all of them: as goroutines of the
// host (mode 0) or as forked processes of the interpreter (mode 1).
func par(c *Case, n, mode int, env *golisp.SymbolTableFrame, body func(i int, env *golisp.SymbolTableFrame)) {
	var ready int32
	start := func() {
		atomic.AddInt32(&ready, 1)
		for k := 0; atomic.LoadInt32(&ready) < int32(n); k++ {
			if k%5 == 4 {
				runtime.Gosched()
			}
		}
	}
	var panics []string
	var pmu sync.Mutex
	guard := func(i int, env *golisp.SymbolTableFrame) {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				pmu.Lock()
				panics = append(panics, fmt.Sprintf("%v\n%s", e, buf))
				pmu.Unlock()
			}
		}()
		start()
		body(i, env)
	}
	if mode == 0 {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				guard(i, freshEnvBelow(env))
			}(i)
		}
		wg.Wait()
	} else {
		procs := make([]*golisp.Data, n)
		for i := 0; i < n; i++ {
			i := i
			id := registerBody(func(env *golisp.SymbolTableFrame) { guard(i, env) })
			p, err := evalText(fmt.Sprintf("(fork (lambda (p) (vh-run %d)))", id), env)
			if err != nil {
				panic(fmt.Sprintf("fork failed: %v", err))
			}
			procs[i] = p
		}
		for i, p := range procs {
			_, err := golisp.Eval(golisp.InternalMakeList(golisp.Intern("join"), golisp.InternalMakeList(golisp.Intern("quote"), p)), env)
			if err != nil {
				c.Fail("join:"+fmt.Sprint(i), "join of a process failed: %v", err)
			}
		}
	}
	if len(panics) > 0 {
		c.Fail("panic:"+panicSite(panics[0]), "panic in a concurrent evaluation: %s", panics[0])
	}
}

func freshEnvBelow(p *golisp.SymbolTableFrame) *golisp.SymbolTableFrame {
	return golisp.NewSymbolTableFrameBelow(p, "vh-sub")
}

func mustParse(src string) *golisp.Data {
	d, err := golisp.Parse(src)
	if err != nil {
		panic(fmt.Sprintf("harness: %s: %v", src, err))
	}
	return d
}

// pause perturbs the schedule.
func pause(r *rand.Rand) {
	switch r.Intn(12) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.Intn(2000); i > 0; i-- {
			atomic.AddInt32(&pauseSink, 1)
		}
	case 2:
		if r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		}
	}
}

var pauseSink int32

type hev struct {
	client, op int
	call, ret  int64
}

// interleaving renders the order in which the calls and returns happened.
func interleaving(evs []hev) string {
	type pt struct {
		t int64
		s string
	}
	var ps []pt
	for _, e := range evs {
		ps = append(ps, pt{e.call, fmt.Sprintf("c%d.%d", e.client, e.op)}, pt{e.ret, fmt.Sprintf("r%d.%d", e.client, e.op)})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].t < ps[j].t })
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.s)
		b.WriteByte(' ')
	}
	return b.String()
}

func overlaps(evs []hev) int {
	n := 0
	for i := range evs {
		for j := range evs {
			if evs[i].client < evs[j].client && evs[i].call < evs[j].ret && evs[j].call < evs[i].ret {
				n++
			}
		}
	}
	return n
}

// ---- C26: atomics ----------------------------------------------------------------

type aIn struct {
	cell int
	op   string
	x, y int64
}
type aOut struct {
	n   int64
	b   bool
	err string
	nil bool
}

func atomicStep(st int64, in aIn) (int64, aOut) {
	switch in.op {
	case "load":
		return st, aOut{n: st}
	case "store":
		return in.x, aOut{nil: true}
	case "add":
		return st + in.x, aOut{n: st + in.x}
	case "swap":
		return in.x, aOut{n: st}
	case "cas":
		if st == in.x {
			return in.y, aOut{b: true}
		}
		return st, aOut{b: false}
	}
	panic(in.op)
}

var atomicModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(aIn).cell
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Init: func() interface{} { return int64(0) },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		st, out := atomicStep(state.(int64), input.(aIn))
		o := output.(aOut)
		if input.(aIn).op == "store" {
			// what a store returns is not specified
			out.nil, o.nil, o.n, o.b = false, false, 0, false
		}
		return out == o, st
	},
	DescribeOperation: func(in, out interface{}) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func (in aIn) text(r *rand.Rand) string {
	cell := fmt.Sprintf("a%d", in.cell)
	num := func(n int64) string { return golisp.String(golisp.IntegerWithValue(n)) }
	var name string
	var args []string
	switch in.op {
	case "load":
		name = "atomic-load"
	case "store":
		name, args = "atomic-store!", []string{num(in.x)}
	case "add":
		name, args = "atomic-add!", []string{num(in.x)}
	case "swap":
		name, args = "atomic-swap!", []string{num(in.x)}
	case "cas":
		name, args = "atomic-compare-and-swap!", []string{num(in.x), num(in.y)}
	}
	a := strings.Join(append([]string{cell}, args...), " ")
	switch r.Intn(7) {
	case 0:
		return fmt.Sprintf("(apply %s (list %s))", name, a)
	case 1:
		return fmt.Sprintf("((lambda (cell) (%s)) %s)", strings.TrimSpace(name+" cell "+strings.Join(args, " ")), cell)
	case 2:
		return fmt.Sprintf("(car (map (lambda (cell) (%s)) (list %s)))", strings.TrimSpace(name+" cell "+strings.Join(args, " ")), cell)
	case 3:
		return fmt.Sprintf("(let ((f %s) (cell %s)) (%s))", name, cell, strings.TrimSpace("f cell "+strings.Join(args, " ")))
	}
	return fmt.Sprintf("(%s %s)", name, a)
}

func atomicOut(in aIn, d *golisp.Data, err error) aOut {
	switch {
	case err != nil:
		return aOut{err: err.Error()}
	case in.op == "store":
		return aOut{nil: true}
	case in.op == "cas":
		if !golisp.BooleanP(d) {
			return aOut{err: "not a boolean: " + canonD(d)}
		}
		return aOut{b: golisp.BooleanValue(d)}
	}
	if !golisp.IntegerP(d) {
		return aOut{err: "not an integer: " + canonD(d)}
	}
	return aOut{n: golisp.IntegerValue(d)}
}

func atomicVal(r *rand.Rand, pool []int64) int64 {
	switch r.Intn(8) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 32, 1<<53 + 1}[r.Intn(9)]
	case 1:
		return int64(r.Uint64())
	}
	return pool[r.Intn(len(pool))]
}

func atomicGenOp(r *rand.Rand, cells int, pool []int64) aIn {
	in := aIn{cell: r.Intn(cells), op: []string{"load", "store", "add", "swap", "cas", "cas", "add"}[r.Intn(7)]}
	in.x = atomicVal(r, pool)
	in.y = atomicVal(r, pool)
	return in
}

func atomicEnv(c *Case, n int, init []int64) *golisp.SymbolTableFrame {
	env := freshEnv()
	for i := 0; i < n; i++ {
		src := fmt.Sprintf("(define a%d (atomic %s))", i, golisp.String(golisp.IntegerWithValue(init[i])))
		if init[i] == 0 && c.R.Intn(2) == 0 {
			src = fmt.Sprintf("(define a%d (atomic))", i)
		}
		if _, err := evalText(src, env); err != nil {
			c.Fail("make", "%s failed: %v", src, err)
		}
	}
	return env
}

func atomicHistory(c *Case) {
	r := c.R
	cells := 1 + r.Intn(2)
	clients := 2 + r.Intn(5)
	ops := 2 + r.Intn(9)
	pool := make([]int64, 1+r.Intn(4))
	for i := range pool {
		pool[i] = int64(r.Intn(7) - 2)
	}
	env := atomicEnv(c, cells, make([]int64, cells))
	ins := make([][]aIn, clients)
	forms := make([][]*golisp.Data, clients)
	var desc strings.Builder
	for i := range ins {
		fmt.Fprintf(&desc, "client %d:", i)
		for k := 0; k < ops; k++ {
			in := atomicGenOp(r, cells, pool)
			src := in.text(r)
			fmt.Fprintf(&desc, " %s", src)
			ins[i] = append(ins[i], in)
			forms[i] = append(forms[i], mustParse(src))
		}
		desc.WriteByte('\n')
	}
	mode := r.Intn(2)
	perturb := r.Intn(2) == 0
	seed := r.Int63()
	c.Desc("atomics mode %d\n%s", mode, desc.String())
	hist := make([][]porcupine.Operation, clients)
	par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		rr := rand.New(rand.NewSource(seed + int64(i)))
		for k, in := range ins[i] {
			if perturb {
				pause(rr)
			}
			t0 := tickClock()
			d, err := golisp.Eval(forms[i][k], env)
			t1 := tickClock()
			hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: in, Call: t0, Output: atomicOut(in, d, err), Return: t1})
		}
	})
	var all []porcupine.Operation
	var evs []hev
	for i, h := range hist {
		all = append(all, h...)
		for k, o := range h {
			evs = append(evs, hev{i, k, o.Call, o.Return})
		}
	}
	// the value each cell is left with
	for k := 0; k < cells; k++ {
		in := aIn{cell: k, op: "load"}
		d, err := golisp.Eval(mustParse(fmt.Sprintf("(atomic-load a%d)", k)), env)
		t := tickClock()
		all = append(all, porcupine.Operation{ClientId: clients, Input: in, Call: t, Output: atomicOut(in, d, err), Return: tickClock()})
	}
	c.Count("operations", len(all))
	c.Count("overlapping_pairs", overlaps(evs))
	if overlaps(evs) > 0 {
		c.Count("concurrent_histories", 1)
		c.Distinct(desc.String() + interleaving(evs))
	}
	c.Sample(interleaving(evs))
	switch porcupine.CheckOperationsTimeout(atomicModel, all, 20*time.Second) {
	case porcupine.Illegal:
		c.Fail("history:"+desc.String(), "the history of operations on the atomics is not linearizable:\n%s", describeHistory(atomicModel, all))
	case porcupine.Unknown:
		c.Inconclusive("linearizability of the history was not decided in time")
	}
}

func describeHistory(m porcupine.Model, ops []porcupine.Operation) string {
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	base := ops[0].Call
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "  [%d,%d] client %d: %s\n", o.Call-base, o.Return-base, o.ClientId, m.DescribeOperation(o.Input, o.Output))
	}
	return b.String()
}

// atomicSeq: one process, any values, checked operation by operation.
func atomicSeq(c *Case) {
	r := c.R
	cells := 1 + r.Intn(4)
	st := make([]int64, cells)
	for i := range st {
		st[i] = atomicVal(r, []int64{0, 0, 7})
	}
	env := atomicEnv(c, cells, st)
	// aliases of the same cell, through any data structure, are the same cell
	var log []string
	for k := 0; k < 3+r.Intn(25); k++ {
		pool := append([]int64{3}, st...)
		in := atomicGenOp(r, cells, pool)
		src := in.text(r)
		log = append(log, src)
		c.Desc("%s", strings.Join(log, " "))
		d, err := evalText(src, env)
		var want aOut
		st[in.cell], want = atomicStep(st[in.cell], in)
		got := atomicOut(in, d, err)
		c.Count("sequential_"+in.op, 1)
		if want != got {
			c.Fail("seq:"+in.op+":"+src, "%s gave %+v, a 64-bit cell gives %+v", strings.Join(log, " "), got, want)
			return
		}
		for i := range st {
			d, err := evalText(fmt.Sprintf("(atomic-load a%d)", i), env)
			if err != nil || !golisp.IntegerP(d) || golisp.IntegerValue(d) != st[i] {
				c.Fail("state:"+in.op+":"+src, "after %s cell a%d holds %s, should hold %d", strings.Join(log, " "), i, showOutcome(d, err), st[i])
				return
			}
		}
	}
	c.Distinct(strings.Join(log, " "))
	// wrong arguments are errors and change nothing
	for _, bad := range []string{"(atomic-add! a0 1.5)", "(atomic-store! a0 \"1\")", "(atomic-swap! a0 nil)", "(atomic-compare-and-swap! a0 1.0 2)", "(atomic-compare-and-swap! a0 " + golisp.String(golisp.IntegerWithValue(st[0])) + " 'x)", "(atomic-load 5)", "(atomic-add! '(1) 1)", "(atomic \"a\")"} {
		d, err := evalText(bad, env)
		if err == nil {
			c.Fail("bad:"+bad, "%s is not an error but gives %s", bad, canonD(d))
		}
	}
	d, err := evalText("(atomic-load a0)", env)
	if err != nil || golisp.IntegerValue(d) != st[0] {
		c.Fail("bad-effect", "a failing operation changed the cell to %s from %d", showOutcome(d, err), st[0])
	}
}

// atomicConserve: contention without any recording in between, so that the race
// detector sees the accesses themselves, and totals that must come out.
func atomicConserve(c *Case) {
	r := c.R
	clients := 2 + r.Intn(7)
	ops := 200 + r.Intn(1000)
	mode := r.Intn(2)
	kind := r.Intn(4)
	init := atomicVal(r, []int64{0, 100, -5})
	env := atomicEnv(c, 1, []int64{init})
	c.Desc("contention kind %d clients %d ops %d mode %d init %d", kind, clients, ops, mode, init)
	c.Distinct(c.desc)
	c.Count("contended_operations", clients*ops)
	final := func() int64 {
		d, err := evalText("(atomic-load a0)", env)
		if err != nil {
			c.Fail("load", "load failed: %v", err)
			return 0
		}
		return golisp.IntegerValue(d)
	}
	results := make([][]int64, clients)
	bad := make([]string, clients)
	ev := func(i int, f *golisp.Data, env *golisp.SymbolTableFrame) (int64, bool) {
		d, err := golisp.Eval(f, env)
		if err != nil {
			bad[i] = err.Error()
			return 0, false
		}
		if golisp.BooleanP(d) {
			if golisp.BooleanValue(d) {
				return 1, true
			}
			return 0, true
		}
		return golisp.IntegerValue(d), true
	}
	switch kind {
	case 0: // every addition counts, and each sees a sum of its own
		delta := []int64{1, -1, 3, 1 << 40}[r.Intn(4)]
		f := mustParse(fmt.Sprintf("(atomic-add! a0 %d)", delta))
		par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
			for k := 0; k < ops; k++ {
				if n, ok := ev(i, f, env); ok {
					results[i] = append(results[i], n)
				}
			}
		})
		seen := map[int64]bool{}
		for i, rs := range results {
			for k, n := range rs {
				q := n - init
				if seen[n] || (delta != 1<<40 && (q%delta != 0 || q/delta < 1 || q/delta > int64(clients*ops))) {
					c.Fail("add-result", "atomic-add! gave %d (twice, or not a sum that is ever reached) with initial value %d, delta %d", n, init, delta)
					return
				}
				seen[n] = true
				if k > 0 && delta != 1<<40 && (n-rs[k-1])/delta < 1 {
					c.Fail("add-order", "client %d: atomic-add! of %d gave %d after %d", i, delta, n, rs[k-1])
					return
				}
			}
		}
		if got := final(); got != init+delta*int64(clients*ops) {
			c.Fail("add-lost", "%d clients added %d %d times each to %d: %d, should be %d", clients, delta, ops, init, got, init+delta*int64(clients*ops))
		}
	case 1: // swaps hand every value on exactly once
		forms := make([][]*golisp.Data, clients)
		for i := range forms {
			for k := 0; k < ops; k++ {
				forms[i] = append(forms[i], mustParse(fmt.Sprintf("(atomic-swap! a0 %d)", 1000000+i*100000+k)))
			}
		}
		par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
			for k := 0; k < ops; k++ {
				if n, ok := ev(i, forms[i][k], env); ok {
					results[i] = append(results[i], n)
				}
			}
		})
		count := map[int64]int{}
		for _, rs := range results {
			for _, n := range rs {
				count[n]++
			}
		}
		count[final()]++
		want := map[int64]int{init: 1}
		for i := 0; i < clients; i++ {
			for k := 0; k < ops; k++ {
				want[int64(1000000+i*100000+k)]++
			}
		}
		for n, k := range want {
			if count[n] != k {
				c.Fail("swap-lost", "a value swapped in came out %d times, not %d", count[n], k)
				return
			}
		}
	case 2: // compare-and-swap loops
		load := mustParse("(atomic-load a0)")
		wins := make([]int64, clients)
		par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
			for k := 0; k < ops; k++ {
				cur, ok := ev(i, load, env)
				if !ok {
					return
				}
				f := golisp.InternalMakeList(golisp.Intern("atomic-compare-and-swap!"), golisp.Intern("a0"), golisp.IntegerWithValue(cur), golisp.IntegerWithValue(cur+1))
				if n, ok := ev(i, f, env); ok {
					wins[i] += n
				}
			}
		})
		total := int64(0)
		for _, w := range wins {
			total += w
		}
		c.Count("cas_won", int(total))
		c.Count("cas_lost", clients*ops-int(total))
		if got := final(); got != init+total {
			c.Fail("cas-lost", "%d compare-and-swaps by one succeeded, but the value went from %d to %d", total, init, got)
		}
	case 3: // additions while others load and compare-and-swap what is not there
		f := []*golisp.Data{mustParse("(atomic-add! a0 2)"), mustParse("(atomic-load a0)"), mustParse(fmt.Sprintf("(atomic-compare-and-swap! a0 %s 0)", golisp.String(golisp.IntegerWithValue(init+1)))), mustParse("(atomic-add! a0 0)")}
		adds := make([]int64, clients)
		par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
			rr := rand.New(rand.NewSource(int64(i) + 77))
			for k := 0; k < ops; k++ {
				j := rr.Intn(4)
				n, ok := ev(i, f[j], env)
				if !ok {
					return
				}
				if j == 2 && n != 0 {
					bad[i] = "a compare-and-swap from a value that is never there succeeded"
					return
				}
				if j == 0 {
					adds[i]++
				}
			}
		})
		total := int64(0)
		for _, a := range adds {
			total += a
		}
		if got := final(); got != init+2*total {
			c.Fail("mix-lost", "%d additions of 2 took %d to %d", total, init, got)
		}
	}
	for _, b := range bad {
		if b != "" {
			c.Fail("op", "an operation failed: %s", b)
		}
	}
}

// atomicDuel: rounds in which everybody tries the same compare-and-swap.
func atomicDuel(c *Case) {
	r := c.R
	clients := 2 + r.Intn(7)
	rounds := 60
	mode := r.Intn(2)
	env := atomicEnv(c, 1, []int64{0})
	c.Desc("competing compare-and-swaps: clients %d rounds %d mode %d", clients, rounds, mode)
	c.Distinct(c.desc)
	type res struct{ won bool }
	won := make([][]bool, rounds)
	for i := range won {
		won[i] = make([]bool, clients)
	}
	after := make([]int64, rounds)
	errs := make([]string, clients)
	var phase int64
	var arrived int64
	next := make([]int64, rounds+1)
	_ = next
	var cur int64
	load := mustParse("(atomic-load a0)")
	par(c, clients, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		for k := 0; k < rounds; k++ {
			v := atomic.LoadInt64(&cur)
			f := golisp.InternalMakeList(golisp.Intern("atomic-compare-and-swap!"), golisp.Intern("a0"), golisp.IntegerWithValue(v), golisp.IntegerWithValue(int64((k+1)*100+i)))
			if atomic.AddInt64(&arrived, 1) == int64(clients) {
				atomic.StoreInt64(&arrived, 0)
				atomic.AddInt64(&phase, 1)
			}
			for n := 0; atomic.LoadInt64(&phase) < int64(2*k+1); n++ {
				if n%5 == 4 {
					runtime.Gosched()
				}
			}
			d, err := golisp.Eval(f, env)
			if err != nil {
				errs[i] = err.Error()
			}
			won[k][i] = golisp.BooleanP(d) && golisp.BooleanValue(d)
			if atomic.AddInt64(&arrived, 1) == int64(clients) {
				d, err := golisp.Eval(load, env)
				if err != nil {
					errs[i] = err.Error()
				}
				after[k] = golisp.IntegerValue(d)
				atomic.StoreInt64(&cur, after[k])
				atomic.StoreInt64(&arrived, 0)
				atomic.AddInt64(&phase, 1)
			}
			for n := 0; atomic.LoadInt64(&phase) < int64(2*k+2); n++ {
				if n%5 == 4 {
					runtime.Gosched()
				}
			}
		}
	})
	for k := range won {
		n, who := 0, -1
		for i, w := range won[k] {
			if w {
				n++
				who = i
			}
		}
		c.Count("duels", 1)
		if n != 1 || after[k] != int64((k+1)*100+who) {
			c.Fail("duel", "%d of %d competing compare-and-swaps from the same value succeeded (round %d, winner %d, value %d)", n, clients, k, who, after[k])
			return
		}
	}
	for _, e := range errs {
		if e != "" {
			c.Fail("op", "an operation failed: %s", e)
		}
	}
}

func init() {
	register(&Check{
		ID:     "C26",
		Shards: concShards,
		Rule: "histories: 2-6 clients (host goroutines or forked processes) run generated operations on 1-2 cells with call and return recorded, judged by a linearizability checker; non-trivial when operations overlap, distinct by operations and interleaving. " +
			"contention: totals that must be conserved, under the race detector without recording in between",
		Assumptions: []string{"what atomic-store! returns is not specified"},
		Setup:       setupConc,
		Need:        []string{"concurrent_histories", "duels", "cas_lost", "contended_operations"},
		Phases: []Phase{
			{Name: "sequential", Quick: 800, Thorough: 10000, Run: atomicSeq},
			{Name: "histories", Quick: 3000, Thorough: 60000, Run: atomicHistory},
			{Name: "duels", Quick: 60, Thorough: 1500, Run: atomicDuel},
			{Name: "contention", Quick: 120, Thorough: 2500, Run: atomicConserve},
		},
	})
}
