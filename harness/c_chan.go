package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/steelseries/golisp"
)

// ---- C27: channels ----------------------------------------------------------------

type chIn struct {
	op  string // write read trywrite tryread close
	v   int
	cap int
}

// chOut: ok = the operation took effect; v = value read; closed = the read saw a
// closed channel; err = an error was raised
type chOut struct {
	ok, closed, err bool
	v               int
	bad             string
}

type chState struct {
	q      string
	closed bool
}

var chanModel = porcupine.Model{
	Init: func() interface{} { return chState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		st, in, o := state.(chState), input.(chIn), output.(chOut)
		if o.bad != "" {
			return false, st
		}
		q := []rune(st.q)
		switch in.op {
		case "write":
			if st.closed {
				return o.err, st
			}
			if o.err || len(q) >= in.cap {
				return false, st
			}
			return true, chState{st.q + string(rune(in.v+1)), false}
		case "trywrite":
			if st.closed {
				return o.err, st
			}
			if o.err || o.ok != (len(q) < in.cap) {
				return false, st
			}
			if o.ok {
				return true, chState{st.q + string(rune(in.v+1)), false}
			}
			return true, st
		case "read", "tryread":
			if len(q) > 0 {
				if !o.ok || o.closed || o.err || o.v != int(q[0])-1 {
					return false, st
				}
				return true, chState{string(q[1:]), st.closed}
			}
			if st.closed {
				return o.ok && o.closed && !o.err, st
			}
			return in.op == "tryread" && !o.ok && !o.closed && !o.err, st
		case "close":
			if st.closed {
				return o.err, st
			}
			return !o.err, chState{st.q, true}
		}
		return false, st
	},
	DescribeOperation: func(in, out interface{}) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func chText(r *rand.Rand, op string, val string) string {
	switch op {
	case "write":
		return []string{"(channel-write ch %s)", "(ch<- %s)", "(apply channel-write (list ch %s))", "(let ((c2 ch)) (c2<- %s))", "((lambda (x) (channel-write ch x)) %s)"}[r.Intn(5)]
	case "trywrite":
		return []string{"(channel-try-write ch %s)", "(apply channel-try-write (list ch %s))", "((lambda (x) (channel-try-write ch x)) %s)"}[r.Intn(3)]
	case "read":
		return []string{"(channel-read ch)", "(<-ch)", "(apply channel-read (list ch))", "(let ((c2 ch)) (<-c2))"}[r.Intn(4)]
	case "tryread":
		return []string{"(channel-try-read ch)", "(apply channel-try-read (list ch))"}[r.Intn(2)]
	}
	return []string{"(close-channel ch)", "(apply close-channel (list ch))"}[r.Intn(2)]
}

// chResult reads the outcome of an operation; valOf turns a delivered value into its number.
func chResult(op string, d *golisp.Data, err error, valOf func(*golisp.Data) (int, bool)) (o chOut) {
	if err != nil {
		o.err = true
		return
	}
	var l []*golisp.Data
	if op == "read" || op == "tryread" {
		for x := d; golisp.NotNilP(x) && golisp.PairP(x); x = golisp.Cdr(x) {
			l = append(l, golisp.Car(x))
		}
	}
	boolAt := func(i int) bool {
		if i >= len(l) || !golisp.BooleanP(l[i]) {
			o.bad = "no boolean where one belongs: " + canonD(d)
			return false
		}
		return golisp.BooleanValue(l[i])
	}
	val := func(x *golisp.Data) {
		n, ok := valOf(x)
		if !ok {
			o.bad = "a value that was never written: " + canonD(x)
		}
		o.v = n
	}
	switch op {
	case "write", "close":
		o.ok = true
	case "trywrite":
		if !golisp.BooleanP(d) {
			o.bad = "not a boolean: " + canonD(d)
			return
		}
		o.ok = golisp.BooleanValue(d)
	case "read":
		if len(l) != 2 {
			o.bad = "not a list of two: " + canonD(d)
			return
		}
		o.ok = true
		if boolAt(1) {
			val(l[0])
		} else {
			o.closed = true
			if golisp.NotNilP(l[0]) {
				o.bad = "closed, but with a value: " + canonD(d)
			}
		}
	case "tryread":
		if len(l) != 3 {
			o.bad = "not a list of three: " + canonD(d)
			return
		}
		o.ok = boolAt(0)
		more := boolAt(2)
		switch {
		case o.ok && more:
			val(l[1])
		case o.ok:
			o.closed = true
			if golisp.NotNilP(l[1]) {
				o.bad = "closed, but with a value: " + canonD(d)
			}
		case !more:
			o.bad = "nothing read, yet closed: " + canonD(d)
		default:
			if golisp.NotNilP(l[1]) {
				o.bad = "nothing read, but a value: " + canonD(d)
			}
		}
	}
	return
}

func intVal(d *golisp.Data) (int, bool) {
	if !golisp.IntegerP(d) {
		return 0, false
	}
	return int(golisp.IntegerValue(d)), true
}

func chanEnv(c *Case, capacity int) *golisp.SymbolTableFrame {
	env := freshEnv()
	src := fmt.Sprintf("(define ch (make-channel %d))", capacity)
	if capacity == 0 && c.R.Intn(2) == 0 {
		src = "(define ch (make-channel))"
	}
	if _, err := evalText(src, env); err != nil {
		c.Fail("make", "%s failed: %v", src, err)
	}
	return env
}

// chanSeq: one process; blocking operations only where they cannot block; any
// kind of value, delivered unchanged.
func chanSeq(c *Case) {
	r := c.R
	capacity := []int{0, 1, 1, 2, 3, 5, 17, 9 + r.Intn(60)}[r.Intn(8)]
	env := chanEnv(c, capacity)
	burst, left := "", 0 // runs of writing only or reading only, which fill and empty the channel
	type item struct {
		d     *golisp.Data
		canon string
	}
	var vals []item
	var q []int
	closed := false
	log := []string{fmt.Sprintf("(make-channel %d)", capacity)}
	valOf := func(d *golisp.Data) (int, bool) {
		// the value at the head of the model's queue, compared whole
		if len(q) == 0 {
			return -1, false
		}
		it := vals[q[0]]
		if canonD(d) != it.canon {
			return -1, false
		}
		if it.d != nil && d != it.d && (golisp.PairP(it.d) || golisp.FrameP(it.d) || golisp.ObjectP(it.d)) {
			return -1, false // a copy, not the value itself
		}
		return q[0], true
	}
	steps := 4 + r.Intn(30)
	if capacity > 8 {
		steps += r.Intn(4 * capacity)
	}
	for k := 0; k < steps; k++ {
		op := []string{"write", "write", "read", "read", "trywrite", "tryread", "trywrite", "tryread", "close"}[r.Intn(9)]
		if left == 0 && capacity > 4 && r.Intn(8) == 0 {
			burst, left = []string{"write", "read"}[r.Intn(2)], 1+r.Intn(capacity+3)
			if r.Intn(3) == 0 {
				burst, left = "write", capacity-len(q)+2
			}
		}
		if left > 0 {
			left--
			op = []string{burst, "try" + burst}[r.Intn(2)]
		}
		if op == "close" && r.Intn(4) != 0 {
			op = "tryread"
		}
		if op == "write" && !closed && len(q) >= capacity || op == "read" && !closed && len(q) == 0 {
			continue
		}
		src := chText(r, op, "")
		n := len(vals)
		if op == "write" || op == "trywrite" {
			var v *golisp.Data
			switch r.Intn(10) {
			case 0:
				v = nil
			case 1:
				v, _ = evalText("ch", env) // the channel itself
			case 2:
				v, _ = evalText("(lambda (x) x)", env)
			case 3:
				v, _ = evalText("car", env)
			case 4:
				v = golisp.LispFalse
			default:
				v = toData(genVal(r, 2, valOpts{bytes: true, frames: true, dotted: true, quoted: true, floats: true, syms: true}))
			}
			name := fmt.Sprintf("v%d", n)
			env.BindLocallyTo(golisp.Intern(name), v)
			vals = append(vals, item{v, canonD(v)})
			src = fmt.Sprintf(src, name)
			log = append(log, fmt.Sprintf("(define %s %s)", name, canonD(v)))
		}
		log = append(log, src)
		c.Desc("%s", strings.Join(log, " "))
		d, err := evalText(src, env)
		o := chResult(op, d, err, valOf)
		bad := func(want string) {
			c.Fail("seq:"+op+":"+strings.Join(log, " "), "%s\ngave %s, want %s %s", strings.Join(log, " "), showOutcome(d, err), want, o.bad)
		}
		c.Count("sequential_"+op, 1)
		if o.bad != "" {
			bad("something else:")
			return
		}
		switch op {
		case "write", "trywrite":
			switch {
			case closed:
				if !o.err {
					bad("an error, the channel is closed")
					return
				}
				c.Count("writes_to_closed", 1)
			case o.err:
				bad("no error")
				return
			case o.ok != (len(q) < capacity):
				bad(fmt.Sprintf("success %v", len(q) < capacity))
				return
			case o.ok:
				q = append(q, n)
				if len(q) == capacity && capacity > 8 {
					c.Count("large_channels_filled", 1)
				}
			}
		case "read", "tryread":
			switch {
			case len(q) > 0:
				if o.err || !o.ok || o.closed {
					bad("the value written first")
					return
				}
				q = q[1:]
				if closed {
					c.Count("reads_after_close", 1)
				}
			case closed:
				if o.err || !o.ok || !o.closed {
					bad("closed")
					return
				}
			default:
				if o.err || o.ok {
					bad("nothing to read")
					return
				}
			}
		case "close":
			if o.err != closed {
				bad(fmt.Sprintf("an error: %v", closed))
				return
			}
			closed = true
		}
	}
	c.Distinct(strings.Join(log, " "))
}

type chEv struct {
	client, k int
	in        chIn
	out       chOut
	call, ret int64
}

// runChan runs the given operations concurrently. The last client closes the
// channel at some moment, after which nothing blocks any more.
func runChan(c *Case, env *golisp.SymbolTableFrame, mode int, perturb bool, seed int64, ins [][]chIn, forms [][]*golisp.Data, stamped bool) []chEv {
	evs := make([][]chEv, len(ins))
	par(c, len(ins), mode, env, func(i int, env *golisp.SymbolTableFrame) {
		rr := rand.New(rand.NewSource(seed + int64(i)))
		for k, in := range ins[i] {
			if in.op == "close" {
				for n := rr.Intn(60); n > 0; n-- {
					pause(rr)
				}
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
			} else if perturb {
				pause(rr)
			}
			var t0, t1 int64
			if stamped {
				t0 = tickClock()
			}
			d, err := golisp.Eval(forms[i][k], env)
			if stamped {
				t1 = tickClock()
			}
			evs[i] = append(evs[i], chEv{i, k, in, chResult(in.op, d, err, intVal), t0, t1})
		}
	})
	var all []chEv
	for _, e := range evs {
		all = append(all, e...)
	}
	return all
}

func chanHistory(c *Case) {
	r := c.R
	capacity := []int{1, 1, 2, 3, 4}[r.Intn(5)]
	if r.Intn(3) == 0 {
		capacity = 0
	}
	clients := 2 + r.Intn(4)
	ops := 2 + r.Intn(7)
	env := chanEnv(c, capacity)
	ins := make([][]chIn, clients+1)
	forms := make([][]*golisp.Data, clients+1)
	next := 0
	var desc strings.Builder
	add := func(i int, op string) {
		in := chIn{op: op, cap: capacity}
		src := chText(r, op, "")
		if op == "write" || op == "trywrite" {
			in.v = next
			next++
			src = fmt.Sprintf(src, fmt.Sprint(in.v))
		}
		ins[i] = append(ins[i], in)
		forms[i] = append(forms[i], mustParse(src))
		fmt.Fprintf(&desc, " %s", src)
	}
	roles := r.Intn(3)
	for i := 0; i < clients; i++ {
		fmt.Fprintf(&desc, "\nclient %d:", i)
		for k := 0; k < ops; k++ {
			op := []string{"write", "read", "trywrite", "tryread"}[r.Intn(4)]
			if roles > 0 { // producers and consumers
				if i%2 == 0 {
					op = []string{"write", "write", "trywrite"}[r.Intn(3)]
				} else {
					op = []string{"read", "read", "tryread"}[r.Intn(3)]
				}
			}
			add(i, op)
		}
	}
	add(clients, "close")
	for _, op := range []string{"read", "tryread", "write", "trywrite", "close"} {
		if r.Intn(3) == 0 {
			add(clients, op)
		}
	}
	mode := r.Intn(2)
	c.Desc("channel of capacity %d, mode %d:%s", capacity, mode, desc.String())
	all := runChan(c, env, mode, r.Intn(2) == 0, r.Int63(), ins, forms, true)
	var hv []hev
	for _, e := range all {
		hv = append(hv, hev{e.client, e.k, e.call, e.ret})
		c.Count("history_"+e.in.op, 1)
		if e.out.closed {
			c.Count("reads_closed", 1)
		}
		if e.in.op == "write" && e.out.err {
			c.Count("writes_released_or_refused", 1)
		}
		if e.in.op == "trywrite" && !e.out.ok && !e.out.err {
			c.Count("trywrites_full", 1)
		}
	}
	if overlaps(hv) > 0 {
		c.Distinct(desc.String() + interleaving(hv))
		c.Count("concurrent_histories", 1)
	}
	c.Sample(interleaving(hv))
	// what is left in the buffer
	for len(all) < 10000 {
		t0 := tickClock()
		d, err := evalText("(channel-try-read ch)", env)
		e := chEv{clients + 1, 0, chIn{op: "tryread", cap: capacity}, chResult("tryread", d, err, intVal), t0, tickClock()}
		all = append(all, e)
		if !e.out.ok || e.out.closed || e.out.bad != "" || e.out.err {
			break
		}
	}
	if why := chanOffline(all, capacity); why != "" {
		c.Fail("history:"+desc.String(), "%s\n%s", why, chDescribe(all))
		return
	}
	if capacity > 0 {
		var ops []porcupine.Operation
		for _, e := range all {
			ops = append(ops, porcupine.Operation{ClientId: e.client, Input: e.in, Output: e.out, Call: e.call, Return: e.ret})
		}
		switch porcupine.CheckOperationsTimeout(chanModel, ops, 20*time.Second) {
		case porcupine.Illegal:
			c.Fail("lin:"+desc.String(), "the history is not one of a bounded queue with close\n%s", chDescribe(all))
		case porcupine.Unknown:
			c.Inconclusive("linearizability was not decided in time")
		default:
			c.Count("linearizable", 1)
		}
	}
}

func chDescribe(all []chEv) string {
	sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })
	var b strings.Builder
	for _, e := range all {
		fmt.Fprintf(&b, "  [%d,%d] client %d: %s %d -> %+v\n", e.call-all[0].call, e.ret-all[0].call, e.client, e.in.op, e.in.v, e.out)
	}
	return b.String()
}

// chanOffline judges a recorded history of unique values: exactly once, order,
// capacity, rendezvous and close semantics. It applies to any capacity.
func chanOffline(all []chEv, capacity int) string {
	var closeCall, closeRet int64 = -1, -1
	writes := map[int]chEv{}
	reads := map[int]chEv{}
	nclose := 0
	for _, e := range all {
		if e.out.bad != "" {
			return fmt.Sprintf("client %d, %s: %s", e.client, e.in.op, e.out.bad)
		}
		switch e.in.op {
		case "close":
			if !e.out.err {
				nclose++
				closeCall, closeRet = e.call, e.ret
			}
		case "write", "trywrite":
			if !e.out.err && e.out.ok {
				writes[e.in.v] = e
			}
		default:
			if e.out.err {
				return fmt.Sprintf("client %d: %s failed", e.client, e.in.op)
			}
			if e.out.ok && !e.out.closed {
				if _, dup := reads[e.out.v]; dup {
					return fmt.Sprintf("value %d was read twice", e.out.v)
				}
				reads[e.out.v] = e
			}
		}
	}
	if nclose > 1 {
		return "two closes succeeded"
	}
	for _, e := range all {
		if e.out.err && e.in.op != "close" && (closeCall < 0 || e.ret < closeCall) {
			return fmt.Sprintf("client %d: %s failed although the channel was not closed yet", e.client, e.in.op)
		}
		if closeRet >= 0 && e.call > closeRet {
			switch e.in.op {
			case "write", "trywrite", "close":
				if !e.out.err {
					return fmt.Sprintf("client %d: %s after the close was not an error", e.client, e.in.op)
				}
			}
		}
		if e.out.closed && (closeCall < 0 || e.ret < closeCall) {
			return fmt.Sprintf("client %d: %s reported a closed channel before it was closed", e.client, e.in.op)
		}
		if e.in.op == "tryread" && !e.out.ok && closeRet >= 0 && e.call > closeRet {
			return fmt.Sprintf("client %d: channel-try-read after the close said neither a value nor closed", e.client)
		}
	}
	for v, rd := range reads {
		w, ok := writes[v]
		if !ok {
			return fmt.Sprintf("value %d was read but its write did not succeed", v)
		}
		if rd.ret < w.call {
			return fmt.Sprintf("value %d was read before it was written", v)
		}
		if capacity == 0 && w.ret < rd.call {
			return fmt.Sprintf("the write of value %d to an unbuffered channel returned before anybody tried to take it", v)
		}
	}
	for v := range writes {
		if _, ok := reads[v]; !ok {
			return fmt.Sprintf("value %d was written but neither read nor left in the buffer", v)
		}
	}
	// order of one writer's values
	byClient := map[int][]chEv{}
	for _, w := range writes {
		byClient[w.client] = append(byClient[w.client], w)
	}
	for cl, ws := range byClient {
		sort.Slice(ws, func(i, j int) bool { return ws[i].call < ws[j].call })
		for i := 0; i+1 < len(ws); i++ {
			for j := i + 1; j < len(ws); j++ {
				a, b := reads[ws[i].in.v], reads[ws[j].in.v]
				if b.ret < a.call {
					return fmt.Sprintf("client %d wrote %d before %d, but %d had been read before the read of %d began", cl, ws[i].in.v, ws[j].in.v, ws[j].in.v, ws[i].in.v)
				}
			}
		}
	}
	// capacity: writes that returned minus reads that began never exceed it
	type pt struct {
		t int64
		d int
	}
	var pts []pt
	for v, w := range writes {
		pts = append(pts, pt{w.ret, 1})
		pts = append(pts, pt{reads[v].call, -1})
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i].t < pts[j].t })
	// a read that took a value may have begun long before; what counts is values in flight
	held := 0
	for _, p := range pts {
		held += p.d
		if held > capacity {
			return fmt.Sprintf("%d values were in a channel of capacity %d", held, capacity)
		}
	}
	return ""
}

// chanStress: many values, no stamps in between (so that the race detector sees
// the channel operations alone).
func chanStress(c *Case) {
	r := c.R
	capacity := []int{0, 0, 1, 2, 7, 64}[r.Intn(6)]
	producers := 1 + r.Intn(4)
	consumers := 1 + r.Intn(4)
	per := 100 + r.Intn(400)
	early := r.Intn(4) == 0 // closed while the producers are still writing
	mode := r.Intn(2)
	env := chanEnv(c, capacity)
	c.Desc("capacity %d producers %d consumers %d values %d early-close %v mode %d", capacity, producers, consumers, per, early, mode)
	c.Distinct(c.desc)
	forms := make([][]*golisp.Data, producers)
	kinds := make([][]string, producers)
	for i := range forms {
		for k := 0; k < per; k++ {
			op := "write"
			if r.Intn(4) == 0 {
				op = "trywrite"
			}
			kinds[i] = append(kinds[i], op)
			forms[i] = append(forms[i], mustParse(fmt.Sprintf(chText(r, op, ""), fmt.Sprintf("(list %d %d)", i, k))))
		}
	}
	rd := []*golisp.Data{mustParse("(channel-read ch)"), mustParse("(<-ch)"), mustParse("(channel-try-read ch)")}
	cl := mustParse("(close-channel ch)")
	written := make([][]int, producers)
	got := make([][][2]int, consumers)
	var mu sync.Mutex
	var problems []string
	problem := func(f string, a ...interface{}) {
		mu.Lock()
		problems = append(problems, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var live int32 = int32(producers)
	closeAt := int32(r.Intn(producers*per/2 + 1))
	var wrote int32
	seed := r.Int63()
	par(c, producers+consumers, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		rr := rand.New(rand.NewSource(seed + int64(i)))
		if i < producers {
			shut := false
			for k, f := range forms[i] {
				d, err := golisp.Eval(f, env)
				if err != nil {
					shut = true
					if !early {
						problem("a write failed: %v", err)
					}
					continue
				}
				if shut {
					problem("a write succeeded after one had found the channel closed")
				}
				if kinds[i][k] == "trywrite" && !golisp.BooleanValue(d) {
					continue
				}
				written[i] = append(written[i], k)
				if n := atomic.AddInt32(&wrote, 1); early && n == closeAt {
					golisp.Eval(cl, env)
				}
			}
			if atomic.AddInt32(&live, -1) == 0 {
				_, err := golisp.Eval(cl, env)
				if err != nil && !early {
					problem("close failed: %v", err)
				}
			}
			return
		}
		for {
			j := rr.Intn(3)
			d, err := golisp.Eval(rd[j], env)
			if err != nil {
				problem("a read failed: %v", err)
				return
			}
			val, more := golisp.Car(d), golisp.Cadr(d)
			if j == 2 {
				if !golisp.BooleanValue(golisp.Car(d)) {
					continue
				}
				val, more = golisp.Cadr(d), golisp.Caddr(d)
			}
			if !golisp.BooleanValue(more) {
				return
			}
			got[i-producers] = append(got[i-producers], [2]int{int(golisp.IntegerValue(golisp.Car(val))), int(golisp.IntegerValue(golisp.Cadr(val)))})
		}
	})
	if len(problems) > 0 {
		c.Fail("stress", "%s", strings.Join(problems, "\n"))
		return
	}
	// leftovers: none, the consumers went on until closed and empty
	seen := map[[2]int]bool{}
	for ci, g := range got {
		last := map[int]int{}
		for _, v := range g {
			if seen[v] {
				c.Fail("stress-twice", "value %v was delivered twice", v)
				return
			}
			seen[v] = true
			if l, ok := last[v[0]]; ok && l >= v[1] {
				c.Fail("stress-order", "consumer %d got value %d of producer %d after value %d", ci, v[1], v[0], l)
				return
			}
			last[v[0]] = v[1]
		}
	}
	n := 0
	for i, w := range written {
		for _, k := range w {
			n++
			if !seen[[2]int{i, k}] {
				c.Fail("stress-lost", "value %d of producer %d was written but never delivered (capacity %d)", k, i, capacity)
				return
			}
		}
	}
	if n != len(seen) {
		c.Fail("stress-invented", "%d values written, %d delivered", n, len(seen))
	}
	c.Count("values_delivered", n)
}

// chanBlocked: operations that have to wait do wait, and are released.
func chanBlocked(c *Case) {
	r := c.R
	capacity := r.Intn(3)
	env := chanEnv(c, capacity)
	waiters := 1 + r.Intn(4)
	kind := r.Intn(4)
	mode := r.Intn(2)
	c.Desc("blocked kind %d capacity %d waiters %d mode %d", kind, capacity, waiters, mode)
	c.Distinct(c.desc)
	for i := 0; i < capacity && (kind == 1 || kind == 3); i++ {
		if _, err := evalText(fmt.Sprintf("(channel-write ch %d)", 1000+i), env); err != nil {
			c.Fail("fill", "filling the buffer failed: %v", err)
			return
		}
	}
	var done int32
	outs := make([]chOut, waiters)
	released := make([]bool, waiters)
	var opened int32
	par(c, waiters+1, mode, env, func(i int, env *golisp.SymbolTableFrame) {
		if i < waiters {
			op, src := "read", "(channel-read ch)"
			if kind == 1 || kind == 3 {
				op, src = "write", fmt.Sprintf("(channel-write ch %d)", i)
			}
			d, err := golisp.Eval(mustParse(src), env)
			released[i] = atomic.LoadInt32(&opened) == 1
			outs[i] = chResult(op, d, err, intVal)
			atomic.AddInt32(&done, 1)
			return
		}
		for n := 0; n < 200; n++ {
			pauseSpin()
		}
		if atomic.LoadInt32(&done) != 0 {
			return // seen below: released stays false
		}
		atomic.StoreInt32(&opened, 1)
		switch kind {
		case 0, 1: // close releases them
			golisp.Eval(mustParse("(close-channel ch)"), env)
		case 2:
			for k := 0; k < waiters; k++ {
				golisp.Eval(mustParse(fmt.Sprintf("(channel-write ch %d)", 500+k)), env)
			}
		case 3:
			for k := 0; k < waiters; k++ {
				golisp.Eval(mustParse("(channel-read ch)"), env)
			}
		}
	})
	vals := map[int]bool{}
	for i := range outs {
		if !released[i] {
			c.Fail("early", "a waiting operation returned before it could: %+v (kind %d, capacity %d)", outs[i], kind, capacity)
			return
		}
		o := outs[i]
		ok := false
		switch kind {
		case 0:
			ok = o.closed && !o.err
		case 1:
			ok = o.err
		case 2:
			ok = !o.err && !o.closed && o.bad == "" && o.v >= 500 && o.v < 500+waiters && !vals[o.v]
			vals[o.v] = true
		case 3:
			ok = !o.err
		}
		if !ok {
			c.Fail("released", "a waiting operation was released with %+v (kind %d, capacity %d)", o, kind, capacity)
			return
		}
		c.Count("released", 1)
	}
}

func pauseSpin() {
	for i := 0; i < 300; i++ {
		atomic.AddInt32(&pauseSink, 1)
	}
}

func init() {
	register(&Check{
		ID:     "C27",
		Shards: concShards,
		Rule: "histories: 2-5 clients (host goroutines or forked processes) and a closer run generated channel operations with unique values and recorded call/return, judged by an offline checker (exactly once, order, capacity, rendezvous, close) and, when buffered, by a linearizability checker against a bounded queue; non-trivial when operations overlap, distinct by operations and interleaving. " +
			"sequential: every operation against a queue model with values of all kinds. stress: producers and consumers under the race detector",
		Assumptions: []string{"channel capacities up to 64"},
		Setup:       setupConc,
		Need:        []string{"concurrent_histories", "linearizable", "values_delivered", "reads_after_close", "released"},
		Phases: []Phase{
			{Name: "sequential", Quick: 3000, Thorough: 60000, Run: chanSeq},
			{Name: "histories", Quick: 3000, Thorough: 60000, Run: chanHistory},
			{Name: "blocked", Quick: 300, Thorough: 6000, Run: chanBlocked},
			{Name: "stress", Quick: 120, Thorough: 2500, Run: chanStress},
		},
	})
}
