package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unsafe"

	"github.com/steelseries/golisp"
)

// ---- calling every built-in with arbitrary arguments (C08, C25) ------------------------------------

type primInfo struct {
	name    string
	f       *golisp.PrimitiveFunction
	d       *golisp.Data
	special bool
	counts  []int // argument counts that are allowed (up to 5)
}

var allPrims []*primInfo

// not called at all: they leave the process, stop in the debugger, switch tracing on for everything, or
// (do) loop by definition when their test is never true
var neverCall = map[string]bool{"quit": true, "panic!": true, "debug": true, "debug-on-error": true, "debug-trace": true, "lisp-trace": true,
	"debug-on-entry": true, "add-debug-on-entry": true, "remove-debug-on-entry": true, "dump": true, "exec": true, "load": true, "global-eval": true,
	"open-output-file": true, "open-input-file": true, "list-directory": true, "profile": true, "time": true, "write-line": true, "write-log": true,
	"vh-tick": true, "vh-fail": true}

// their size arguments allocate by definition, so only small integers are given
var smallInts = map[string]bool{"make-list": true, "interval": true, "make-channel": true, "format": true, "sleep": true, "proc-sleep": true, "schedule": true}

// may wait for somebody else
var blocking = map[string]bool{"channel-read": true, "channel-write": true, "join": true}

func arityCounts(f *golisp.PrimitiveFunction) (out []int) {
	for n := 0; n <= 5; n++ {
		ok := len(f.ArgRestrictions) == 0
		for _, a := range f.ArgRestrictions {
			switch a.Type {
			case golisp.ARGS_ANY:
				ok = true
			case golisp.ARGS_EQ:
				ok = ok || n == a.Restriction.(int)
			case golisp.ARGS_GTE:
				ok = ok || n >= a.Restriction.(int)
			case golisp.ARGS_RANGE:
				x := a.Restriction.(golisp.RangeRestriction)
				ok = ok || x.Lo <= n && n <= x.Hi
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	return
}

var globalSnapshot map[string]*golisp.Data

func setupFuzz() {
	setupPrims()
	globalSnapshot = map[string]*golisp.Data{}
	for n, b := range golisp.Global.Bindings {
		globalSnapshot[n] = b.Val
		if golisp.TypeOf(b.Val) != golisp.PrimitiveType || neverCall[n] {
			continue
		}
		f := golisp.PrimitiveValue(b.Val)
		allPrims = append(allPrims, &primInfo{name: n, f: f, d: b.Val, special: f.Special, counts: arityCounts(f)})
	}
	sort.Slice(allPrims, func(i, j int) bool { return allPrims[i].name < allPrims[j].name })
}

// sharedIntact: the values every program shares are what they were
func sharedIntact() string {
	if !golisp.BooleanValue(golisp.LispTrue) || golisp.BooleanValue(golisp.LispFalse) || golisp.TypeOf(golisp.LispTrue) != golisp.BooleanType {
		return "#t or #f changed"
	}
	if n := golisp.EmptyCons(); golisp.NotNilP(n) {
		return "() changed"
	}
	for n, v := range globalSnapshot {
		b, ok := golisp.Global.BindingNamed(n)
		if !ok {
			return "global binding of " + n + " is gone"
		}
		if b.Val != v {
			return "global binding of " + n + " changed to " + golisp.String(b.Val)
		}
		if golisp.TypeOf(v) == golisp.PrimitiveType && golisp.PrimitiveValue(v).Body == nil {
			return "the built-in " + n + " changed"
		}
	}
	if b, ok := golisp.Global.BindingNamed("nil"); ok && golisp.NotNilP(b.Val) {
		return "nil changed"
	}
	return ""
}

type fuzzer struct {
	r     *rand.Rand
	env   *golisp.SymbolTableFrame
	funcs []*golisp.Data
	quiet bool // only values that no operation may change and no functions with effects
}

var fuzzFuncs = []string{"(lambda () 7)", "(lambda (x) x)", "(lambda (x) (list x x))", "(lambda (x y) (cons x y))", "(lambda (x y) #t)", "(lambda (x y) #f)", "(lambda args args)"[:0], "(lambda (x . r) r)", "(lambda (x) (error \"no\"))", "(lambda (x) #t)", "(lambda (x) (integer? x))", "(lambda (x y z) z)", "(lambda () (the-environment))"}
var fuzzPrims = []string{"car", "list", "+", "cons", "<", "string?", "length", "not", "append", "str", "eq?"}

func newFuzzer(r *rand.Rand, quiet bool) *fuzzer {
	f := &fuzzer{r: r, env: freshEnv(), quiet: quiet}
	for _, s := range fuzzFuncs {
		if s == "" {
			continue
		}
		d, err := evalText(s, f.env)
		if err != nil {
			panic(s + err.Error())
		}
		f.funcs = append(f.funcs, d)
	}
	for _, p := range fuzzPrims {
		f.funcs = append(f.funcs, golisp.Global.ValueOf(symD(p)))
	}
	return f
}

const nKinds = 32

type foreign struct{ a, b, c int64 }

// kind makes a value of the k-th kind
func (f *fuzzer) kind(k, depth int) *golisp.Data {
	r := f.r
	switch k {
	case 0:
		return nil
	case 1:
		return golisp.EmptyCons()
	case 2, 3:
		return golisp.IntegerWithValue(int64(r.Intn(12) - 3))
	case 4:
		return golisp.IntegerWithValue(edgeInts[r.Intn(len(edgeInts))])
	case 5:
		return golisp.FloatWithValue(edgeFloats[r.Intn(len(edgeFloats))])
	case 6:
		return golisp.FloatWithValue([]float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 2.5}[r.Intn(4)])
	case 7, 8:
		return golisp.StringWithValue(genStr(r))
	case 9:
		return golisp.StringWithValue([]string{"", "a", "(1 2", "{\"a\": [1, null]}", "[1,", "12", "0x1f", "-", "(car", "~a ~s ~%", "a:b"}[r.Intn(11)])
	case 10:
		return symD("v" + fmt.Sprint(r.Intn(4)))
	case 11:
		return symD([]string{"k:", "a:", "p*:", "self", "foo", "k:>", "x!", "__EOF__", "f:"}[r.Intn(9)])
	case 12:
		return golisp.BooleanWithValue(r.Intn(2) == 0)
	case 13, 14, 15: // proper list
		var l []*golisp.Data
		for i := 0; i < r.Intn(5); i++ {
			l = append(l, f.any(depth-1))
		}
		return dlist(l...)
	case 16: // list of one kind
		kk := []int{2, 7, 10, 12, 17, 1, 24}[r.Intn(7)]
		var l []*golisp.Data
		for i := 0; i < 1+r.Intn(4); i++ {
			l = append(l, f.kind(kk, depth-1))
		}
		return dlist(l...)
	case 17: // dotted
		return golisp.Cons(f.any(depth-1), f.kind([]int{2, 7, 10, 12, 5}[r.Intn(5)], depth-1))
	case 18: // longer dotted
		return golisp.Cons(f.any(depth-1), golisp.Cons(f.any(depth-1), golisp.IntegerWithValue(1)))
	case 19: // list of pairs
		var l []*golisp.Data
		for i := 0; i < r.Intn(4); i++ {
			l = append(l, golisp.Cons(f.kind([]int{2, 7, 10}[r.Intn(3)], 0), f.any(depth-1)))
		}
		return dlist(l...)
	case 20: // association list
		var a *golisp.Data
		for i := 0; i < 1+r.Intn(3); i++ {
			a = golisp.Acons(f.kind([]int{2, 7, 10, 12}[r.Intn(4)], 0), f.any(depth-1), a)
		}
		return a
	case 21: // pair of an association list
		a := golisp.Acons(f.kind(2, 0), f.any(depth-1), nil)
		return golisp.Car(a)
	case 22:
		b := make([]byte, r.Intn(5))
		r.Read(b)
		return mkBytes(b)
	case 23, 24: // frame, possibly with a parent, a method and parent slots that hold no frame
		m := golisp.FrameMap{Data: golisp.FrameMapData{}}
		for i := 0; i < r.Intn(4); i++ {
			m.Data[[]string{"a:", "k:", "b:", "f:"}[r.Intn(4)]] = f.any(depth - 1)
		}
		if r.Intn(3) == 0 {
			m.Data["f:"] = f.funcs[r.Intn(len(f.funcs))]
		}
		if r.Intn(3) == 0 && depth > 0 {
			m.Data["p*:"] = f.kind([]int{23, 23, 2, 7, 1}[r.Intn(5)], depth-1)
		}
		return golisp.FrameWithValue(&m)
	case 25:
		return f.funcs[r.Intn(len(f.funcs))]
	case 26:
		if f.quiet {
			return f.funcs[r.Intn(len(f.funcs))]
		}
		m, err := evalText([]string{"(begin (defmacro (fm x) `(list ,x)) fm)", "(begin (defmacro (fn x . y) `(quote ,y)) fn)"}[r.Intn(2)], golisp.NewSymbolTableFrameBelow(f.env, "m"))
		if err != nil {
			panic(err)
		}
		return m
	case 27:
		return golisp.EnvironmentWithValue(f.env)
	case 28:
		d, _ := evalText([]string{"(make-channel 2)", "(make-channel)", "(let ((c (make-channel 2))) (channel-try-write c 1) c)", "(let ((c (make-channel 1))) (close-channel c) c)"}[r.Intn(4)], golisp.Global)
		return d
	case 29:
		d, _ := evalText([]string{"(atomic)", "(atomic 5)", "(atomic -1)"}[r.Intn(3)], golisp.Global)
		return d
	case 30:
		d, _ := evalText([]string{"(fork (lambda (p) 3))", "(schedule 0 (lambda (p) 3))", "(let ((p (fork (lambda (p) 3)))) (join p) p)"}[r.Intn(3)], f.env)
		return d
	default:
		if r.Intn(3) == 0 {
			return golisp.ObjectWithTypeAndValue([]string{"Foreign", "", "[]byte "}[r.Intn(3)], unsafe.Pointer(&foreign{1, 2, 3}))
		}
		return f.port()
	}
}

func (f *fuzzer) port() *golisp.Data {
	p := filepath.Join(scratch(), "port")
	switch f.r.Intn(3) {
	case 0:
		os.WriteFile(p, []byte("(a b) \"c\" 12 ("), 0o600)
		h, err := os.Open(p)
		if err != nil {
			return nil
		}
		return golisp.PortWithValue(h)
	case 1:
		h, err := os.Create(p)
		if err != nil {
			return nil
		}
		return golisp.PortWithValue(h)
	default:
		h, err := os.Create(p)
		if err != nil {
			return nil
		}
		h.Close()
		return golisp.PortWithValue(h)
	}
}

func (f *fuzzer) any(depth int) *golisp.Data {
	if depth <= 0 {
		return f.kind([]int{1, 2, 4, 5, 7, 9, 10, 11, 12, 22}[f.r.Intn(10)], 0)
	}
	if f.quiet && f.r.Intn(4) > 0 {
		return f.kind([]int{1, 2, 5, 7, 10, 12, 13, 16, 17, 19, 20, 22, 23}[f.r.Intn(13)], depth-1)
	}
	return f.kind(f.r.Intn(nKinds), depth)
}

// clamp makes integers small where size is cost, and replaces what would wait for ever
func (f *fuzzer) clamp(p *primInfo, ds []*golisp.Data) {
	if smallInts[p.name] {
		for i, d := range ds {
			if golisp.IntegerP(d) {
				n := golisp.IntegerValue(d)
				if n > 30 || n < -30 {
					ds[i] = golisp.IntegerWithValue(n % 31)
				}
			}
			if golisp.FloatP(d) && p.name == "interval" {
				ds[i] = golisp.FloatWithValue(1.5)
			}
			if p.name == "schedule" || strings.HasSuffix(p.name, "sleep") {
				if golisp.IntegerP(d) {
					ds[i] = golisp.IntegerWithValue(golisp.IntegerValue(d) % 2)
				}
			}
		}
		if p.name == "format" && len(ds) > 1 && golisp.StringP(ds[1]) {
			s := golisp.StringValue(ds[1])
			n := 0
			for _, c := range s { // at most two digits in a row
				if c >= '0' && c <= '9' {
					if n++; n > 2 {
						ds[1] = golisp.StringWithValue("~a")
					}
				} else {
					n = 0
				}
			}
		}
	}
	if blocking[p.name] {
		for i, d := range ds {
			if golisp.ObjectP(d) && golisp.ObjectType(d) == "Channel" {
				s := "(let ((c (make-channel 2))) (channel-try-write c 1) c)"
				if f.r.Intn(3) == 0 && p.name == "channel-read" {
					s = "(let ((c (make-channel 2))) (close-channel c) c)"
				}
				ds[i], _ = evalText(s, golisp.Global)
			}
		}
	}
}

// callPrim calls the built-in with exactly these values
func (f *fuzzer) callPrim(p *primInfo, ds []*golisp.Data, route int) (*golisp.Data, error) {
	switch {
	case route == 0:
		return golisp.ApplyWithoutEval(p.d, dlist(ds...), f.env)
	case route == 1 && !p.special:
		return golisp.Eval(dlist(symD("apply"), p.d, quoteD(dlist(ds...))), f.env)
	default:
		var form []*golisp.Data
		form = append(form, symD(p.name))
		for _, d := range ds {
			form = append(form, quoteD(d))
		}
		return golisp.Eval(dlist(form...), f.env)
	}
}

// descData describes a value without calling anything of the interpreter's printing
func descData(ds []*golisp.Data) string {
	var s []string
	for _, d := range ds {
		x := canonD(d)
		if len(x) > 200 {
			x = x[:200] + "..."
		}
		s = append(s, x)
	}
	return strings.Join(s, " ")
}
