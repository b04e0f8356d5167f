package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/steelseries/golisp"
)

// ---- C30: concurrent evaluations --------------------------------------------------------

const maxLanes = 8

var laneRec [maxLanes]recorder
var laneOnce sync.Once

func setupLanes() {
	setupProc()
	laneOnce.Do(func() {
		for i := 0; i < maxLanes; i++ {
			i := i
			golisp.MakePrimitiveFunction(fmt.Sprintf("vh-tick%d", i), ">=1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
				laneRec[i].add(argsCanon(args))
				var last *golisp.Data
				for c := args; golisp.NotNilP(c); c = golisp.Cdr(c) {
					last = golisp.Car(c)
				}
				return last, nil
			})
			golisp.MakePrimitiveFunction(fmt.Sprintf("vh-fail%d", i), "*", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
				s := argsCanon(args)
				laneRec[i].add("FAIL " + s)
				return nil, fmt.Errorf("vh-fail %s", s)
			})
		}
		// for shared code: no recording
		golisp.MakePrimitiveFunction("vh-same", ">=1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			var last *golisp.Data
			for c := args; golisp.NotNilP(c); c = golisp.Cdr(c) {
				last = golisp.Car(c)
			}
			return last, nil
		})
		for _, n := range []string{"fork", "schedule", "sleep", "proc-sleep", "random-byte", "millis", "gensym", "gensym-naked", "channel-read", "channel-write", "join", "read", "newline", "write", "write-string", "write-bytes",
			// work on an environment the lanes share, or whose variables they assign
			"restrict-environment", "environment-bindings", "environment-assign!", "environment-define", "environment-reset!"} {
			noPar[n] = true
		}
		setupFuzz()
	})
}

var noPar = map[string]bool{}

var addrRe = regexp.MustCompile(`0x[0-9a-f]+`)

// runForms evaluates the forms in order and renders what came of each.
func runForms(lane int, forms []*golisp.Data, env *golisp.SymbolTableFrame) []string {
	var out []string
	if lane >= 0 {
		laneRec[lane].take()
	}
	for _, f := range forms {
		d, err := golisp.Eval(f, env)
		s := showOutcome(d, err)
		if err != nil {
			s += " " + addrRe.ReplaceAllString(err.Error(), "0x")
		}
		if lane >= 0 {
			s += " | " + strings.Join(laneRec[lane].take(), " ; ")
		}
		out = append(out, s)
	}
	return out
}

// agreed keeps what two runs of the same thing alone had in common.
func firstDiff(a, b []string) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	if len(b) > len(a) {
		return len(a)
	}
	return -1
}

// concPrograms: independent programs, at once.
func concPrograms(c *Case) {
	r := c.R
	lanes := 2 + r.Intn(4)
	same := r.Intn(3) == 0
	shareCode := same && r.Intn(2) == 0
	var srcs [][]string
	g := newGen(r, nil)
	var prog []V
	for i := 0; i < lanes; i++ {
		if i == 0 || !same {
			g = newGen(r, nil)
			for k := 0; k < 20; k++ {
				prog = g.Program(2+r.Intn(5), 3)
				in := newRef(4000)
				ok := true
				for _, f := range prog {
					if _, _, _, over := in.Run(f, in.G); over {
						ok = false
						break
					}
				}
				if ok {
					break
				}
				prog = nil
				g = newGen(r, nil)
			}
			if prog == nil {
				return
			}
		}
		var src []string
		for _, f := range prog {
			s := show(f)
			lane := fmt.Sprint(i)
			if shareCode {
				s = strings.ReplaceAll(s, "vh-tick", "vh-same")
				lane = "0"
			}
			s = strings.ReplaceAll(strings.ReplaceAll(s, "vh-tick", "vh-tick"+lane), "vh-fail", "vh-fail"+lane)
			src = append(src, s)
		}
		srcs = append(srcs, src)
	}
	mode := r.Intn(2)
	var desc strings.Builder
	for i, s := range srcs {
		fmt.Fprintf(&desc, "lane %d:\n%s\n", i, strings.Join(s, "\n"))
	}
	c.Desc("mode %d same %v shared code %v\n%s", mode, same, shareCode, desc.String())
	parse := func(src []string) []*golisp.Data {
		var out []*golisp.Data
		for _, s := range src {
			out = append(out, mustParse(s))
		}
		return out
	}
	lane := func(i int) int {
		if shareCode {
			return -1
		}
		return i
	}
	alone := make([][]string, lanes)
	for i := range srcs {
		alone[i] = runForms(lane(i), parse(srcs[i]), freshEnv())
		again := runForms(lane(i), parse(srcs[i]), freshEnv())
		if firstDiff(alone[i], again) >= 0 {
			c.Count("not_deterministic_alone", 1)
			return
		}
	}
	codes := make([][]*golisp.Data, lanes)
	for i := range srcs {
		if shareCode && i > 0 {
			codes[i] = codes[0]
			continue
		}
		codes[i] = parse(srcs[i])
	}
	for rep := 0; rep < 2; rep++ {
		got := make([][]string, lanes)
		par(c, lanes, mode, freshEnv(), func(i int, env *golisp.SymbolTableFrame) {
			if rep == 0 || shareCode {
				got[i] = runForms(lane(i), codes[i], freshEnv())
				return
			}
			got[i] = runForms(lane(i), parse(srcs[i]), freshEnv())
		})
		for i := range got {
			if k := firstDiff(alone[i], got[i]); k >= 0 {
				c.Fail("alone:"+desc.String(), "lane %d form %d: alone %s\nbeside others %s\n%s", i, k, alone[i][k], got[i][k], c.desc)
				return
			}
		}
	}
	c.Count("programs", lanes*2)
	c.Distinct(desc.String())
	c.Sample(desc.String())
}

var libText = []string{
	"(define (fact n) (if (<= n 1) 1 (* n (fact (- n 1)))))",
	"(define (fib n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))",
	"(define (even2 n) (if (eqv? n 0) #t (odd2 (- n 1))))",
	"(define (odd2 n) (if (eqv? n 0) #f (even2 (- n 1))))",
	"(define (sum . l) (let loop ((l l) (a 0)) (if (nil? l) a (loop (cdr l) (+ a (car l))))))",
	"(define (count-up n) (do ((i 0 (+ i 1)) (a '() (cons i a))) ((>= i n) a)))",
	"(define (compose f g) (lambda (x) (f (g x))))",
	"(define (curry f x) (lambda y (apply f x y)))",
	"(defmacro (twice e) `(+ ,e ,e))",
	"(defmacro (my-let n v . body) `((lambda (,n) ,@body) ,v))",
	"(defmacro (sq-all . es) `(list ,@(map (lambda (e) `(* ,e ,e)) es)))",
	"(define (use-macros x) (my-let y (twice x) (sq-all x y (+ x y))))",
	"(define adder (let ((k 10)) (lambda (x) (+ x k))))",
	"(define (counter) (let ((n 0)) (lambda () (set! n (+ n 1)) n)))",
	"(define (count3 k) (let ((f (counter))) (do ((i 0 (+ i 1))) ((>= i k) (f)) (f))))",
	"(define (sorted l) (sort l <))",
	"(define (words s) (map string-upcase (string-split s \",\")))",
	"(define base {kind: \"base\" describe: (lambda (x) (list kind x (get-slot self kind:))) area: (lambda (w h) (* w h))})",
	"(define derived {proto*: base kind: \"derived\" describe: (lambda (x) (cons 'd (describe:^ x)))})",
	"(define (objects x) (list (describe:> base x) (describe:> derived x) (send derived area: x 3) (kind: derived)))",
	"(define (own x) (let ((o (make-frame v: x get: (lambda () v) put: (lambda (n) (set! v n) v)))) (put:> o (+ x 1)) (list (get:> o) (v: o))))",
	"(define (classify n) (cond ((< n 0) 'neg) ((eqv? n 0) 'zero) ((even? n) 'even) (else 'odd)))",
	"(define (which x) (case x ((1 2 3) 'small) ((10 20) 'tens) (else 'other)))",
	"(define (risky x) (on-error (if (even? x) (error (str \"bad \" x)) (* x 2)) (lambda (e) (list 'caught e)) (lambda () 'fine)))",
	"(define (evald x) (eval (list '+ x 1)))",
	"(define (quasi x) `(a ,x ,@(map succ (list x x)) (b ,(* x x))))",
	"(define (jsoned x) (json->lisp (lisp->json {a: x b: (list x (+ x 1)) s: (str x)})))",
	"(define (printed x) (str (list x {q: x} \"s\" 'sym 1.5)))",
	"(define (formatted x) (format #f \"<~a|~s|~5a>\" x (list x) (str x)))",
	"(define (parsed x) (parse (str \"(p \" x \" (q \" x \"))\")))",
	"(define (symbols x) (list (intern (str \"sy-\" x)) (eq? (intern (str \"sy-\" x)) (intern (str \"sy-\" x)))))",
	"(define (ack m n) (cond ((eqv? m 0) (+ n 1)) ((eqv? n 0) (ack (- m 1) 1)) (else (ack (- m 1) (ack m (- n 1))))))",
	"(define (opts a b . r) (list a b r))",
	"(define (piped x) (-> x (+ 1) (* 2) list))",
	"(define (nested x) (let* ((a x) (b (+ a 1))) (letrec ((f (lambda (n) (if (<= n 0) a (+ b (f (- n 1))))))) (f 4))))",
	"(define (bytes x) (append-bytes (list->bytearray (list 1 2 (modulo x 200))) [7 8]))",
	"(define (al x) (assoc 'b (list (cons 'a 1) (cons 'b x))))",
	"(define (folded x) (list (fold-left - 0 (count-up x)) (fold-right cons '() (count-up x)) (reduce + 0 (count-up x)) (filter even? (count-up x)) (find odd? (count-up x))))",
	"(define (copied x) (let* ((o {a: (list x x) b: {c: x}}) (p (copy o))) (set-slot! (b: p) c: 0) (list o p (equal? o p))))",
	"(define (named x) ((named-lambda (me n) (if (<= n 0) 'end (me (- n 1)))) x))",
	"(define (wrong x) (car x x x))",
	"(define (many-maps x) (map (lambda (a b) (+ a b x)) '(1 2 3) '(10 20 30)))",
	"(define (anyall x) (list (any odd? (count-up x)) (every (lambda (n) (< n x)) (count-up x))))",
}

var libCalls = []string{"(fact %d)", "(fib (modulo %d 11))", "(even2 %d)", "(sum 1 2 %d)", "(count-up %d)", "((compose adder adder) %d)", "((curry + 5) %d 1)", "(twice (fact 3))", "(use-macros %d)", "(sq-all %d 2)", "(adder %d)", "(count3 %d)",
	"(sorted (list 3 %d 1 2))", "(words \"a,b,c\")", "(objects %d)", "(own %d)", "(classify (- %d 5))", "(which %d)", "(risky %d)", "(evald %d)", "(quasi %d)", "(jsoned %d)", "(printed %d)", "(formatted %d)", "(parsed %d)", "(symbols %d)", "(ack 1 (modulo %d 6))", "(opts 1 2 %d)", "(piped %d)", "(nested %d)", "(bytes %d)", "(al %d)", "(folded %d)", "(copied %d)", "(named %d)", "(wrong %d)", "(many-maps %d)", "(anyall %d)", "(map objects (list 1 %d))", "(apply adder (list %d))", "(let ((f (counter))) (f) (list (f) (f) %d))", "(send derived describe: %d)", "(apply-slot base area: (list 2 %d))", "(expand use %d)"}

// concShared: the same functions, macros and frames used by several evaluations.
func concShared(c *Case) {
	r := c.R
	lib := freshEnv()
	for _, s := range libText {
		if _, err := evalText(s, lib); err != nil {
			c.Fail("lib:"+s, "%s failed: %v", s, err)
			return
		}
	}
	lanes := 2 + r.Intn(5)
	calls := 5 + r.Intn(30)
	mode := r.Intn(2)
	narrow := r.Intn(2) == 0 // everybody uses the same few functions
	var few []string
	for i := 0; i < 2; i++ {
		few = append(few, libCalls[r.Intn(len(libCalls))])
	}
	srcs := make([][]string, lanes)
	for i := range srcs {
		for k := 0; k < calls; k++ {
			t := libCalls[r.Intn(len(libCalls))]
			if narrow {
				t = few[r.Intn(2)]
			}
			if strings.Contains(t, "%d") {
				t = fmt.Sprintf(t, r.Intn(12))
			}
			srcs[i] = append(srcs[i], t)
		}
	}
	c.Desc("shared library, mode %d:\n%v", mode, srcs)
	cache := map[string]string{}
	alone := make([][]string, lanes)
	for i := range srcs {
		for _, s := range srcs[i] {
			if _, ok := cache[s]; !ok {
				cache[s] = runForms(-1, []*golisp.Data{mustParse(s)}, golisp.NewSymbolTableFrameBelow(lib, "vh-alone"))[0]
			}
			alone[i] = append(alone[i], cache[s])
		}
	}
	got := make([][]string, lanes)
	par(c, lanes, mode, lib, func(i int, env *golisp.SymbolTableFrame) {
		var forms []*golisp.Data
		for _, s := range srcs[i] {
			forms = append(forms, mustParse(s))
		}
		got[i] = runForms(-1, forms, env)
	})
	for i := range got {
		if k := firstDiff(alone[i], got[i]); k >= 0 {
			c.Fail("shared:"+srcs[i][k], "%s: alone %s\nbeside others %s", srcs[i][k], alone[i][k], got[i][k])
			return
		}
	}
	c.Count("shared_calls", lanes*calls)
	c.Distinct(c.desc)
}

// concPrims: built-ins, each lane with values of its own.
func concPrims(c *Case) {
	r := c.R
	lanes := 2 + r.Intn(4)
	calls := 6 + r.Intn(10)
	seeds := make([]int64, lanes)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	if r.Intn(2) == 0 {
		for i := range seeds {
			seeds[i] = seeds[0]
		}
	}
	var usable []*primInfo
	for _, p := range allPrims {
		if !p.special && !noPar[p.name] && !blocking[p.name] && !strings.HasPrefix(p.name, "vh-") {
			usable = append(usable, p)
		}
	}
	one := func(seed int64) (out []string) {
		rr := rand.New(rand.NewSource(seed))
		f := newFuzzer(rr, false)
		for k := 0; k < calls; k++ {
			p := usable[rr.Intn(len(usable))]
			n := rr.Intn(4)
			if len(p.counts) > 0 && rr.Intn(8) > 0 {
				n = p.counts[rr.Intn(len(p.counts))]
			}
			var ds []*golisp.Data
			for len(ds) < n {
				ds = append(ds, f.any(2))
			}
			f.clamp(p, ds)
			args := descData(ds)
			d, err := f.callPrim(p, ds, rr.Intn(3))
			out = append(out, fmt.Sprintf("(%s %s) -> %s", p.name, args, addrRe.ReplaceAllString(showOutcome(d, err), "0x")))
		}
		return
	}
	c.Desc("built-ins beside each other: seeds %v", seeds)
	alone := make([][]string, lanes)
	stable := make([][]bool, lanes)
	for i := range seeds {
		if i > 0 && seeds[i] == seeds[0] {
			alone[i], stable[i] = alone[0], stable[0]
			continue
		}
		alone[i] = one(seeds[i])
		again := one(seeds[i])
		for k := range again {
			stable[i] = append(stable[i], alone[i][k] == again[k])
		}
	}
	got := make([][]string, lanes)
	par(c, lanes, 0, freshEnv(), func(i int, env *golisp.SymbolTableFrame) { got[i] = one(seeds[i]) })
	for i := range got {
		for k := range got[i] {
			if stable[i][k] && got[i][k] != alone[i][k] && !(strings.Contains(alone[i][k], "{") && sameChars(got[i][k], alone[i][k])) {
				c.Fail("prims:"+alone[i][k], "alone: %s\nbeside others: %s", alone[i][k], got[i][k])
				return
			}
		}
	}
	c.Count("prim_calls", lanes*calls)
	c.Distinct(c.desc)
}

// sameChars tells whether a and b differ in order only: the slots of a frame come in no
// particular order.
func sameChars(a, b string) bool {
	x, y := []byte(a), []byte(b)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	return string(x) == string(y)
}

// concEnv: definitions and lookups in one shared environment.
func concEnv(c *Case) {
	r := c.R
	lanes := 2 + r.Intn(5)
	rounds := 5 + r.Intn(20)
	env := freshEnv()
	evalText("(define shared 5)", env)
	evalText("(define (shared-fn x) (+ x shared))", env)
	mode := r.Intn(2)
	c.Desc("shared environment: lanes %d rounds %d mode %d", lanes, rounds, mode)
	c.Distinct(fmt.Sprint(c.desc, c.Idx))
	bad := make([]string, lanes)
	base := c.Idx
	par(c, lanes, mode, env, func(i int, _ *golisp.SymbolTableFrame) {
		check := func(src, want string) {
			d, err := evalText(src, env)
			if got := showOutcome(d, err); got != want && bad[i] == "" {
				bad[i] = fmt.Sprintf("%s gave %s (%v), want %s", src, got, err, want)
			}
		}
		for k := 0; k < rounds; k++ {
			n := fmt.Sprintf("lane%d-%d", i, k)
			check(fmt.Sprintf("(begin (define %s %d) %s)", n, k, n), fmt.Sprint(k))
			check(fmt.Sprintf("(begin (set! %s (+ %s 1)) %s)", n, n, n), fmt.Sprint(k+1))
			check(fmt.Sprintf("(begin (define (%s-f x) (* x %s)) (%s-f 2))", n, n, n), fmt.Sprint(2*k+2))
			check(fmt.Sprintf("(begin (defmacro (%s-m x) `(+ ,x %d)) (%s-m 1))", n, k, n), fmt.Sprint(k+1))
			check("(shared-fn 1)", "6")
			check("shared", "5")
			check("(environment-bound? (the-environment) 'shared)", "#t")
			check(fmt.Sprintf("(environment-bound? (the-environment) '%s)", n), "#t")
			check(fmt.Sprintf("(environment-lookup (the-environment) '%s)", n), fmt.Sprint(k+1))
			check(fmt.Sprintf("(begin (environment-define (the-environment) '%s-d %d) %s-d)", n, k, n), fmt.Sprint(k))
			check(fmt.Sprintf("(not (nil? (memq '%s (environment-bound-names (the-environment)))))", n), "#t")
			if k%4 == 0 {
				e := fmt.Sprintf("vh-top-%d-%d-%d", base, i, k)
				check(fmt.Sprintf("(environment? (make-top-level-environment \"%s\" '(a) '(%d)))", e, k), "#t")
				check(fmt.Sprintf("(environment-lookup (find-top-level-environment \"%s\") 'a)", e), fmt.Sprint(k))
				golisp.TopLevelEnvironments.Mutex.Lock()
				delete(golisp.TopLevelEnvironments.Environments, e)
				golisp.TopLevelEnvironments.Mutex.Unlock()
			}
		}
	})
	for _, b := range bad {
		if b != "" {
			c.Fail("env:"+b, "%s", b)
			return
		}
	}
	for i := 0; i < lanes; i++ {
		for k := 0; k < rounds; k++ {
			d, err := evalText(fmt.Sprintf("lane%d-%d", i, k), env)
			if got := showOutcome(d, err); got != fmt.Sprint(k+1) {
				c.Fail("env-lost", "a definition made beside others is %s afterwards, want %d", got, k+1)
				return
			}
		}
	}
	c.Count("definitions", lanes*rounds*5)
}

// concComm: programs whose parts communicate; the result is determined.
func concComm(c *Case) {
	r := c.R
	p := newProcCase(c)
	n := 2 + r.Intn(5)
	k := 1 + r.Intn(30)
	switch c.Idx % 6 {
	case 0: // parallel sum over an atomic and joins
		p.do(-1, "(define acc (atomic))")
		p.do(-1, "(define (work p i) (do ((j 0 (+ j 1))) ((>= j %d) i) (atomic-add! acc i)))", k)
		p.do(-1, "(define ps (map (lambda (i) (fork work i)) (interval 1 %d)))", n)
		p.want("(apply + (map join ps))", fmt.Sprint(n*(n+1)/2))
		p.want("(atomic-load acc)", fmt.Sprint(k*n*(n+1)/2))
	case 1: // a pipeline
		p.do(-1, "(define c0 (make-channel))")
		for i := 0; i < n; i++ {
			p.do(-1, "(define c%d (make-channel %d))", i+1, r.Intn(3))
			p.do(-1, "(define s%d (fork (lambda (p in out f) (let loop ((m (channel-read in))) (if (cadr m) (begin (channel-write out (f (car m))) (loop (channel-read in))) (begin (close-channel out) 'end)))) c%d c%d (lambda (x) (+ (* x 2) %d))))", i, i, i+1, i)
		}
		p.do(-1, "(define feed (fork (lambda (p) (do ((i 0 (+ i 1))) ((>= i %d) (close-channel c0)) (channel-write c0 i)))))", k)
		var want []string
		for i := 0; i < k; i++ {
			x := i
			for s := 0; s < n; s++ {
				x = x*2 + s
			}
			want = append(want, fmt.Sprint(x))
		}
		p.want(fmt.Sprintf("(let loop ((m (channel-read c%d)) (a '())) (if (cadr m) (loop (channel-read c%d) (cons (car m) a)) (reverse a)))", n, n), "("+strings.Join(want, " ")+")")
	case 2: // a ring passes a token round
		for i := 0; i < n; i++ {
			p.do(-1, "(define r%d (make-channel))", i)
		}
		p.do(-1, "(define (node p in out rounds) (do ((i 0 (+ i 1))) ((>= i rounds) 'ok) (channel-write out (+ 1 (car (channel-read in))))))")
		for i := 0; i < n-1; i++ {
			p.do(-1, "(define n%d (fork node r%d r%d %d))", i, i, i+1, k)
		}
		p.want(fmt.Sprintf("(let loop ((i 0) (t 0)) (if (< i %d) (begin (channel-write r0 t) (loop (+ i 1) (+ 1 (car (channel-read r%d))))) t))", k, n-1), fmt.Sprint(k*n))
	case 3: // workers take jobs and answer through a shared frame
		p.do(-1, "(define jobs (make-channel 3))")
		p.do(-1, "(define answers {})")
		p.do(-1, "(define (worker p) (let loop ((m (channel-read jobs)) (k 0)) (if (cadr m) (begin (set-slot! answers (intern (str \"j\" (car m) \":\")) (* (car m) (car m))) (loop (channel-read jobs) (+ k 1))) k)))")
		p.do(-1, "(define ws (map (lambda (i) (fork worker)) (interval 1 %d)))", n)
		for i := 0; i < k; i++ {
			p.do(-1, "(channel-write jobs %d)", i)
		}
		p.do(-1, "(close-channel jobs)")
		p.want("(apply + (map join ws))", fmt.Sprint(k))
		for i := 0; i < k; i += 1 + k/5 {
			p.want(fmt.Sprintf("(get-slot answers j%d:)", i), fmt.Sprint(i*i))
		}
		p.want("(length (frame-keys answers))", fmt.Sprint(k))
	case 4: // divide and conquer
		p.do(-1, "(define (total p lo hi) (if (< (- hi lo) 3) (apply + (interval lo hi)) (let* ((mid (/ (+ lo hi) 2)) (a (fork total lo mid)) (b (fork total (+ mid 1) hi))) (+ (join a) (join b)))))")
		h := 5 + r.Intn(25)
		p.want(fmt.Sprintf("(join (fork total 1 %d))", h), fmt.Sprint(h*(h+1)/2))
	case 5: // methods of one shared frame, and closures over different variables
		p.do(-1, "(define obj {base: %d calc: (lambda (x) (+ base x)) deep: (lambda (n) (if (<= n 0) base (deep:> self (- n 1))))})", k)
		p.do(-1, "(define (mk i) (let ((mine i)) (lambda (p) (do ((j 0 (+ j 1))) ((>= j 5) (list mine (calc:> obj mine) (deep:> obj 3))) (set! mine (+ mine 1))))))")
		p.do(-1, "(define ps (map (lambda (i) (fork (mk i))) (interval 1 %d)))", n)
		var want []string
		for i := 1; i <= n; i++ {
			want = append(want, fmt.Sprintf("(%d %d %d)", i+5, k+i+5, k))
		}
		p.want("(map join ps)", "("+strings.Join(want, " ")+")")
	}
	c.Count("communicating", 1)
	c.Distinct(p.text())
}

// ---- symbols -------------------------------------------------------------------------------

var symRoutes = []string{"Intern", "Parse", "intern", "quote", "parse"}

func symBy(route int, name string) (*golisp.Data, error) {
	switch route {
	case 0:
		return golisp.Intern(name), nil
	case 1:
		return golisp.Parse(name)
	case 2:
		e := freshEnvLocal()
		e.BindLocallyTo(golisp.Intern("vh-name"), golisp.StringWithValue(name))
		return evalText("(intern vh-name)", e)
	case 3:
		return evalText("'"+name, golisp.Global)
	default:
		return evalText("(parse "+quoteStr(name)+")", golisp.Global)
	}
}

func freshEnvLocal() *golisp.SymbolTableFrame {
	return golisp.NewSymbolTableFrameBelow(golisp.NewSymbolTableFrameBelow(golisp.Global, "vh-env"), "vh-local")
}

// concIntern: one name, new, from many goroutines at once.
func concIntern(c *Case) {
	r := c.R
	lanes := 2 + r.Intn(7)
	names := 20 + r.Intn(60)
	mode := r.Intn(2)
	var list []string
	for k := 0; k < names; k++ {
		n := fmt.Sprintf("vhs%d-%d-%d", c.Idx, k, r.Intn(1000000))
		if r.Intn(10) == 0 {
			n = "vhs" + strings.Repeat("-", r.Intn(1<<uint(r.Intn(11)))) + n
		}
		if k%5 == 4 {
			n += ":"
		}
		list = append(list, n)
	}
	routes := make([][]int, lanes)
	for i := range routes {
		for range list {
			routes[i] = append(routes[i], r.Intn(len(symRoutes)))
		}
	}
	c.Desc("interning %d new names from %d lanes, mode %d", names, lanes, mode)
	got := make([][]*golisp.Data, lanes)
	errs := make([]error, lanes)
	par(c, lanes, mode, freshEnv(), func(i int, env *golisp.SymbolTableFrame) {
		for k, n := range list {
			d, err := symBy(routes[i][k], n)
			if err != nil {
				errs[i] = err
			}
			got[i] = append(got[i], d)
		}
	})
	for _, e := range errs {
		if e != nil {
			c.Fail("intern-error", "reading or interning a symbol failed: %v", e)
			return
		}
	}
	for k, n := range list {
		now := golisp.Intern(n)
		for i := range got {
			if got[i][k] != now {
				c.Fail("intern", "%s in lane %d gave another symbol %s than it has now (%s)", symRoutes[routes[i][k]], i, canonD(got[i][k]), n)
				return
			}
			if golisp.StringValue(got[i][k]) != n || !golisp.SymbolP(got[i][k]) {
				c.Fail("intern-name", "%s of %s gave %s", symRoutes[routes[i][k]], n, canonD(got[i][k]))
				return
			}
		}
		for j := 0; j < k; j++ {
			if list[j] != n && golisp.Intern(list[j]) == now {
				c.Fail("intern-same", "%s and %s are the same symbol", list[j], n)
			}
		}
	}
	c.Count("names_interned", names)
	c.Distinct(c.desc + fmt.Sprint(list[:3]))
}

// symSeq: names of all kinds, one process, by every route, again and again.
func symSeq(c *Case) {
	r := c.R
	var names []string
	for k := 0; k < 12; k++ {
		n := genSym(r)
		// what reads as one symbol
		if d, err := golisp.Parse(n); err == nil && golisp.SymbolP(d) && golisp.StringValue(d) == n && !strings.ContainsAny(n, "()[]{}'`,\"; ") {
			names = append(names, n)
		}
	}
	if r.Intn(3) == 0 { // long ones that differ only at the end
		b := strings.Repeat("long-name-", 1+r.Intn(1<<uint(r.Intn(10))))
		names = append(names, b, b+"1", b+"2", "x"+b)
		c.Count("long_names", 4)
	}
	c.Desc("%v", names)
	first := map[string]*golisp.Data{}
	for rep := 0; rep < 3; rep++ {
		for _, n := range names {
			for route := range symRoutes {
				d, err := symBy(route, n)
				if err != nil {
					c.Fail("route:"+symRoutes[route]+n, "%s of %s failed: %v", symRoutes[route], n, err)
					return
				}
				if route > 2 && (strings.HasPrefix(n, "__EOF__") || !golisp.SymbolP(d)) {
					continue
				}
				c.Count("route_"+symRoutes[route], 1)
				if first[n] == nil {
					first[n] = d
				}
				if d != first[n] || !golisp.SymbolP(d) || golisp.StringValue(d) != n {
					c.Fail("same:"+n, "%s of %s gave %s, not the symbol it gave before", symRoutes[route], n, canonD(d))
					return
				}
			}
		}
		// inside data, several times
		var b strings.Builder
		b.WriteString("(")
		for _, n := range names {
			b.WriteString(" " + n + " " + n)
		}
		b.WriteString(")")
		d, err := golisp.Parse(b.String())
		if err == nil {
			i := 0
			for x := d; golisp.NotNilP(x); x = golisp.Cdr(x) {
				if i/2 < len(names) && golisp.Car(x) != first[names[i/2]] {
					c.Fail("in-list:"+names[i/2], "%s read inside a list is another symbol", names[i/2])
					return
				}
				i++
			}
			if i != 2*len(names) {
				c.Fail("in-list-count:"+b.String(), "reading %s gave %d elements", b.String(), i)
			}
		}
	}
	seen := map[*golisp.Data]string{}
	for n, d := range first {
		if o, dup := seen[d]; dup {
			c.Fail("different:"+n, "%s and %s are the same symbol", n, o)
		}
		seen[d] = n
		// the names of symbols and what they are bound to do not influence each other
		env := freshEnv()
		env.BindLocallyTo(d, golisp.IntegerWithValue(int64(len(n))))
		for m := range first {
			if m != n && !strings.HasSuffix(m, ":") {
				if b, ok := env.BindingNamed(m); ok {
					c.Fail("binding:"+m, "binding %s also bound %s to %s", n, m, canonD(b.Val))
				}
			}
		}
	}
	if len(names) > 1 {
		c.Distinct(fmt.Sprint(names))
	}
}

var gensymSeen sync.Map

// gensymFresh: never a symbol (by object or by name) that was returned before in this process.
func gensymFresh(c *Case) {
	r := c.R
	lanes := 1 + r.Intn(6)
	per := 20 + r.Intn(100)
	mode := r.Intn(2)
	pool := []string{"", "", "x", "y", "x-1", "x-1-", "-", "x-", "1", "GENSYM", "GENSYM-1", "a b", "é", "x:", fmt.Sprintf("p%d", r.Intn(1000)), "%s", "%d", "~a",
		"longer-than-a-dozen", "longer-than-a-dozen-characters", "longer-than-a-dozen-1"}
	prefixes := make([][]string, lanes)
	for i := range prefixes {
		for k := 0; k < per; k++ {
			p := pool[r.Intn(len(pool))]
			if r.Intn(6) == 0 { // one the beginning of another
				p = "longer-than-a-dozen-characters"[:1+r.Intn(30)]
			}
			op := []string{"gensym", "gensym", "gensym", "gensym-naked"}[r.Intn(4)]
			switch {
			case p == "":
				prefixes[i] = append(prefixes[i], "("+op+")")
			case r.Intn(2) == 0 && !strings.ContainsAny(p, " :~%") && p != "-" && p != "1":
				prefixes[i] = append(prefixes[i], "("+op+" '"+p+")")
			default:
				prefixes[i] = append(prefixes[i], "("+op+" "+quoteStr(p)+")")
			}
		}
	}
	c.Desc("gensym in %d lanes, %d each, mode %d: %v", lanes, per, mode, prefixes[0][:5])
	got := make([][]*golisp.Data, lanes)
	bad := make([]string, lanes)
	par(c, lanes, mode, freshEnv(), func(i int, env *golisp.SymbolTableFrame) {
		for _, s := range prefixes[i] {
			d, err := evalText(s, env)
			if err != nil || !golisp.SymbolP(d) {
				bad[i] = fmt.Sprintf("%s gave %s", s, showOutcome(d, err))
				return
			}
			if strings.HasPrefix(s, "(gensym-naked") != golisp.NakedP(d) && !strings.Contains(s, ":") {
				bad[i] = fmt.Sprintf("%s gave %s", s, canonD(d))
			}
			got[i] = append(got[i], d)
		}
	})
	for i, b := range bad {
		if b != "" {
			c.Fail("gensym-result", "%s", b)
			return
		}
		for k, d := range got[i] {
			key := golisp.StringValue(d)
			if was, dup := gensymSeen.LoadOrStore(key, prefixes[i][k]); dup {
				c.Fail("gensym:"+prefixes[i][k], "%s returned %s, which %s had returned before", prefixes[i][k], key, was)
				return
			}
			if _, dup := gensymSeen.LoadOrStore(d, ""); dup {
				c.Fail("gensym-object", "%s returned the very symbol object that was returned before", prefixes[i][k])
				return
			}
		}
	}
	c.Count("gensyms", lanes*per)
	c.Distinct(fmt.Sprint(prefixes))
}

func init() {
	phasesIntern := Phase{Name: "interning", Quick: 150, Thorough: 3000, Run: concIntern}
	register(&Check{
		ID:          "C30",
		Shards:      concShards,
		Rule:        "generated programs, calls of shared functions, macros and methods, built-ins, definitions in a shared environment and communicating processes, run beside each other under the race detector; each result and trace is compared with what the same evaluation gave alone (two runs alone have to agree). Distinct by program texts",
		Assumptions: []string{"programs share variables only as the property allows: no plain variable is assigned by one process and used by another", "close overlapping a send on a channel is not counted as a race (what programs see of it is judged by C27)", "built-ins that wait, sleep, read standard input or switch global tracing are left out"},
		Setup:       setupLanes,
		Need:        []string{"programs", "shared_calls", "prim_calls", "definitions", "communicating", "names_interned"},
		Phases: []Phase{
			{Name: "programs", Quick: 900, Thorough: 20000, Run: concPrograms},
			{Name: "shared", Quick: 500, Thorough: 10000, Run: concShared},
			{Name: "built-ins", Quick: 800, Thorough: 20000, Run: concPrims},
			{Name: "environment", Quick: 120, Thorough: 3000, Run: concEnv},
			{Name: "communicating", Quick: 600, Thorough: 12000, Run: concComm},
			phasesIntern,
		},
	})
	register(&Check{
		ID:     "C31",
		Shards: concShards,
		Rule:   "names of all kinds by every route (host API, reader, intern, quote, parse), repeatedly and from many goroutines at once, compared by object identity; every symbol gensym returned is remembered for the life of the process. Distinct by names",
		Setup:  setupLanes,
		Need:   []string{"names_interned", "gensyms", "route_Intern", "route_Parse", "route_intern"},
		Phases: []Phase{
			{Name: "routes", Quick: 3000, Thorough: 60000, Run: symSeq},
			phasesIntern,
			{Name: "gensym", Quick: 300, Thorough: 4000, Run: gensymFresh},
		},
	})
}
