package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C33: type predicates, C34: argument types ------------------------------------------------------

// a kind of value and expressions that give one
var typeKinds = map[byte][]string{
	'I': {"5", "0", "-7", "1", "9223372036854775807", "(+ 2 3)", "(length '(a b))", "(string-length \"abc\")", "(bytearray->list [1])@0", "(atomic-load (atomic 4))", "(float->bits 1.5)", "(string-length \"\")", "(length '())", "(- 5 5)"},
	'N': {"2.5", "-0.0", "(+ 1 0.5)", "(float 3)", "(bits->float 1)", "(sqrt 2)", "(- 1.5 1.5)", "0.0"},
	'S': {"\"abc\"", "\"\"", "(str 1 2)", "(string-upcase \"x\")", "(number->string 12)", "(lisp->json 5)", "(substring \"hello\" 1 3)", "(format #f \"x\")", "(substring \"a\" 1 1)", "(format #f \"\")", "(str)", "(string-trim \"  \")"},
	'Y': {"'abc", "'quote", "(intern \"xyz\")", "(gensym)", "(car '(a b))", "(environment-reference-type (the-environment) 'car)", "'nil", "'t"},
	'K': {"'k:", "k:", "(gensym-naked)", "(intern \"foo:\")", "(car (frame-keys {z: 1}))"},
	'L': {"'(1 2)", "(list 1)", "(cons 1 '(2 3))", "(map car '((a) (b)))", "(reverse '(1 2))", "(string-split \"a b\" \" \")", "(frame-values {a: 1})", "(interval 1 3)", "'(())", "(list '())", "(list #f)", "(copy '(a (b)))", "`(a ,(+ 1 2))", "((lambda (a . r) r) 1 2 3)", "(vector-free)@L", "(list-tail '(1 2 3) 1)", "(bytearray->list [1 2])"},
	'D': {"(cons 1 2)", "'(1 2 . 3)", "(cons* 1 2 3)", "(cons 'a \"b\")"},
	'G': {"(acons 'a 1)", "(alist '((a . 1) (b . 2)))", "(acons 'c 3 (alist '((a . 1))))", "(copy (acons 'a 1))", "(dissoc 'x (alist '((a . 1))))", "(pairlis '(a b) '(1 2))"},
	'F': {"(lambda (x) x)", "(lambda (a . r) r)", "(let ((y 1)) (lambda (x) (+ x y)))", "(named-lambda (nm x) x)", "(begin (define (ff x) x) ff)", "(get-slot {m: (lambda (x) x)} m:)", "((lambda (g) g) (lambda (x) x))", "(lambda ())", "(lambda () ())"},
	'X': {"car", "+", "list", "(car (list cdr))", "string?"},
	'W': {"(begin (defmacro (mm x) x) mm)", "(let () (defmacro (mm x . y) `(list ,x)) mm)"},
	'M': {"{a: 1}", "(make-frame b: 2)", "{a: 1 p*: {b: 2}}", "(clone {a: 1})", "(copy {m: (lambda () 1)})", "(json->lisp \"{\\\"a\\\": 1}\")", "{}", "(make-frame)", "(clone {})", "(json->lisp \"{}\")", "(let ((f {a: 1})) (remove-slot! f a:) f)"},
	'B': {"[1 2 3]", "(list->bytearray '(1))", "(append-bytes [1] 2)", "(take 1 [1 2])", "(extract-bytes [1 2 3] 0 2)", "(copy [7])", "(replace-byte [1] 0 2)", "(take 0 [1])", "(drop 1 [1])", "(extract-bytes [1 2] 1 0)", "(copy (drop 2 [1 2]))", "(append-bytes (take 0 [1]) 2)"},
	'E': {"(the-environment)", "(make-top-level-environment \"c33\")", "(procedure-environment (lambda (x) x))", "(system-global-environment)"},
	'H': {"(make-channel 2)", "(make-channel)", "(let ((c (make-channel 1))) (close-channel c) c)"},
	'A': {"(atomic)", "(atomic 3)"},
	'C': {"(fork (lambda (p) 1))", "(let ((p (schedule 0 (lambda (p) 1)))) (join p) p)"},
	'O': {"PORT"},
	'T': {"#t", "#f", "(== 1 1)", "(not 5)", "(null? '())", "(< 1 2)", "(has-slot? {a: 1} a:)"},
	'0': {"'()", "()", "(cdr '(1))", "(list)", "(filter even? '(1))", "(car '(()))", "(list-tail '(1) 1)", "(take 0 '(1))", "((lambda (a . r) r) 1)", "nil-free", "(if #f 1)", "(get-slot-or-nil {a: 1} b:)"},
}

var kindNames = map[byte]string{'I': "integer", 'N': "float", 'S': "string", 'Y': "symbol", 'K': "naked symbol", 'L': "list", 'D': "dotted list", 'G': "association list", 'F': "function", 'X': "built-in function", 'W': "macro",
	'M': "frame", 'B': "byte array", 'E': "environment", 'H': "channel", 'A': "atomic", 'C': "process", 'O': "port", 'T': "boolean", '0': "empty list"}

var kindOrder []byte

func init() {
	for k := range typeKinds {
		kindOrder = append(kindOrder, k)
		var keep []string
		for _, s := range typeKinds[k] {
			if !strings.Contains(s, "@") && !strings.HasSuffix(s, "-free") {
				keep = append(keep, s)
			}
		}
		typeKinds[k] = keep
	}
	sort.Slice(kindOrder, func(i, j int) bool { return kindOrder[i] < kindOrder[j] })
}

// predicate -> kinds it holds for, and kinds nothing is said about
var typePredicates = []struct{ name, yes, open string }{
	{"atom?", "INYKST", ""},
	{"list?", "LD0", "G"},
	{"pair?", "LD", "G0"},
	{"alist?", "G", "0"},
	{"nil?", "0", ""}, {"null?", "0", ""},
	{"notnil?", "INSYKLDGFXWMBEHACOT", ""}, {"notnull?", "INSYKLDGFXWMBEHACOT", ""},
	{"symbol?", "YK", ""}, {"string?", "S", ""}, {"integer?", "I", ""}, {"number?", "IN", ""}, {"float?", "N", ""},
	{"function?", "FX", ""}, {"macro?", "W", ""}, {"frame?", "M", ""}, {"bytearray?", "B", ""}, {"port?", "O", ""}, {"boolean?", "T", ""}, {"environment?", "E", ""},
}

func kindValue(r *rand.Rand, k byte, env *golisp.SymbolTableFrame) (*golisp.Data, string, error) {
	s := typeKinds[k][r.Intn(len(typeKinds[k]))]
	if s == "PORT" {
		p := filepath.Join(scratch(), "c33port")
		if r.Intn(2) == 0 {
			os.WriteFile(p, []byte("(a b) 12"), 0o600)
			s = fmt.Sprintf("(open-input-file %q)", p)
		} else {
			s = fmt.Sprintf("(open-output-file %q)", p)
		}
	}
	d, err := evalText(s, env)
	return d, s, err
}

// ways a value travels without changing
var carriers = []string{"%s", "(car (list %s))", "((lambda (x) x) %s)", "(let ((y %s)) y)", "(begin 1 %s)", "(get-slot (make-frame s: %s) s:)", "(if #t %s 0)", "(apply (lambda (x) x) (list %s))",
	"(let ((c (make-channel 1))) (channel-write c %s) (car (channel-read c)))", "(cadr (list 0 %s 1))", "((lambda (a . r) (car r)) 0 %s)", "(car (map (lambda (x) x) (list %s)))", "(fold-left (lambda (a x) x) 0 (list %s))",
	"(on-error %s (lambda (e) 0))", "(join (fork (lambda (p x) x) %s))", "(cond (#f 1) (else %s))", "(let ((z 0)) (set! z %s) z)", "(do ((i 0 (+ i 1)) (v %s v)) ((> i 2) v))", "(list-ref (list %s) 0)", "(cdr (cons 1 %s))"}

func c33Predicates(c *Case) {
	r := c.R
	k := kindOrder[c.Idx%len(kindOrder)]
	env := freshEnv()
	d, src, err := kindValue(r, k, env)
	if err != nil {
		c.Fail("make:"+src, "%s (%s) failed: %v", src, kindNames[k], err)
		return
	}
	defer closePort(d)
	env.BindTo(symD("vv"), d)
	expr := "vv"
	used := []string{src}
	for i := r.Intn(4); i > 0; i-- {
		w := carriers[r.Intn(len(carriers))]
		if (k == '0' || k == 'K') && strings.Contains(w, "make-frame") {
			continue
		}
		expr = fmt.Sprintf(w, expr)
	}
	used = append(used, expr)
	c.Desc("(define vv %s) %s", src, expr)
	v, err := evalText(expr, env)
	if err != nil {
		c.Fail("carry:"+c.desc, "with vv = %s (%s), %s failed: %v", src, kindNames[k], expr, err)
		return
	}
	env.BindTo(symD("ww"), v)
	for _, p := range typePredicates {
		if strings.IndexByte(p.open, k) >= 0 {
			continue
		}
		want := strings.IndexByte(p.yes, k) >= 0
		call := "(" + p.name + " ww)"
		switch r.Intn(6) {
		case 0:
			call = "(apply " + p.name + " (list ww))"
		case 1:
			call = "(car (map " + p.name + " (list ww)))"
		}
		got, err := evalText(call, env)
		if err != nil || !golisp.BooleanP(got) || golisp.BooleanValue(got) != want {
			c.Fail("pred:"+p.name+string(k)+src+expr, "with vv = %s (%s) and ww = %s, %s is %s (err %v), want %v", src, kindNames[k], expr, call, showD(got), err, want)
		}
		c.Count("answers", 1)
	}
	c.Count("kind_"+kindNames[k], 1)
	c.Distinct(fmt.Sprint(used))
	if c.Idx < 3 {
		c.Sample(c.desc)
	}
}

func closePort(d *golisp.Data) {
	if golisp.PortP(d) {
		applyNamed("close-port", d)
	}
}

func showD(d *golisp.Data) string { return oneLine(canonD(d), 200) }

// ---- C34 ----------------------------------------------------------------------------------------------

// What each argument of a built-in has to be: groups of letters of accepted kinds ('?': not said), "*" repeats the group
// before it. The empty list is never used as a wrong argument, and lists can be association lists.
// i is a small index, z a size or delay, f a function of one argument, g of two.
const argTypes = `
binary-and: I I
binary-or: I I
binary-not: I
left-shift: I I
right-shift: I I
list->bytearray list-to-bytearray: L
bytearray->list bytearray-to-list: B
replace-byte replace-byte!: B i b
extract-byte: B i
extract-bytes: B i i
append-bytes append-bytes!: B b
make-channel: z
channel-write channel-try-write: h ?
channel-read channel-try-read: h
close-channel: H
fork: P
proc-sleep: C z
wake: C
schedule: z P
reset-timeout: C
abandon: C
join: j
atomic: I
atomic-load: A
atomic-store!: A I
atomic-add!: A I
atomic-swap!: A I
atomic-compare-and-swap!: A I I
environment-has-parent? environment-bound-names environment-macro-names environment-bindings environment-parent: E
environment-reference-type environment-bound? environment-lookup-macro environment-assignable? environment-definable?: E Y
environment-assigned? environment-lookup: E v
environment-assign!: E v ?
environment-define: E v ?
procedure-environment: F
has-slot? get-slot get-slot-or-nil: M k
remove-slot!: M k
set-slot!: M k ?
send: m n ?
apply-slot: m n l
clone: M
json->lisp: S
frame-keys frame-values: M
close-port: O
write-bytes: B o
list-directory: S S
write-string: S o
newline: o
write: ? o
format: Z q
take drop: i u
list-head: L i
list-ref list-tail: L i
map for-each: f L
any every filter remove find find-tail memp: p L
reduce reduce-left reduce-right fold-left fold-right: g ? L
partition: pI L
sublist: L 1 1
sort: L s
union intersection complement: L L
union intersection complement: L L L L
union intersection complement: L
map for-each any every: g L L
+ - *: IN IN IN IN IN
make-list: z ?
+ - *: IN IN
/ : IN d
succ pred: I
quotient: IN d
% modulo: I d
integer float: IN
string->number: 9
min max: c
floor ceiling abs: IN
zero? positive? negative? sign: IN
even? odd?: I
pow: IN IN
inf? nan?: IN
float->bits: N
bits->float: I
acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp2 expm1 gamma j0 j1 log log10 log1p log2 logb sin sinh sqrt tan tanh y0 y1: IN
< > <= >=: IN IN
string-split: S S
string-join: t S
string-trim string-trim-left string-trim-right: S S
string-upcase string-downcase string-capitalize string-upcase! string-downcase! string-capitalize! string-length string-null?: S
substring: w 0 1
substring? string-prefix? string-suffix?: S S
string=? string-ci=? string<? string-ci<? string>? string-ci>? string<=? string-ci<=? string>=? string-ci>=?: S S
parse: x
sleep: z
intern: S
eval: ? E
apply: y l
load: S
error: S
pairlis: 5 5
last-pair: L
append!: L ?
open-output-file: 6
open-input-file: 7
exec: 8
set-car! set-cdr!: L ?
set-nth!: L ? ?
`

// letters in the table -> kinds that are accepted there and expressions to use for a right one
var argLetters = map[byte]struct {
	ok    string
	exprs []string
}{
	'i': {"I", []string{"0", "1"}}, 'b': {"ILB", []string{"7", "255"}}, 'z': {"I", []string{"0", "1"}}, 'h': {"H", []string{"(let ((c (make-channel 3))) (channel-write c 4) c)"}},
	'P': {"F", []string{"(lambda (p) 1)"}}, 'v': {"YK", []string{"'vx"}}, 'k': {"K", []string{"a:", "'a:"}}, 'm': {"M", []string{"{n: (lambda (x) x)}"}}, 'n': {"K", []string{"n:"}},
	'l': {"L", []string{"'(5)"}}, 'o': {"O", []string{"OUTPORT"}}, 'Z': {"TO", []string{"#f"}}, 'q': {"S", []string{"\"x\"", "\"a~%\""}}, 'f': {"FX", []string{"(lambda (x) x)", "list"}},
	'p': {"FX", []string{"(lambda (x) #t)", "integer?"}}, 'g': {"FX", []string{"(lambda (x y) y)", "list"}}, 's': {"FX", []string{"(lambda (x y) #t)", "<"}}, 'd': {"IN", []string{"3"}},
	'c': {"L", []string{"'(1 2)", "'(1.5 2)"}}, 't': {"L", []string{"'(\"a\" \"b\")"}}, 'w': {"S", []string{"\"abc\""}}, 'x': {"S", []string{"\"(a b)\""}}, 'y': {"FX", []string{"(lambda (x) x)", "list"}},
	'L': {"LG", []string{"(list 1 2 3)", "(list 7 8)"}}, 'M': {"M", []string{"{a: 1 b: 2}"}}, 'B': {"B", []string{"(list->bytearray '(1 2 3))"}}, 'E': {"E", []string{"(make-top-level-environment \"c34\" '(vx) '(5))"}},
	'0': {"I", []string{"0"}}, '1': {"I", []string{"1"}}, '9': {"S", []string{"\"12\"", "\"-7\""}}, 'G': {"GL", []string{"(acons 'a 1)", "'((a . 1))"}}, 'u': {"LB", []string{"(list 1 2 3)", "[1 2 3]"}}, '6': {"S", []string{"OUTPATH"}}, '7': {"S", []string{"INPATH"}}, '5': {"L", []string{"(list 1 2 3)"}}, '8': {"S", []string{"'()"}}, 'j': {"C", []string{"(fork (lambda (p) 1))"}},
	'F': {"F", []string{"(lambda (x) x)"}}, 'S': {"S", []string{"\"a,b\"", "\"x\""}}, 'Y': {"YK", []string{"'vx", "'car"}}, 'A': {"A", []string{"(atomic 5)"}}, 'H': {"H", []string{"(make-channel 2)"}},
	'C': {"C", []string{"(schedule 600000 (lambda (p) 1))"}}, 'O': {"O", []string{"OUTPORT"}}, 'I': {"I", []string{"3", "1"}}, 'N': {"N", []string{"2.5"}}, '?': {"", []string{"1", "'q"}},
}

type argRule struct {
	name string
	args []string
}

var argRules []argRule

func init() {
	for _, l := range strings.Split(strings.TrimSpace(argTypes), "\n") {
		i := strings.LastIndex(l, ":")
		for _, n := range strings.Fields(l[:i]) {
			argRules = append(argRules, argRule{n, strings.Fields(l[i+1:])})
		}
	}
}

func accepts(group string, k byte) bool {
	for i := 0; i < len(group); i++ {
		a, ok := argLetters[group[i]]
		if !ok {
			panic("no letter " + group[i:i+1])
		}
		if strings.IndexByte(a.ok, k) >= 0 {
			return true
		}
	}
	return false
}

func applyNamed(name string, d *golisp.Data) *golisp.Data {
	v, _ := golisp.ApplyWithoutEval(golisp.Global.ValueOf(symD(name)), golisp.InternalMakeList(d), golisp.Global)
	return v
}

// what can be seen of a value that an operation could have changed
func visible(d *golisp.Data) string {
	switch {
	case golisp.ObjectP(d) && golisp.ObjectType(d) == "Atomic":
		return canonD(applyNamed("atomic-load", d))
	case golisp.EnvironmentP(d):
		e := golisp.EnvironmentValue(d)
		return canonD(e.ValueOf(symD("vx")))
	}
	return canonD(d)
}

func c34Types(c *Case) {
	r := c.R
	rule := argRules[c.Idx%len(argRules)]
	env := freshEnv()
	var vals []*golisp.Data
	var srcs []string
	defer func() {
		for _, d := range vals {
			closePort(d)
			if golisp.ObjectP(d) && golisp.ObjectType(d) == "Process" {
				applyNamed("abandon", d)
			}
		}
	}()
	rule.args = append([]string{}, rule.args...)
	var checked []int
	for i, g := range rule.args {
		a := argLetters[g[r.Intn(len(g))]]
		s := a.exprs[r.Intn(len(a.exprs))]
		if s == "OUTPORT" {
			s = fmt.Sprintf("(open-output-file %q)", filepath.Join(scratch(), fmt.Sprint("c34port", i)))
		}
		if s == "OUTPATH" || s == "INPATH" {
			p := filepath.Join(scratch(), fmt.Sprint("c34path", s))
			os.WriteFile(p, nil, 0o600)
			s = fmt.Sprintf("%q", p)
		}
		if g != "?" {
			checked = append(checked, i)
		}
		d, err := evalText(s, env)
		if err != nil {
			c.Fail("make:"+s, "%s failed: %v", s, err)
			return
		}
		vals = append(vals, d)
		srcs = append(srcs, s)
	}
	if len(checked) == 0 {
		panic(rule.name)
	}
	bad := -1
	if len(checked) > 0 && (r.Intn(6) > 0 || rule.name == "error" || rule.name == "exec") {
		bad = checked[r.Intn(len(checked))]
		var k byte
		for {
			k = kindOrder[r.Intn(len(kindOrder))]
			if k != '0' && k != 'D' && k != 'G' && !accepts(rule.args[bad], k) {
				break
			}
		}
		d, s, err := kindValue(r, k, env)
		if err != nil {
			c.Fail("make:"+s, "%s failed: %v", s, err)
			return
		}
		if r.Intn(3) == 0 { // nothing to work on does not make the wrong argument right
			for _, i := range checked {
				e := map[string]string{"L": "(list)", "S": "\"\"", "B": "(list->bytearray (list))", "u": "(list)", "I": "0", "IN": "0.0", "M": "{}"}[rule.args[i]]
				if e == "(list)" && r.Intn(2) == 0 {
					e = "'()"
				}
				if i != bad && e != "" && r.Intn(2) == 0 {
					if v, err := evalText(e, env); err == nil && !(strings.HasPrefix(e, "(list->")) {
						vals[i], srcs[i] = v, e
						c.Count("empty_others", 1)
					}
				}
			}
		}
		closePort(vals[bad])
		vals[bad], srcs[bad] = d, s
	}
	var names, before []string
	for i, d := range vals {
		n := fmt.Sprintf("a%d", i)
		env.BindTo(symD(n), d)
		names = append(names, n)
		before = append(before, visible(d))
	}
	call := "(" + rule.name + " " + strings.Join(names, " ") + ")"
	if r.Intn(3) == 0 && golisp.PrimitiveP(golisp.Global.ValueOf(symD(rule.name))) && !golisp.PrimitiveValue(golisp.Global.ValueOf(symD(rule.name))).Special {
		call = "(apply " + rule.name + " (list " + strings.Join(names, " ") + "))"
	}
	c.Desc("(%s %s) as %s", rule.name, strings.Join(srcs, " "), call)
	got, err := evalText(call, env)
	if bad < 0 {
		if err != nil && rule.name != "load" {
			c.Fail("valid:"+c.desc, "%s is an error although every argument has the right type: %v", c.desc, err)
		}
		c.Count("right_types", 1)
		return
	}
	if err == nil {
		c.Fail("accepted:"+rule.name+" "+fmt.Sprint(bad)+" "+srcs[bad], "%s gives %s although argument %d, %s, is not a value that %s accepts", c.desc, showD(got), bad+1, srcs[bad], rule.name)
	}
	for i, d := range vals {
		if v := visible(d); v != before[i] {
			c.Fail("changed:"+rule.name+" "+fmt.Sprint(bad)+" "+srcs[bad], "%s is an error, but argument %d was changed from %s to %s", c.desc, i+1, before[i], v)
		}
	}
	c.Count("wrong_types", 1)
	c.Distinct(fmt.Sprint(rule.name, bad, srcs[bad]))
	if c.Idx < 3 {
		c.Sample(c.desc)
	}
}

func init() {
	register(&Check{
		ID: "C33", Setup: setupPrims, Need: []string{"answers", "kind_process", "kind_port", "kind_macro"},
		Rule: "values of twenty kinds, each produced in several ways by the language itself, sent through a random chain of constructs that must not change them (calls, lists, frames, channels, processes, bindings, control forms) and then given to every type predicate, called directly, by apply and by map; distinct by producing expression and chain",
		Phases: []Phase{
			{Name: "predicates", Quick: 60000, Thorough: 600000, Run: c33Predicates},
		},
		Assumptions: []string{"whether list? and pair? hold for association lists, and pair? and alist? for the empty list, is not judged"},
	})
	register(&Check{
		ID: "C34", Setup: setupPrims, Need: []string{"wrong_types", "right_types"},
		Rule: "calls of the built-ins for which a table gives the type of each argument, with one argument of another kind (values of eighteen kinds made in several ways) and the others right, directly and through apply: the call must be an error and leave every argument as it was; calls with only right arguments must not be errors; distinct by built-in, position and wrong value",
		Phases: []Phase{
			{Name: "types", Quick: 120000, Thorough: 1200000, Run: c34Types},
		},
		Assumptions: []string{"built-ins and arguments that accept any value, and the empty list as a wrong argument, are not judged"},
	})
}
