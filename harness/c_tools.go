package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C38: the profile analyser and the linter ----------------------------------------------------------

var toolsErr error
var toolsEnv *golisp.SymbolTableFrame

func setupTools() {
	setupPrims()
	toolsEnv = freshEnv()
	toolsErr = nil
	for _, f := range []string{"profiling.lsp", "linting.lsp"} {
		if _, err := golisp.ProcessFileInEnvironment(libFile(f), toolsEnv); err != nil {
			toolsErr = err
		}
	}
}

type pcall struct {
	name, kind string
	time       int64
	kids       []*pcall
}

func genCalls(r *rand.Rand, depth int) []*pcall {
	var out []*pcall
	for n := r.Intn(4); n > 0; n-- {
		k := []string{"func", "prim", "form"}[r.Intn(3)]
		p := &pcall{name: map[string][]string{"func": {"fib", "f", "unnamed", "long-name-of-22-letters"}, "prim": {"+", "car", "list->bytearray", "<"}, "form": {"if", "let*", "do"}}[k][r.Intn(3)], kind: k}
		if depth > 0 {
			p.kids = genCalls(r, depth-1)
		}
		out = append(out, p)
	}
	return out
}

// write the records of the calls and fill in their times
func writeCalls(r *rand.Rand, b *strings.Builder, now, guid *int64, cs []*pcall) {
	for _, p := range cs {
		id := *guid
		*guid++
		start := *now
		fmt.Fprintf(b, "{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", *now, id, p.kind, p.name)
		*now += int64(r.Intn(1000))
		writeCalls(r, b, now, guid, p.kids)
		*now += int64(r.Intn(100))
		fmt.Fprintf(b, "{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", *now, id, p.kind, p.name)
		p.time = *now - start
		*now += int64(r.Intn(100))
	}
}

// trees in the order the analyser keeps them, newest first
func callTree(d *golisp.Data) string {
	var out []string
	for _, f := range golisp.ToArray(d) {
		m := golisp.FrameValue(f)
		get := func(n string) *golisp.Data { v := m.Get(n); return v }
		out = append(out, fmt.Sprintf("%s %s %d [%s]", golisp.String(get("type:")), golisp.String(get("name:")), golisp.IntegerValue(get("time:")), callTree(get("children:"))))
	}
	return strings.Join(out, ", ")
}

func modelTree(cs []*pcall) string {
	var out []string
	for i := len(cs) - 1; i >= 0; i-- {
		p := cs[i]
		out = append(out, fmt.Sprintf("%s %s %d [%s]", p.kind, p.name, p.time, modelTree(p.kids)))
	}
	return strings.Join(out, ", ")
}

func treeLines(cs []*pcall, level int) (out []string) {
	for i := len(cs) - 1; i >= 0; i-- {
		p := cs[i]
		var sum int64
		for _, k := range p.kids {
			sum += k.time
		}
		out = append(out, fmt.Sprintf("%s%s (total: %d, in nested calls: %d, overhead: %d)", strings.Repeat(" ", 2*level), p.name, p.time, sum, p.time-sum))
		out = append(out, treeLines(p.kids, level+1)...)
		if level == 0 {
			out = append(out, "")
		}
	}
	return
}

func c38Profile(c *Case) {
	r := c.R
	if toolsErr != nil {
		c.Fail("load", "the tools in /repo/lisp cannot be loaded: %v", toolsErr)
		return
	}
	calls := genCalls(r, 3)
	var b strings.Builder
	now, guid := int64(1795046012795500154)+r.Int63n(1e6), int64(r.Intn(5))
	writeCalls(r, &b, &now, &guid, calls)
	file := filepath.Join(scratch(), "c38.dat")
	if os.WriteFile(file, []byte(b.String()), 0o600) != nil {
		return
	}
	c.Desc("%s", b.String())
	if _, err := evalText(fmt.Sprintf("(load-profile %q)", file), toolsEnv); err != nil {
		c.Fail("load-profile:"+c.desc, "load-profile failed: %v\n%s", err, c.desc)
		return
	}
	if got, want := callTree(toolsEnv.ValueOf(symD("call-trees"))), modelTree(calls); got != want {
		c.Fail("tree:"+c.desc, "the call trees are\n%s\nwant\n%s\n%s", got, want, c.desc)
		return
	}
	kind := []string{"all", "func", "prim", "form"}[r.Intn(4)]
	type sum struct{ n, t int64 }
	sums := map[string]sum{}
	var walk func([]*pcall)
	walk = func(cs []*pcall) {
		for _, p := range cs {
			if kind == "all" || kind == p.kind {
				s := sums[p.name]
				sums[p.name] = sum{s.n + 1, s.t + p.time}
			}
			walk(p.kids)
		}
	}
	walk(calls)
	var want []string
	for n, s := range sums {
		want = append(want, fmt.Sprintf("%s|%d|%d|%d", n, s.n, s.t, s.t/s.n))
	}
	sort.Strings(want)
	var err error
	out := withMode(9, func() { _, err = evalText("(by-function '"+kind+")", toolsEnv) })
	var got []string
	for i, l := range strings.Split(strings.TrimRight(out, "\n"), "\n") {
		if i > 0 && strings.Contains(l, "|") {
			f := strings.Split(l, "|")
			for k := range f {
				f[k] = strings.TrimSpace(f[k])
			}
			got = append(got, strings.Join(f, "|"))
		}
	}
	sort.Strings(got)
	if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
		c.Fail("by-function:"+c.desc, "(by-function '%s) (err %v) shows\n%s\nwant\n%s\n%s", kind, err, strings.Join(got, "\n"), strings.Join(want, "\n"), c.desc)
		return
	}
	out = withMode(9, func() { _, err = evalText("(print-tree)", toolsEnv) })
	if w := strings.Join(append(treeLines(calls, 0), ""), "\n"); err != nil || strings.TrimSpace(out) != strings.TrimSpace(w) {
		c.Fail("print-tree:"+c.desc, "(print-tree) (err %v) shows\n%s\nwant\n%s\n%s", err, out, w, c.desc)
		return
	}
	c.Count("profiles", 1)
	c.Count("records", int(guid))
	c.Distinct(c.desc)
	if c.Idx < 2 {
		c.Sample(c.desc)
	}
}

type lintGen struct {
	r      *rand.Rand
	n      int
	report []string
	quiet  bool // inside something that is not searched
}

func (g *lintGen) add(f string, a ...interface{}) {
	g.report = append(g.report, fmt.Sprintf(f, a...))
}

func (g *lintGen) name() Sym {
	g.n++
	return Sym(fmt.Sprintf("n%d", g.n))
}

func lcall(f string, a ...V) V { return listTail(append([]V{Sym(f)}, a...), Nil) }

func printedForm(v V) string { return golisp.PrintString(mustParse(show(v))) }

func (g *lintGen) plain(d int) V {
	if d <= 0 || g.r.Intn(3) == 0 {
		return []V{Sym("x"), int64(g.r.Intn(9)), Sym("y"), "str"}[g.r.Intn(4)]
	}
	return lcall([]string{"f", "car", "+", "list"}[g.r.Intn(4)], g.plain(d-1), g.plain(d-1))
}

func (g *lintGen) form(d int) V {
	r := g.r
	if d <= 0 {
		return g.plain(2)
	}
	switch r.Intn(9) {
	case 0: // a mutator; its arguments are not searched
		e := lcall([]string{"set!", "set-car!", "set-cdr!"}[r.Intn(3)], Sym("x"), g.plain(2))
		g.add("Mutator found: %s", printedForm(e))
		return e
	case 1, 2: // let
		var bs []V
		var prev []Sym
		for i := r.Intn(4); i > 0; i-- {
			n := g.name()
			var init V = g.plain(2)
			if len(prev) > 0 && r.Intn(2) == 0 {
				init = lcall("+", int64(1), lcall("f", prev[r.Intn(len(prev))], int64(2)))
				if r.Intn(3) == 0 {
					init = prev[r.Intn(len(prev))]
				}
				g.add("Back reference in a LET: %s", n)
			}
			bs = append(bs, listTail([]V{n, init}, Nil))
			prev = append(prev, n)
		}
		if len(bs) == 0 {
			return lcall("let*", Nil, g.form(d-1))
		}
		body := g.form(d - 1)
		if r.Intn(3) == 0 {
			return lcall("let", Sym("loop"), listTail(bs, Nil), lcall("begin", body))
		}
		return lcall("let", listTail(bs, Nil), lcall("begin", body), g.form(d-1))
	case 3: // do
		a, b := g.name(), g.name()
		var init V = int64(0)
		if r.Intn(2) == 0 {
			init = lcall("f", a)
			g.add("Back reference in a DO: %s", b)
		}
		return lcall("do", listTail([]V{listTail([]V{a, int64(1), lcall("+", a, b)}, Nil), listTail([]V{b, init, a}, Nil)}, Nil), listTail([]V{lcall("<", a, int64(3)), b}, Nil), g.form(d-1))
	case 4:
		e := lcall("if", g.plain(1), lcall("begin", g.form(d-1)))
		g.add("Single clause IF: %s", printedForm(e))
		return e
	case 5:
		e := lcall("if", g.plain(1), Nil, g.form(d-1))
		g.add("Nil true clause IF: %s", printedForm(e))
		return e
	case 6:
		e := lcall("if", g.plain(1), lcall("begin", g.form(d-1)), Nil)
		g.add("Nil false clause IF: %s", printedForm(e))
		return e
	case 7:
		return lcall("if", g.plain(1), lcall("begin", g.form(d-1)), lcall("begin", g.form(d-1)))
	}
	return lcall("g", g.form(d-1), g.plain(1), g.form(d-1))
}

func c38Lint(c *Case) {
	r := c.R
	if toolsErr != nil {
		return
	}
	g := &lintGen{r: r}
	text := ""
	for i := 1 + r.Intn(4); i > 0; i-- {
		e := g.form(1 + r.Intn(4))
		if r.Intn(2) == 0 {
			e = lcall("define", lcall("fun", Sym("x")), e)
		}
		if _, ok := e.(*Pair); !ok {
			continue
		}
		if r.Intn(6) == 0 { // what says nothing is not the end
			text += []string{"()", "nil", "7", "\"\"", "#f"}[r.Intn(5)] + separator(r)
		}
		text += show(e) + separator(r)
	}
	file := filepath.Join(scratch(), "c38.lsp")
	if os.WriteFile(file, []byte(text), 0o600) != nil {
		return
	}
	c.Desc("%s", text)
	d, err := evalText(fmt.Sprintf("(lint %q)", file), toolsEnv)
	if err != nil {
		c.Fail("lint:"+text, "lint failed: %v\n%s", err, text)
		return
	}
	var got []string
	for _, x := range golisp.ToArray(d) {
		got = append(got, golisp.PrintString(x))
	}
	want := g.report
	sort.Strings(got)
	sort.Strings(want)
	ws := regexp.MustCompile(`\s+`)
	if ws.ReplaceAllString(strings.Join(got, "\n"), " ") != ws.ReplaceAllString(strings.Join(want, "\n"), " ") {
		c.Fail("report:"+text, "lint reports\n %s\nwant\n %s\n%s", strings.Join(got, "\n "), strings.Join(want, "\n "), text)
		return
	}
	c.Count("linted", 1)
	c.Count("reports", len(want))
	c.Distinct(text)
	if c.Idx < 2 {
		c.Sample(text)
	}
}

func init() {
	register(&Check{
		ID: "C38", Setup: setupTools, Need: []string{"profiles", "records", "linted", "reports"},
		Rule: "profiles of random call trees given to load-profile, by-function and print-tree, and random programs with a known list of mutators, back references and one-armed conditionals given to lint; the trees, sums, lines and reports compared with what the input contains; distinct by input",
		Phases: []Phase{
			{Name: "profile", Quick: 6000, Thorough: 40000, Run: c38Profile},
			{Name: "lint", Quick: 12000, Thorough: 60000, Run: c38Lint},
		},
		Assumptions: []string{"the order of lint's reports is not judged; expressions inside a mutator, a condition or the bindings of a let or do are not searched by the linter"},
	})
}
