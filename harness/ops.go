package main

import (
	"fmt"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- calling one built-in with given values and comparing with a model ----------------

type want struct {
	v    V
	err  bool
	any  bool                        // unspecified
	pred func(d *golisp.Data) string // "" when the result is acceptable
}

var wErr = want{err: true}
var wAny = want{any: true}

func wV(v V) want { return want{v: v} }

func showable(v V) bool {
	switch x := v.(type) {
	case float32:
		return x == x && x-x == 0
	case *Pair:
		return showable(x.A) && showable(x.D)
	case *FrameV:
		return false
	case nil, NilT, int64, bool, Str, Sym, *Bytes:
		return true
	}
	return false
}

func symD(s string) *golisp.Data { return golisp.Intern(s) }

func quoteD(d *golisp.Data) *golisp.Data { return dlist(symD("quote"), d) }

func dlist(ds ...*golisp.Data) *golisp.Data {
	var r *golisp.Data
	for i := len(ds) - 1; i >= 0; i-- {
		r = golisp.Cons(ds[i], r)
	}
	if r == nil {
		return golisp.EmptyCons()
	}
	return r
}

// callRoute calls op with the given (already made) data through one of several equivalent routes.
func callRoute(route int, op string, ds []*golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
	f := symD(op)
	var qs []*golisp.Data
	for _, d := range ds {
		qs = append(qs, quoteD(d))
	}
	switch route {
	case 1: // apply to an argument list
		return golisp.Eval(dlist(symD("apply"), f, quoteD(dlist(ds...))), env)
	case 2: // through a variable holding the function
		return golisp.Eval(dlist(dlist(symD("lambda"), dlist(symD("vf")), dlist(append([]*golisp.Data{symD("vf")}, qs...)...)), f), env)
	case 3: // operands held in variables
		e := golisp.NewSymbolTableFrameBelow(env, "vars")
		form := []*golisp.Data{f}
		for i, d := range ds {
			n := symD(fmt.Sprintf("va%d", i))
			e.BindLocallyTo(n, d)
			form = append(form, n)
		}
		return golisp.Eval(dlist(form...), e)
	}
	return golisp.Eval(dlist(append([]*golisp.Data{f}, qs...)...), env)
}

func callText(op string, args []V) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range args {
		b.WriteString(" " + show(q(a)))
	}
	return b.String() + ")"
}

func descArgs(args []V) string {
	var p []string
	for _, a := range args {
		if showable(a) {
			p = append(p, show(a))
		} else {
			p = append(p, canon(a))
		}
	}
	return strings.Join(p, "  ")
}

// checkCall calls op on args by a random route, compares with the model and returns the result.
// It also checks that the arguments are left as they were.
func checkCall(c *Case, op string, args []V, w want) (*golisp.Data, error) {
	env := freshEnv()
	key := op + " " + descArgs(args)
	ds := make([]*golisp.Data, len(args))
	text := true
	for i, a := range args {
		ds[i] = toData(a)
		if !showable(a) {
			text = false
		}
	}
	route := c.R.Intn(6)
	c.Desc("(%s) route %d", key, route)
	var r *golisp.Data
	var err error
	if route >= 4 && text {
		r, err = golisp.ParseAndEvalInEnvironment(callText(op, args), env)
	} else {
		r, err = callRoute(route, op, ds, env)
		for i, a := range args {
			if canonD(ds[i]) != canon(a) {
				c.Fail("arg:"+key, "(%s) changed its argument %d from %s to %s", key, i, canon(a), canonD(ds[i]))
			}
		}
	}
	c.Count("calls", 1)
	c.Count("op_"+op, 1)
	c.Distinct(key)
	judge(c, key, r, err, w)
	return r, err
}

func judge(c *Case, key string, r *golisp.Data, err error, w want) {
	switch {
	case w.any:
		c.Count("unspecified", 1)
	case w.err:
		c.Count("errors_expected", 1)
		if err == nil {
			c.Fail("noerr:"+key, "(%s) must be an error, it returned %s", key, canonD(r))
		}
	case err != nil:
		c.Fail("err:"+key, "(%s) failed: %v\nwant %s", key, err, wantStr(w))
	case w.pred != nil:
		if m := w.pred(r); m != "" {
			c.Fail("val:"+key, "(%s)\n got  %s\n %s", key, canonD(r), m)
		}
	default:
		if g := canonD(r); g != canon(w.v) {
			c.Fail("val:"+key, "(%s)\n got  %s\n want %s", key, g, canon(w.v))
		}
	}
}

func wantStr(w want) string {
	if w.pred != nil {
		return "a value"
	}
	return canon(w.v)
}
