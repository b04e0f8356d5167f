package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/steelseries/golisp"
)

// ---- driving the real interpreter ---------------------------------------------

type recorder struct {
	mu     sync.Mutex
	events []string
}

var rec recorder

func (r *recorder) add(s string) {
	r.mu.Lock()
	r.events = append(r.events, s)
	r.mu.Unlock()
}
func (r *recorder) take() []string {
	r.mu.Lock()
	e := r.events
	r.events = nil
	r.mu.Unlock()
	return e
}

func argsCanon(args *golisp.Data) string {
	var p []string
	for c := args; golisp.NotNilP(c); c = golisp.Cdr(c) {
		p = append(p, canonD(golisp.Car(c)))
	}
	return strings.Join(p, " ")
}

var regOnce sync.Once

// setupPrims registers the harness' observation primitives through the host API.
func setupPrims() {
	regOnce.Do(func() {
		golisp.MakePrimitiveFunction("vh-tick", ">=1", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			rec.add(argsCanon(args))
			var last *golisp.Data
			for c := args; golisp.NotNilP(c); c = golisp.Cdr(c) {
				last = golisp.Car(c)
			}
			return last, nil
		})
		golisp.MakePrimitiveFunction("vh-fail", "*", func(args *golisp.Data, env *golisp.SymbolTableFrame) (*golisp.Data, error) {
			s := argsCanon(args)
			rec.add("FAIL " + s)
			return nil, fmt.Errorf("vh-fail %s", s)
		})
	})
}

var envSeq int64
var envMu sync.Mutex

func freshEnv() *golisp.SymbolTableFrame {
	return golisp.NewSymbolTableFrameBelow(golisp.Global, "vh-env")
}

type outcome struct {
	val    *golisp.Data
	err    error
	panicV interface{}
	stack  string
}

func evalText(src string, env *golisp.SymbolTableFrame) (val *golisp.Data, err error) {
	return golisp.ParseAndEvalInEnvironment(src, env)
}

// showOutcome: canonical result of an evaluation
func showOutcome(d *golisp.Data, err error) string {
	if err != nil {
		return "ERROR"
	}
	return canonD(d)
}
