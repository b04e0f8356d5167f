package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"

	"github.com/steelseries/golisp"
)

// ---- C09: exact 64-bit integers; C10: single-precision contagion -------------------------

func wrap64(b *big.Int) int64 {
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	r := new(big.Int).Mod(b, m)
	return int64(r.Uint64())
}

// operands with many exact relations between them
func intTuple(r *rand.Rand, n int) []int64 {
	out := make([]int64, n)
	for i := range out {
		out[i] = genInt(r)
		if i > 0 && r.Intn(3) == 0 {
			out[i] = out[r.Intn(i)]
			switch r.Intn(4) {
			case 0:
				out[i]++
			case 1:
				out[i]--
			case 2:
				out[i] = -out[i]
			}
		}
		if r.Intn(6) == 0 {
			out[i] = int64(1)<<uint(r.Intn(64)) + int64(r.Intn(3)-1)
		}
	}
	return out
}

func vints(x []int64) []V {
	out := make([]V, len(x))
	for i := range x {
		out[i] = x[i]
	}
	return out
}

func c09Arith(c *Case) {
	r := c.R
	switch r.Intn(9) {
	case 0, 1, 2: // + - *
		op := []string{"+", "-", "*"}[r.Intn(3)]
		n := 2 + r.Intn(4)
		if op != "-" && r.Intn(6) == 0 {
			n = r.Intn(2)
		}
		x := intTuple(r, n)
		acc := new(big.Int)
		if op == "*" {
			acc.SetInt64(1)
		}
		for i, v := range x {
			b := big.NewInt(v)
			switch {
			case i == 0:
				acc.SetInt64(v)
			case op == "+":
				acc.Add(acc, b)
			case op == "-":
				acc.Sub(acc, b)
			default:
				acc.Mul(acc, b)
			}
		}
		checkCall(c, op, vints(x), wV(wrap64(acc)))
	case 3, 4: // quotient
		op := []string{"quotient", "/"}[r.Intn(2)]
		x := intTuple(r, 2+r.Intn(3))
		acc := big.NewInt(x[0])
		w := want{}
		for _, v := range x[1:] {
			if v == 0 {
				w.err = true
				break
			}
			acc.Quo(acc, big.NewInt(v))
			acc.SetInt64(wrap64(acc))
		}
		if !w.err {
			w.v = wrap64(acc)
		}
		checkCall(c, op, vints(x), w)
	case 5:
		op := []string{"%", "modulo"}[r.Intn(2)]
		x := intTuple(r, 2)
		w := wErr
		if x[1] != 0 {
			w = wV(wrap64(new(big.Int).Rem(big.NewInt(x[0]), big.NewInt(x[1]))))
		}
		checkCall(c, op, vints(x), w)
	case 6: // comparisons
		op := []string{"<", ">", "<=", ">=", "==", "!=", "eq?", "eqv?", "equal?", "neq?"}[r.Intn(10)]
		x := intTuple(r, 2)
		k := big.NewInt(x[0]).Cmp(big.NewInt(x[1]))
		b := map[string]bool{"<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0, "==": k == 0, "!=": k != 0, "eq?": k == 0, "eqv?": k == 0, "equal?": k == 0, "neq?": k != 0}[op]
		checkCall(c, op, vints(x), wV(b))
	case 7: // unary
		ops := []string{"succ", "pred", "abs", "sign", "zero?", "positive?", "negative?", "even?", "odd?", "integer", "integer?", "number?", "float?"}
		op := ops[r.Intn(len(ops))]
		x := intTuple(r, 1)[0]
		var v V
		switch op {
		case "succ":
			v = x + 1
		case "pred":
			v = x - 1
		case "abs":
			v = x
			if x < 0 {
				v = -x
			}
		case "sign":
			v = int64(big.NewInt(x).Sign())
		case "zero?":
			v = x == 0
		case "positive?":
			v = x > 0
		case "negative?":
			v = x < 0
		case "even?":
			v = big.NewInt(x).Bit(0) == 0
		case "odd?":
			v = big.NewInt(x).Bit(0) == 1
		case "integer":
			v = x
		case "integer?", "number?":
			v = true
		case "float?":
			v = false
		}
		checkCall(c, op, []V{x}, wV(v))
	case 8:
		op := []string{"min", "max"}[r.Intn(2)]
		x := intTuple(r, 1+r.Intn(6))
		m := x[0]
		for _, v := range x {
			if op == "min" && v < m || op == "max" && v > m {
				m = v
			}
		}
		checkCall(c, op, []V{list(vints(x)...)}, wV(m))
	}
}

func c09Pow(c *Case) {
	r := c.R
	b := genInt(r)
	if r.Intn(3) > 0 {
		b = int64(r.Intn(25) - 12)
	}
	e := int64(r.Intn(70))
	switch r.Intn(8) {
	case 0:
		e = r.Int63()
	case 1:
		e = int64(1)<<uint(r.Intn(63)) + int64(r.Intn(3)-1)
	}
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	v := new(big.Int).Exp(big.NewInt(b), big.NewInt(e), m)
	checkCall(c, "pow", []V{b, e}, wV(int64(v.Uint64())))
}

func c09Bits(c *Case) {
	r := c.R
	x := intTuple(r, 2)
	switch r.Intn(5) {
	case 0, 1:
		op := []string{"binary-and", "binary-or"}[r.Intn(2)]
		var out uint64
		for i := 0; i < 64; i++ {
			a, b := x[0]>>uint(i)&1 == 1, x[1]>>uint(i)&1 == 1
			if op == "binary-and" && a && b || op == "binary-or" && (a || b) {
				out |= 1 << uint(i)
			}
		}
		checkCall(c, op, vints(x), wV(int64(out)))
	case 2: // the low 32 bits are complemented
		checkCall(c, "binary-not", vints(x[:1]), wV(x[0]^0xffffffff))
	case 3, 4:
		op := []string{"left-shift", "right-shift"}[r.Intn(2)]
		n := int64(r.Intn(70))
		if r.Intn(6) == 0 {
			n = int64(r.Intn(600))
		}
		b := new(big.Int).SetUint64(uint64(x[0]))
		if op == "left-shift" {
			b.Lsh(b, uint(n))
		} else {
			b.Rsh(b, uint(n))
		}
		checkCall(c, op, []V{x[0], n}, wV(wrap64(b)))
	}
}

func c09Interval(c *Case) {
	r := c.R
	var a, b, s int64
	base := edgeInts[r.Intn(len(edgeInts))]
	if r.Intn(2) == 0 {
		base = genInt(r)
	}
	a = base
	n := int64(r.Intn(40))
	s = int64(1 + r.Intn(6))
	if r.Intn(4) == 0 {
		s = int64(1) << uint(r.Intn(63))
	}
	// b lies about n steps away, kept inside the int64 range
	B := new(big.Int).Add(big.NewInt(a), new(big.Int).Mul(big.NewInt(n), big.NewInt(s)))
	if r.Intn(2) == 0 {
		B = new(big.Int).Sub(big.NewInt(a), new(big.Int).Mul(big.NewInt(n), big.NewInt(s)))
	}
	B.Add(B, big.NewInt(int64(r.Intn(int(min64(s, 7))))))
	if B.Cmp(big.NewInt(math.MaxInt64)) > 0 {
		B.SetInt64(math.MaxInt64)
	}
	if B.Cmp(big.NewInt(math.MinInt64)) < 0 {
		B.SetInt64(math.MinInt64)
	}
	b = B.Int64()
	if r.Intn(8) == 0 {
		m := int64(r.Intn(30))
		var l []V
		for i := int64(1); i <= m; i++ {
			l = append(l, i)
		}
		checkCall(c, "interval", []V{m}, wV(list(l...)))
		return
	}
	args := []V{a, b}
	step := big.NewInt(1)
	if a > b {
		step.SetInt64(-1)
	}
	w := want{}
	if r.Intn(3) > 0 {
		if a > b && r.Intn(8) > 0 {
			s = -s
		}
		args = append(args, s)
		if a == b && s < 0 || s == 0 || (s < 0) != (a > b) {
			w.err = true
		}
		step.SetInt64(s)
	}
	d := new(big.Int).Sub(big.NewInt(b), big.NewInt(a))
	cnt := new(big.Int).Quo(d, step)
	if !w.err {
		if cnt.Cmp(big.NewInt(5000)) > 0 {
			return
		}
		var l []V
		x := big.NewInt(a)
		for i := int64(0); i <= cnt.Int64(); i++ {
			l = append(l, x.Int64())
			x.Add(x, step)
		}
		w.v = list(l...)
	}
	checkCall(c, "interval", args, w)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func c09Convert(c *Case) {
	r := c.R
	x := intTuple(r, 1)[0]
	base := []int64{2, 8, 10, 16}[r.Intn(4)]
	args := []V{x}
	if base != 10 || r.Intn(2) == 0 {
		args = append(args, base)
	}
	s := strconv.FormatInt(x, int(base))
	d, err := checkCall(c, "number->string", args, wV(Str(s)))
	if err != nil || !golisp.StringP(d) {
		return
	}
	back := []V{Str(golisp.StringValue(d))}
	if len(args) == 2 {
		back = append(back, base)
	}
	checkCall(c, "string->number", back, wV(x))
	// literals are read exactly
	lit := strconv.FormatInt(x, 10)
	got, err := golisp.ParseAndEval(lit)
	judge(c, "literal "+lit, got, err, wV(x))
	if x >= 0 {
		for _, h := range []string{fmt.Sprintf("0x%x", x), fmt.Sprintf("#x%X", x), fmt.Sprintf("#b%b", x)} {
			got, err := golisp.ParseAndEval(h)
			judge(c, "literal "+h, got, err, wV(x))
			c.Count("literals", 1)
		}
	}
}

func c09Wrong(c *Case) {
	r := c.R
	ops := []string{"+", "-", "*", "/", "quotient", "<", ">", "<=", ">=", "%", "modulo", "binary-and", "binary-or", "left-shift", "right-shift"}
	op := ops[r.Intn(len(ops))]
	bad := probeValues[r.Intn(len(probeValues))]
	switch bad.(type) {
	case int64:
		bad = Str("12")
	case float32:
		bad = Sym("x")
	}
	args := []V{genInt(r), genInt(r)}
	k := r.Intn(2)
	args[k] = bad
	checkCall(c, op, args, wErr)
	un := []string{"succ", "pred", "abs", "sign", "zero?", "positive?", "negative?", "even?", "odd?", "floor", "ceiling", "integer", "float", "binary-not", "sqrt"}
	checkCall(c, un[r.Intn(len(un))], []V{bad}, wErr)
}

// ---- C10 ---------------------------------------------------------------------------------

var specialFloats = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.Copysign(0, -1)), 0, math.SmallestNonzeroFloat32, math.MaxFloat32}

func genFloatX(r *rand.Rand) float32 {
	if r.Intn(4) == 0 {
		return specialFloats[r.Intn(len(specialFloats))]
	}
	if r.Intn(4) == 0 {
		return math.Float32frombits(r.Uint32())
	}
	return genFloat(r)
}

func genMixed(r *rand.Rand, n int) []V {
	out := make([]V, n)
	for i := range out {
		if r.Intn(3) == 0 {
			out[i] = genInt(r)
		} else {
			out[i] = genFloatX(r)
		}
		if i > 0 && r.Intn(5) == 0 { // near or equal to an earlier operand
			f := f32(out[r.Intn(i)])
			switch r.Intn(4) {
			case 0:
				out[i] = f
			case 1:
				out[i] = math.Nextafter32(f, 1e30)
			case 2:
				out[i] = -f
			case 3:
				if f > -9e18 && f < 9e18 {
					out[i] = int64(f)
				}
			}
		}
	}
	return out
}

func f32(v V) float32 {
	switch x := v.(type) {
	case int64:
		return float32(x)
	case float32:
		return x
	}
	panic("f32")
}

func isF(v V) bool { _, ok := v.(float32); return ok }

// sameFloat: the same number, or both NaN (the sign of a zero result is not part of the claim for sums)
func wF(f float32) want {
	return want{pred: func(d *golisp.Data) string {
		if golisp.TypeOf(d) != golisp.FloatType {
			return fmt.Sprintf("want float %v, not a float", f)
		}
		g := golisp.FloatValue(d)
		if g == f || g != g && f != f {
			return ""
		}
		return fmt.Sprintf("want float %v (%08x), got %v (%08x)", f, math.Float32bits(f), g, math.Float32bits(g))
	}}
}

func c10Arith(c *Case) {
	r := c.R
	op := []string{"+", "-", "*", "/", "quotient"}[r.Intn(5)]
	x := genMixed(r, 2+r.Intn(4))
	any := false
	for _, v := range x {
		any = any || isF(v)
	}
	if !any {
		x[r.Intn(len(x))] = genFloatX(r)
	}
	acc := f32(x[0])
	w := want{}
	for _, v := range x[1:] {
		f := f32(v)
		switch op {
		case "+":
			acc = acc + f
		case "-":
			acc = acc - f
		case "*":
			acc = acc * f
		default:
			if f == 0 {
				w.err = true
			} else {
				acc = acc / f
			}
		}
		if w.err {
			break
		}
	}
	if !w.err {
		w = wF(acc)
	}
	checkCall(c, op, x, w)
	c.Count("float_results", 1)
}

func c10Compare(c *Case) {
	r := c.R
	x := genMixed(r, 2)
	if !isF(x[0]) && !isF(x[1]) {
		x[r.Intn(2)] = genFloatX(r)
	}
	a, b := f32(x[0]), f32(x[1])
	op := []string{"<", ">", "<=", ">="}[r.Intn(4)]
	v := map[string]bool{"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
	checkCall(c, op, x, wV(v))
	// equality of two floats
	p, s := genFloatX(r), genFloatX(r)
	if r.Intn(2) == 0 {
		s = p
	}
	eop := []string{"==", "eqv?", "equal?", "eq?"}[r.Intn(4)]
	checkCall(c, eop, []V{p, s}, wV(p == s))
	checkCall(c, []string{"!=", "neq?"}[r.Intn(2)], []V{p, s}, wV(p != s))
}

var floatFunctions = map[string]func(float64) float64{"acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh, "atan": math.Atan, "atanh": math.Atanh, "cbrt": math.Cbrt,
	"cos": math.Cos, "cosh": math.Cosh, "erf": math.Erf, "erfc": math.Erfc, "exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "gamma": math.Gamma, "j0": math.J0, "j1": math.J1,
	"log": math.Log, "log10": math.Log10, "log1p": math.Log1p, "log2": math.Log2, "logb": math.Logb, "sin": math.Sin, "sinh": math.Sinh, "sqrt": math.Sqrt, "tan": math.Tan, "tanh": math.Tanh,
	"y0": math.Y0, "y1": math.Y1}

var floatFunctionNames = func() (n []string) {
	for k := range floatFunctions {
		n = append(n, k)
	}
	sort.Strings(n)
	return
}()

var floatConstants = map[string]float64{"pi": math.Pi, "e": math.E, "phi": math.Phi, "sqrt2": math.Sqrt2, "sqrte": math.SqrtE, "sqrtpi": math.SqrtPi, "sqrtphi": math.SqrtPhi, "ln2": math.Ln2, "log2e": math.Log2E,
	"ln10": math.Ln10, "log10e": math.Log10E, "nan": math.NaN(), "+inf": math.Inf(1), "-inf": math.Inf(-1)}

// wNear: the float32 nearest to f, or one of its neighbours
func wNear(f64 float64) want {
	f := float32(f64)
	ord := func(x float32) int64 {
		b := int64(math.Float32bits(x))
		if b>>31 != 0 {
			return -(b & 0x7fffffff)
		}
		return b
	}
	return want{pred: func(d *golisp.Data) string {
		if golisp.TypeOf(d) != golisp.FloatType {
			return fmt.Sprintf("want float %v, not a float", f)
		}
		g := golisp.FloatValue(d)
		k := ord(g) - ord(f)
		if g != g && f != f || g == g && f == f && k >= -1 && k <= 1 {
			return ""
		}
		return fmt.Sprintf("want float %v (%08x), got %v (%08x)", f, math.Float32bits(f), g, math.Float32bits(g))
	}}
}

func c10Functions(c *Case) {
	r := c.R
	pick := func() (V, float32) {
		switch r.Intn(6) {
		case 0:
			i := genInt(r)
			return i, float32(i)
		case 1, 2:
			f := float32(r.NormFloat64() * 3)
			return f, f
		case 3:
			f := float32(r.Intn(41)-20) / 4
			return f, f
		}
		f := genFloatX(r)
		return f, f
	}
	x, fx := pick()
	switch k := r.Intn(8); {
	case k == 0:
		for n, v := range floatConstants {
			d, err := evalText([]string{n, "(+ " + n + " 0)", "(car (list " + n + "))"}[r.Intn(3)], freshEnv())
			judge(c, n, d, err, wNear(v))
		}
		c.Count("constants", 1)
	case k <= 2:
		y, fy := pick()
		if !isF(x) && !isF(y) {
			y = fy
		}
		checkCall(c, "pow", []V{x, y}, wNear(math.Pow(float64(fx), float64(fy))))
	default:
		n := floatFunctionNames[c.Idx%len(floatFunctionNames)]
		checkCall(c, n, []V{x}, wNear(floatFunctions[n](float64(fx))))
	}
}

func c10Unary(c *Case) {
	r := c.R
	f := genFloatX(r)
	var x V = f
	if r.Intn(5) == 0 {
		i := genInt(r)
		x = i
		f = float32(i)
	}
	nan := f != f
	inf := math.IsInf(float64(f), 0)
	ops := []string{"zero?", "positive?", "negative?", "nan?", "inf?", "floor", "ceiling", "integer", "float", "abs", "sign", "float?", "number?", "integer?", "sqrt"}
	op := ops[r.Intn(len(ops))]
	w := wAny
	switch op {
	case "zero?":
		w = wV(f == 0)
	case "positive?":
		w = wV(f > 0)
	case "negative?":
		w = wV(f < 0)
	case "nan?":
		if isF(x) {
			w = wV(nan)
		}
	case "inf?":
		if isF(x) {
			w = wV(inf)
		}
	case "floor":
		w = wF(float32(math.Floor(float64(f))))
	case "ceiling":
		w = wF(float32(math.Ceil(float64(f))))
	case "sqrt":
		w = wF(float32(math.Sqrt(float64(f))))
	case "integer":
		if i, ok := x.(int64); ok {
			w = wV(i)
		} else if !nan && f > -9.2e18 && f < 9.2e18 {
			w = wV(int64(f))
		}
	case "float":
		w = wF(f)
		if isF(x) && !nan {
			w = wV(f)
		}
	case "abs":
		if isF(x) {
			w = wF(float32(math.Abs(float64(f))))
			if !nan {
				w = wV(float32(math.Abs(float64(f))))
			}
		}
	case "sign":
		if !nan {
			k := int64(0)
			if f > 0 {
				k = 1
			}
			if f < 0 {
				k = -1
			}
			w = wV(k)
		}
	case "float?":
		w = wV(isF(x))
	case "integer?":
		w = wV(!isF(x))
	case "number?":
		w = wV(true)
	}
	checkCall(c, op, []V{x}, w)
}

func c10MinMax(c *Case) {
	r := c.R
	x := genMixed(r, 1+r.Intn(6))
	any := false
	for i, v := range x {
		if f := f32(v); f != f {
			x[i] = float32(1)
		}
		any = any || isF(x[i])
	}
	if !any {
		x[0] = genFloat(r)
	}
	op := []string{"min", "max"}[r.Intn(2)]
	m := f32(x[0])
	for _, v := range x {
		f := f32(v)
		if op == "min" && f < m || op == "max" && f > m {
			m = f
		}
	}
	checkCall(c, op, []V{list(x...)}, wF(m))
}

func c10Bits(c *Case) {
	r := c.R
	f := genFloatX(r)
	for f != f {
		f = genFloatX(r)
	}
	b := int64(math.Float32bits(f))
	d, err := checkCall(c, "float->bits", []V{f}, wV(b))
	if err == nil {
		checkCall(c, "bits->float", []V{golisp.IntegerValue(d)}, wV(f))
	}
	u := r.Uint32()
	if g := math.Float32frombits(u); g == g {
		d, err = checkCall(c, "bits->float", []V{int64(u)}, wV(g))
		if err == nil {
			checkCall(c, "float->bits", []V{golisp.FloatValue(d)}, wV(int64(u)))
		}
	}
	// a literal is read as the nearest float
	if g := genFloat(r); true {
		got, err := golisp.ParseAndEval(showFloat(g))
		judge(c, "literal "+showFloat(g), got, err, wV(g))
	}
	// and so is one between two floats, however near the middle
	if g := math.Abs(float64(genFloat(r))); g > 1e-3 && g < 1e9 {
		h := math.Nextafter32(float32(g), float32(math.Inf(1)))
		m := new(big.Float).SetPrec(200).SetFloat64((float64(float32(g)) + float64(h)) / 2)
		e := new(big.Float).SetPrec(200).SetMantExp(m, -50-r.Intn(40))
		switch r.Intn(4) {
		case 0:
			m.Add(m, e)
		case 1:
			m.Sub(m, e)
		case 2:
			m.SetFloat64(float64(float32(g)))
		}
		lit := m.Text('f', 70)
		if r.Intn(2) == 0 {
			lit = "-" + lit
		}
		want, err := strconv.ParseFloat(lit, 32)
		if err == nil {
			got, err := golisp.ParseAndEval(lit)
			judge(c, "literal "+lit, got, err, wV(float32(want)))
			c.Count("long_literals", 1)
		}
	}
}

// nested expressions: values and types propagate through several operations
type numExpr struct {
	op   string
	kids []*numExpr
	leaf V
}

func genNumExpr(r *rand.Rand, d int, floats bool) *numExpr {
	if d == 0 || r.Intn(4) == 0 {
		if floats && r.Intn(2) == 0 {
			f := genFloat(r)
			return &numExpr{leaf: f}
		}
		return &numExpr{leaf: genInt(r)}
	}
	ops := []string{"+", "-", "*", "/", "%", "abs", "succ", "min2", "float", "integer", "sign"}
	e := &numExpr{op: ops[r.Intn(len(ops))]}
	n := 2 + r.Intn(2)
	switch e.op {
	case "%", "min2":
		n = 2
	case "abs", "succ", "float", "integer", "sign":
		n = 1
	}
	for i := 0; i < n; i++ {
		e.kids = append(e.kids, genNumExpr(r, d-1, floats))
	}
	return e
}

func (e *numExpr) text() V {
	if e.op == "" {
		return e.leaf
	}
	var l []V
	for _, k := range e.kids {
		l = append(l, k.text())
	}
	if e.op == "min2" {
		return list(Sym("min"), listTail(append([]V{Sym("list")}, l...), Nil))
	}
	return listTail(append([]V{Sym(e.op)}, l...), Nil)
}

// eval: ok=false on an error; skip=true when unspecified
func (e *numExpr) eval() (v V, ok, skip bool) {
	if e.op == "" {
		return e.leaf, true, false
	}
	var a []V
	fl := false
	for _, k := range e.kids {
		x, ok, skip := k.eval()
		if skip || !ok {
			return nil, ok, skip
		}
		a = append(a, x)
		fl = fl || isF(x)
	}
	switch e.op {
	case "+", "-", "*", "/":
		if fl {
			acc := f32(a[0])
			for _, y := range a[1:] {
				f := f32(y)
				switch e.op {
				case "+":
					acc = acc + f
				case "-":
					acc = acc - f
				case "*":
					acc = acc * f
				default:
					if f == 0 {
						return nil, false, false
					}
					acc = acc / f
				}
			}
			if acc == 0 || acc != acc {
				return nil, true, true // sign of zero may matter further up
			}
			return acc, true, false
		}
		acc := big.NewInt(a[0].(int64))
		for _, y := range a[1:] {
			b := big.NewInt(y.(int64))
			switch e.op {
			case "+":
				acc.Add(acc, b)
			case "-":
				acc.Sub(acc, b)
			case "*":
				acc.Mul(acc, b)
			default:
				if b.Sign() == 0 {
					return nil, false, false
				}
				acc.Quo(acc, b)
			}
			acc.SetInt64(wrap64(acc))
		}
		return acc.Int64(), true, false
	case "%":
		if fl || a[1].(int64) == 0 {
			return nil, false, false
		}
		return wrap64(new(big.Int).Rem(big.NewInt(a[0].(int64)), big.NewInt(a[1].(int64)))), true, false
	case "abs":
		if fl {
			return float32(math.Abs(float64(a[0].(float32)))), true, false
		}
		x := a[0].(int64)
		if x < 0 {
			x = -x
		}
		return x, true, false
	case "succ":
		if fl {
			return nil, false, false
		}
		return a[0].(int64) + 1, true, false
	case "min2":
		if fl {
			x, y := f32(a[0]), f32(a[1])
			if x == y {
				return nil, true, true
			}
			if y < x {
				x = y
			}
			return x, true, false
		}
		x, y := a[0].(int64), a[1].(int64)
		if y < x {
			x = y
		}
		return x, true, false
	case "float":
		return f32(a[0]), true, false
	case "integer":
		if f, isf := a[0].(float32); isf {
			if !(f > -9.2e18 && f < 9.2e18) {
				return nil, true, true
			}
			return int64(f), true, false
		}
		return a[0], true, false
	case "sign":
		f := f32(a[0])
		if f > 0 {
			return int64(1), true, false
		}
		if f < 0 {
			return int64(-1), true, false
		}
		return int64(0), true, false
	}
	panic(e.op)
}

func exprCase(floats bool) func(c *Case) {
	return func(c *Case) {
		e := genNumExpr(c.R, 2+c.R.Intn(3), floats)
		v, ok, skip := e.eval()
		if skip {
			c.Count("unspecified", 1)
			return
		}
		src := show(e.text())
		c.Desc("%s", src)
		d, err := evalText(src, freshEnv())
		c.Count("calls", 1)
		c.Distinct(src)
		w := wV(v)
		if !ok {
			w = wErr
		}
		judge(c, src, d, err, w)
	}
}

func init() {
	register(&Check{
		ID: "C09", Setup: setupPrims,
		Need:        []string{"calls", "op_+", "op_*", "op_quotient", "op_%", "op_<", "op_interval", "op_number->string", "op_string->number", "op_left-shift", "op_pow", "errors_expected", "literals"},
		Rule:        "each integer operation called (directly, by apply, through a variable, as text) on tuples built around 0, +-1, powers of two, 2^24, 2^53 and the int64 limits and on near-equal pairs; results compared with math/big reduced to 64-bit two's complement; nested random integer expressions likewise; distinct by operation and operands",
		Assumptions: []string{"negative shift counts, one-operand - and /, and negative integer exponents of pow are unspecified and not judged", "binary-not complements the low 32 bits, as its test pins"},
		Phases: []Phase{
			{Name: "arith", Quick: 120000, Thorough: 3000000, Run: c09Arith},
			{Name: "bits", Quick: 30000, Thorough: 600000, Run: c09Bits},
			{Name: "pow", Quick: 15000, Thorough: 300000, Run: c09Pow},
			{Name: "interval", Quick: 20000, Thorough: 300000, Run: c09Interval},
			{Name: "convert", Quick: 20000, Thorough: 300000, Run: c09Convert},
			{Name: "wrong", Quick: 6000, Thorough: 60000, Run: c09Wrong},
			{Name: "expr", Quick: 30000, Thorough: 600000, Run: exprCase(false)},
		},
	})
	register(&Check{
		ID: "C10", Setup: setupPrims,
		Need:        []string{"calls", "float_results", "op_+", "op_/", "op_<", "op_floor", "op_float->bits", "op_bits->float", "op_tan", "op_pow", "constants", "op_min", "errors_expected"},
		Rule:        "arithmetic, comparison, rounding, conversion and classification on tuples mixing int64 and float32 with NaN, infinities, signed zero, subnormals and neighbouring values, compared with float32 arithmetic folded left to right; pow, the 29 elementary functions and the named constants compared with float64 references rounded to float32 (a neighbour is accepted); nested mixed expressions; bit conversion over random patterns; distinct by operation and operand bits",
		Assumptions: []string{"NaN operands of min, max and sign, conversion of out-of-range floats to integer and the sign of a zero sum are unspecified and not judged"},
		Phases: []Phase{
			{Name: "arith", Quick: 80000, Thorough: 2000000, Run: c10Arith},
			{Name: "compare", Quick: 30000, Thorough: 600000, Run: c10Compare},
			{Name: "unary", Quick: 60000, Thorough: 1000000, Run: c10Unary},
			{Name: "functions", Quick: 40000, Thorough: 800000, Run: c10Functions},
			{Name: "minmax", Quick: 20000, Thorough: 300000, Run: c10MinMax},
			{Name: "bits", Quick: 30000, Thorough: 600000, Run: c10Bits},
			{Name: "expr", Quick: 40000, Thorough: 800000, Run: exprCase(true)},
		},
	})
}
