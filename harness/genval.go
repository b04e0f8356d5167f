package main

import (
	"math"
	"math/rand"
	"strings"
)

// ---- random data ------------------------------------------------------------------

type valOpts struct {
	bytes, frames, dotted, quoted, floats, syms bool
	keys                                        []string
}

var edgeInts = []int64{0, 1, -1, 2, 7, 10, 63, 64, 65, 127, 128, 255, 256, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1 << 32, -(1 << 31), 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1}

func genInt(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return edgeInts[r.Intn(len(edgeInts))]
	case 1:
		return int64(r.Uint64())
	case 2:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
	return int64(r.Intn(41) - 20)
}

var edgeFloats = []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.5, 1.5, -2.5, 0.1, 3.14, 1e10, 1e20, 1e-10, 16777216, 16777217, 1e38, math.MaxFloat32, math.SmallestNonzeroFloat32, 1.1754944e-38, -math.MaxFloat32, 123456.789, 1e7, 1e21, 9.2233720e18}

func genFloat(r *rand.Rand) float32 {
	switch r.Intn(4) {
	case 0:
		return edgeFloats[r.Intn(len(edgeFloats))]
	case 1:
		for {
			f := math.Float32frombits(r.Uint32())
			if f == f && !math.IsInf(float64(f), 0) {
				return f
			}
		}
	case 2:
		return float32(r.Intn(2000)-1000) / 8
	}
	return float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(12)-5)))
}

var strAlphabets = []string{"abcxyz", "ab \t\n\"\\'`;#()[]{},.|@:", "aàéλ漢🙂\u00a0\u2028", "\x00\x01\x1b\x7f\r\n", "<>&/\\\"'%~", "0123456789.-+eE", "ABCabc Zz", "a\ufeff\u200b\u200d\u00ad\u0301\ufffd\u0085\ue000\uffff\U0010FFFF\u2029İßǅ"}

func genStr(r *rand.Rand) string {
	n := r.Intn(6)
	if r.Intn(8) == 0 {
		n = r.Intn(40)
		switch r.Intn(40) {
		case 0, 1, 2:
			n = 60 + r.Intn(300)
		case 3:
			n = r.Intn(3000)
		}
	}
	var b strings.Builder
	a := []rune(strAlphabets[r.Intn(len(strAlphabets))])
	for i := 0; i < n; i++ {
		if r.Intn(6) == 0 {
			b2 := []rune(strAlphabets[r.Intn(len(strAlphabets))])
			b.WriteRune(b2[r.Intn(len(b2))])
			continue
		}
		b.WriteRune(a[r.Intn(len(a))])
	}
	return b.String()
}

var symStart = []rune("abcdefxyzABZ_!?*<>=/%&^~$+λé")
var symRest = []rune("abcxyzABC0123456789-+*/<>=!?_.%&^~$@λé漢")

func genSym(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return []string{"+", "-", "*", "/", "->", "=>", "<=", "...", "set-car!", "quote", "nil", "unquote", "list->bytearray", "a.b", "x->y", "-x", "+5", "1+"[1:], "t", "f", "__EOF__", "string<?"}[r.Intn(22)]
	case 1:
		return "k" + string(rune('a'+r.Intn(26))) + ":"
	}
	n := r.Intn(7)
	if r.Intn(60) == 0 {
		n = 50 + r.Intn(250)
	}
	s := []rune{symStart[r.Intn(len(symStart))]}
	for i := 0; i < n; i++ {
		s = append(s, symRest[r.Intn(len(symRest))])
	}
	return string(s)
}

func genAtom(r *rand.Rand, o valOpts) V {
	for {
		switch r.Intn(9) {
		case 0, 1, 2:
			return genInt(r)
		case 3:
			if o.floats {
				return genFloat(r)
			}
		case 4:
			return r.Intn(2) == 0
		case 5, 6:
			return Str(genStr(r))
		case 7:
			if o.syms {
				return Sym(genSym(r))
			}
		case 8:
			if o.bytes && r.Intn(2) == 0 {
				b := make([]byte, r.Intn(6))
				if r.Intn(20) == 0 {
					b = make([]byte, r.Intn(700))
				}
				r.Read(b)
				return &Bytes{b}
			}
			return Nil
		}
	}
}

func genVal(r *rand.Rand, d int, o valOpts) V {
	if d <= 0 || r.Intn(10) < 3 {
		return genAtom(r, o)
	}
	if o.frames && r.Intn(8) == 0 {
		f := &FrameV{map[string]V{}}
		for i := 0; i < r.Intn(4); i++ {
			f.M["s"+string(rune('a'+r.Intn(6)))+":"] = genVal(r, d-1, o)
		}
		if r.Intn(30) == 0 { // many slots
			for i := r.Intn(40); i > 0; i-- {
				f.M["m"+string(rune('a'+r.Intn(26)))+string(rune('a'+r.Intn(26)))+":"] = genAtom(r, o)
			}
		}
		return f
	}
	if o.quoted && r.Intn(8) == 0 {
		return list(Sym([]string{"quote", "quasiquote", "unquote", "unquote-splicing"}[r.Intn(4)]), genVal(r, d-1, o))
	}
	n := r.Intn(5)
	if r.Intn(20) == 0 {
		n = r.Intn(30)
		switch r.Intn(40) {
		case 0:
			n, d = r.Intn(400), 0
		case 1: // deep
			v := genAtom(r, o)
			for i := r.Intn(150); i > 0; i-- {
				v = list(v)
				if r.Intn(3) == 0 {
					v = list(genAtom(r, o), v)
				}
			}
			return v
		}
	}
	var l []V
	for i := 0; i < n; i++ {
		l = append(l, genVal(r, d-1, o))
	}
	if n > 0 && o.dotted && r.Intn(6) == 0 {
		t := genAtom(r, o)
		return listTail(l, t)
	}
	return list(l...)
}

// bareQuote: contains a list (quote), (quasiquote), ... with no operand, whose printed form is not specified
func bareQuote(v V) bool {
	p, ok := v.(*Pair)
	if !ok {
		return false
	}
	if s, ok := p.A.(Sym); ok && (s == "quote" || s == "quasiquote" || s == "unquote" || s == "unquote-splicing") {
		if _, ok := p.D.(*Pair); !ok {
			return true
		}
	}
	var t V = p
	for {
		q, ok := t.(*Pair)
		if !ok {
			return false
		}
		if bareQuote(q.A) {
			return true
		}
		t = q.D
	}
}

func depthOf(v V) int {
	m := 0
	for {
		p, ok := v.(*Pair)
		if !ok {
			return m
		}
		if k := depthOf(p.A) + 1; k > m {
			m = k
		}
		v = p.D
	}
}
