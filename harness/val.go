package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/steelseries/golisp"
)

// ---- reference values -------------------------------------------------------
//
// V is one of: Nil, int64, float32, bool, Str, Sym, *Pair, *Bytes, *FrameV, *Fn, *Mac, *Prim

type V interface{}
type NilT struct{}
type Str string
type Sym string
type Pair struct{ A, D V }
type Bytes struct{ B []byte }
type FrameV struct{ M map[string]V } // keys with trailing colon

var Nil = NilT{}

func cons(a, d V) *Pair { return &Pair{a, d} }
func list(vs ...V) V    { return listTail(vs, Nil) }
func listTail(vs []V, tail V) V {
	r := tail
	for i := len(vs) - 1; i >= 0; i-- {
		r = cons(vs[i], r)
	}
	return r
}
func isNil(v V) bool { _, ok := v.(NilT); return ok }
func truthy(v V) bool {
	if isNil(v) {
		return false
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return true
}
func toSlice(v V) (out []V, proper bool) {
	for {
		p, ok := v.(*Pair)
		if !ok {
			return out, isNil(v)
		}
		out = append(out, p.A)
		v = p.D
	}
}

// canon renders a reference value unambiguously.
func canon(v V) string {
	var b strings.Builder
	canonTo(&b, v)
	return b.String()
}
func canonFloat(f float32) string {
	if f != f {
		return "F:nan"
	}
	return fmt.Sprintf("F:%08x", math.Float32bits(f))
}
func canonTo(b *strings.Builder, v V) {
	switch x := v.(type) {
	case NilT:
		b.WriteString("()")
	case nil:
		b.WriteString("()")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float32:
		b.WriteString(canonFloat(x))
	case bool:
		if x {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case Str:
		b.WriteString(strconv.Quote(string(x)))
	case Sym:
		b.WriteString("|" + string(x) + "|")
	case *Pair:
		b.WriteByte('(')
		canonTo(b, x.A)
		var t V = x.D
		for {
			if p, ok := t.(*Pair); ok {
				b.WriteByte(' ')
				canonTo(b, p.A)
				t = p.D
				continue
			}
			if !isNil(t) {
				b.WriteString(" . ")
				canonTo(b, t)
			}
			break
		}
		b.WriteByte(')')
	case *Bytes:
		fmt.Fprintf(b, "B%v", x.B)
	case *FrameV:
		ks := make([]string, 0, len(x.M))
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k + " ")
			canonTo(b, x.M[k])
		}
		b.WriteByte('}')
	case *Fn:
		b.WriteString("<fn>")
	case *Mac:
		b.WriteString("<mac>")
	case *Prim:
		b.WriteString("<prim " + x.Name + ">")
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

// canonD renders an interpreter value through the exported accessors in the same form.
func canonD(d *golisp.Data) string {
	var b strings.Builder
	n := 0
	canonDTo(&b, d, 0, &n)
	return b.String()
}

func bytesOf(d *golisp.Data) []byte { return *(*[]byte)(golisp.ObjectValue(d)) }
func mkBytes(b []byte) *golisp.Data {
	c := append([]byte{}, b...)
	return golisp.ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&c))
}

func isPairD(d *golisp.Data) bool {
	switch golisp.TypeOf(d) {
	case golisp.ConsCellType, golisp.AlistType, golisp.AlistCellType:
		return golisp.NotNilP(d)
	}
	return false
}

func canonDTo(b *strings.Builder, d *golisp.Data, depth int, n *int) {
	*n++
	if depth > 2000 || *n > 200000 {
		b.WriteString("...")
		return
	}
	if golisp.NilP(d) {
		b.WriteString("()")
		return
	}
	switch golisp.TypeOf(d) {
	case golisp.NilType:
		b.WriteString("()")
	case golisp.ConsCellType, golisp.AlistType, golisp.AlistCellType:
		b.WriteByte('(')
		canonDTo(b, golisp.Car(d), depth+1, n)
		t := golisp.Cdr(d)
		for isPairD(t) {
			*n++
			if *n > 200000 {
				b.WriteString("...")
				return
			}
			b.WriteByte(' ')
			canonDTo(b, golisp.Car(t), depth+1, n)
			t = golisp.Cdr(t)
		}
		if !golisp.NilP(t) {
			b.WriteString(" . ")
			canonDTo(b, t, depth+1, n)
		}
		b.WriteByte(')')
	case golisp.IntegerType:
		b.WriteString(strconv.FormatInt(golisp.IntegerValue(d), 10))
	case golisp.FloatType:
		b.WriteString(canonFloat(golisp.FloatValue(d)))
	case golisp.BooleanType:
		if golisp.BooleanValue(d) {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case golisp.StringType:
		b.WriteString(strconv.Quote(golisp.StringValue(d)))
	case golisp.SymbolType:
		b.WriteString("|" + golisp.StringValue(d) + "|")
	case golisp.FunctionType:
		b.WriteString("<fn>")
	case golisp.MacroType:
		b.WriteString("<mac>")
	case golisp.PrimitiveType:
		b.WriteString("<prim " + golisp.PrimitiveValue(d).Name + ">")
	case golisp.BoxedObjectType:
		if golisp.ObjectType(d) == "[]byte" {
			fmt.Fprintf(b, "B%v", bytesOf(d))
		} else {
			b.WriteString("<obj " + golisp.ObjectType(d) + ">")
		}
	case golisp.FrameType:
		f := golisp.FrameValue(d)
		f.Mutex.RLock()
		ks := make([]string, 0)
		vals := map[string]*golisp.Data{}
		for k, v := range f.Data {
			ks = append(ks, k)
			vals[k] = v
		}
		f.Mutex.RUnlock()
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k + " ")
			canonDTo(b, vals[k], depth+1, n)
		}
		b.WriteByte('}')
	case golisp.EnvironmentType:
		b.WriteString("<env>")
	case golisp.PortType:
		b.WriteString("<port>")
	default:
		fmt.Fprintf(b, "?type%d", golisp.TypeOf(d))
	}
}

// show prints a reference value as source text.
func show(v V) string {
	var b strings.Builder
	showTo(&b, v)
	return b.String()
}

func quoteStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case '\n':
			b.WriteString("\\n")
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func showFloat(f float32) string {
	s := strconv.FormatFloat(float64(f), 'f', -1, 32)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func showTo(b *strings.Builder, v V) { showMode(b, v, false) }

func printed(v V) string {
	var b strings.Builder
	showMode(&b, v, true)
	return b.String()
}

// showMode writes v as source text, or (printed) exactly as the interpreter prints it: raw newlines in
// strings, and only quote abbreviated.
func showMode(b *strings.Builder, v V, printed bool) {
	switch x := v.(type) {
	case NilT:
		b.WriteString("()")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float32:
		b.WriteString(showFloat(x))
	case bool:
		if x {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case Str:
		t := quoteStr(string(x))
		if printed {
			t = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(string(x)) + `"`
		}
		b.WriteString(t)
	case Sym:
		b.WriteString(string(x))
	case *Pair:
		if s, ok := x.A.(Sym); ok {
			if d, ok := x.D.(*Pair); ok && isNil(d.D) {
				pre := ""
				switch s {
				case "quote":
					pre = "'"
				case "quasiquote":
					pre = "`"
				case "unquote":
					pre = ","
				case "unquote-splicing":
					pre = ",@"
				}
				if pre != "" && (pre == "'" || !printed) {
					b.WriteString(pre)
					showMode(b, d.A, printed)
					return
				}
			}
		}
		b.WriteByte('(')
		showMode(b, x.A, printed)
		var t V = x.D
		for {
			if p, ok := t.(*Pair); ok {
				b.WriteByte(' ')
				showMode(b, p.A, printed)
				t = p.D
				continue
			}
			if !isNil(t) {
				b.WriteString(" . ")
				showMode(b, t, printed)
			}
			break
		}
		b.WriteByte(')')
	case *Bytes:
		b.WriteByte('[')
		for i, c := range x.B {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Itoa(int(c)))
		}
		b.WriteByte(']')
	case *FrameV:
		ks := make([]string, 0, len(x.M))
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k + " ")
			showMode(b, x.M[k], printed)
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

// toData builds an interpreter value with the Go API (no reader involved).
func toData(v V) *golisp.Data {
	switch x := v.(type) {
	case NilT:
		return golisp.EmptyCons()
	case int64:
		return golisp.IntegerWithValue(x)
	case float32:
		return golisp.FloatWithValue(x)
	case bool:
		return golisp.BooleanWithValue(x)
	case Str:
		return golisp.StringWithValue(string(x))
	case Sym:
		return golisp.Intern(string(x))
	case *Pair:
		var t *golisp.Data
		if !isNil(x.D) {
			t = toData(x.D)
		}
		return golisp.Cons(toData(x.A), t)
	case *Bytes:
		return mkBytes(x.B)
	case *FrameV:
		m := golisp.FrameMap{Data: golisp.FrameMapData{}}
		for k, e := range x.M {
			m.Data[k] = toData(e)
		}
		return golisp.FrameWithValue(&m)
	}
	panic(fmt.Sprintf("toData %T", v))
}
