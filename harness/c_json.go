package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/steelseries/golisp"
)

// ---- C21: JSON --------------------------------------------------------------------------------------------
//
// A document is a V: *FrameV (keys with their colon), list, Str, bool, int64, float32.

func jsonStr(r *rand.Rand) string {
	for {
		s := genStr(r)
		if r.Intn(6) == 0 {
			s += string([]rune{'\u2028', '\u2029', 0x10ffff, 0xfffd, 0xd7ff, 0xe000, 0xffff, 0x7f, 0x80}[r.Intn(9)])
		}
		if utf8.ValidString(s) {
			return s
		}
	}
}

func jsonNumber(r *rand.Rand, integral bool) V {
	if r.Intn(3) > 0 {
		return genInt(r)
	}
	for {
		f := genFloat(r)
		if f != f || f-f != 0 {
			continue
		}
		if integral || float64(f) != math.Trunc(float64(f)) {
			return f
		}
	}
}

// integral: floats with a zero fraction are allowed
func genDoc(r *rand.Rand, d int, integral bool) V {
	if d <= 0 || r.Intn(5) == 0 {
		switch r.Intn(6) {
		case 0, 1:
			return jsonNumber(r, integral)
		case 2, 3:
			return Str(jsonStr(r))
		case 4:
			return r.Intn(2) == 0
		default:
			if r.Intn(2) == 0 {
				return Nil
			}
			return &FrameV{map[string]V{}}
		}
	}
	n := r.Intn(5)
	if r.Intn(25) == 0 {
		n = r.Intn(60)
		d = 1
	}
	if r.Intn(2) == 0 {
		f := &FrameV{map[string]V{}}
		for i := 0; i < n; i++ {
			k := jsonStr(r)
			switch r.Intn(3) {
			case 0:
				k = "k" + strconv.Itoa(r.Intn(8))
			case 1:
				k = []string{"", ":", "a:", "a*", "*", "parent*", "self", "a::", " ", "(", "1", "nil", "a b", "\"", "\\", "__EOF__"}[r.Intn(16)]
			}
			f.M[k+":"] = genDoc(r, d-1, integral)
		}
		return f
	}
	var l []V
	for i := 0; i < n; i++ {
		l = append(l, genDoc(r, d-1, integral))
	}
	return list(l...)
}

// jsonText writes a document in one of the many ways JSON allows
func jsonText(b *bytes.Buffer, r *rand.Rand, v V) {
	sp := func() {
		for r.Intn(6) == 0 {
			b.WriteByte(" \t\n\r"[r.Intn(4)])
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				if r.Intn(3) == 0 {
					fmt.Fprintf(b, "\\u%04x", c)
				} else {
					b.WriteByte('\\')
					b.WriteRune(c)
				}
			case c < 0x20:
				short := map[rune]string{'\n': "\\n", '\t': "\\t", '\r': "\\r", '\b': "\\b", '\f': "\\f"}[c]
				if short != "" && r.Intn(2) == 0 {
					b.WriteString(short)
				} else {
					fmt.Fprintf(b, "\\u%04X", c)
				}
			case c == '/' && r.Intn(2) == 0:
				b.WriteString("\\/")
			case c >= 0x10000 && r.Intn(3) == 0:
				x := c - 0x10000
				fmt.Fprintf(b, "\\u%04x\\u%04x", 0xd800+(x>>10), 0xdc00+(x&0x3ff))
			case c < 0x10000 && r.Intn(8) == 0:
				fmt.Fprintf(b, "\\u%04x", c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	}
	sp()
	switch x := v.(type) {
	case NilT:
		b.WriteByte('[')
		sp()
		b.WriteByte(']')
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
		if x > -1<<40 && x < 1<<40 {
			switch r.Intn(12) {
			case 0:
				b.WriteString(".0")
			case 1:
				b.WriteString("e0")
			case 2:
				b.WriteString(".000E+0")
			}
		}
	case float32:
		b.WriteString(strconv.FormatFloat(float64(x), []byte("gef")[r.Intn(3)], -1, 32))
	case bool:
		fmt.Fprint(b, x)
	case Str:
		str(string(x))
	case *Pair:
		b.WriteByte('[')
		l, _ := toSlice(x)
		for i, e := range l {
			if i > 0 {
				b.WriteByte(',')
			}
			jsonText(b, r, e)
		}
		b.WriteByte(']')
	case *FrameV:
		b.WriteByte('{')
		var ks []string
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			sp()
			str(strings.TrimSuffix(k, ":"))
			sp()
			b.WriteByte(':')
			jsonText(b, r, x.M[k])
		}
		sp()
		b.WriteByte('}')
	}
	sp()
}

// sameNumber: a document's number and what it became
func sameNumber(want V, got string) bool {
	switch x := want.(type) {
	case int64:
		if n, err := strconv.ParseInt(got, 10, 64); err == nil {
			return n == x
		}
	case float32:
		f, err := strconv.ParseFloat(got, 32)
		return err == nil && float32(f) == x
	}
	return false
}

// sameDoc compares a decoded JSON text with the document; "" when equivalent
func sameDoc(want V, got interface{}, at string) string {
	bad := func() string { return fmt.Sprintf("at %s: got %#v, want %s", at, got, canon(want)) }
	switch x := want.(type) {
	case NilT, *Pair:
		l, _ := toSlice(x)
		a, ok := got.([]interface{})
		if !ok || len(a) != len(l) {
			return bad()
		}
		for i := range l {
			if s := sameDoc(l[i], a[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case *FrameV:
		m, ok := got.(map[string]interface{})
		if !ok || len(m) != len(x.M) {
			return bad()
		}
		for k, e := range x.M {
			g, ok := m[strings.TrimSuffix(k, ":")]
			if !ok {
				return fmt.Sprintf("at %s: member %q is missing", at, strings.TrimSuffix(k, ":"))
			}
			if s := sameDoc(e, g, at+"."+k); s != "" {
				return s
			}
		}
	case Str:
		if s, ok := got.(string); !ok || s != string(x) {
			return bad()
		}
	case bool:
		if b, ok := got.(bool); !ok || b != x {
			return bad()
		}
	default:
		n, ok := got.(json.Number)
		if !ok || !sameNumber(want, string(n)) {
			return bad()
		}
	}
	return ""
}

// sameLisp compares lisp data with the document
func sameLisp(want V, d *golisp.Data, at string) string {
	bad := func() string { return fmt.Sprintf("at %s: got %s, want %s", at, canonD(d), canon(want)) }
	switch x := want.(type) {
	case *FrameV:
		if !golisp.FrameP(d) {
			return bad()
		}
		m := golisp.FrameValue(d).Clone().Data
		if len(m) != len(x.M) {
			return bad()
		}
		for k, e := range x.M {
			g, ok := m[k]
			if !ok {
				return fmt.Sprintf("at %s: slot %q is missing", at, k)
			}
			if s := sameLisp(e, g, at+"."+k); s != "" {
				return s
			}
		}
		return ""
	case *Pair:
		l, _ := toSlice(x)
		for i, e := range l {
			if !golisp.PairP(d) || golisp.NilP(d) {
				return bad()
			}
			if s := sameLisp(e, golisp.Car(d), fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
			d = golisp.Cdr(d)
		}
		if golisp.NotNilP(d) {
			return bad()
		}
		return ""
	case float32:
		if golisp.IntegerP(d) {
			if float64(x) == math.Trunc(float64(x)) && float32(golisp.IntegerValue(d)) == x {
				return ""
			}
			return bad()
		}
		if !golisp.FloatP(d) || golisp.FloatValue(d) != x {
			return bad()
		}
		return ""
	}
	if canonD(d) != canon(want) {
		return bad()
	}
	return ""
}

func decodeAll(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one document")
	}
	return x, nil
}

func docDepth(r *rand.Rand) int {
	if r.Intn(40) == 0 {
		return 8
	}
	return r.Intn(5)
}

func countDoc(c *Case, v V) {
	switch x := v.(type) {
	case NilT:
		c.Count("empty_arrays", 1)
	case *Pair:
		l, _ := toSlice(x)
		for _, e := range l {
			countDoc(c, e)
		}
	case *FrameV:
		c.Count("members", len(x.M))
		for _, e := range x.M {
			countDoc(c, e)
		}
	case Str:
		c.Count("strings", 1)
	case float32:
		c.Count("floats", 1)
	case int64:
		c.Count("integers", 1)
		if x > 1<<53 || x < -1<<53 {
			c.Count("integers_above_2^53", 1)
		}
	}
}

func c21Documents(c *Case) {
	r := c.R
	doc := genDoc(r, docDepth(r), true)
	var b bytes.Buffer
	jsonText(&b, r, doc)
	text := b.String()
	c.Desc("%s", text)
	var d *golisp.Data
	var err error
	if r.Intn(3) == 0 {
		d = golisp.JsonStringToLispWithFrames(text)
	} else {
		d, err = golisp.Eval(dlist(symD("json->lisp"), golisp.StringWithValue(text)), golisp.Global)
	}
	if err != nil {
		c.Fail("read:"+text, "json->lisp failed: %v", err)
		return
	}
	if s := sameLisp(doc, d, "document"); s != "" {
		c.Fail("tolisp:"+text, "json->lisp: %s\n%s", s, text)
		return
	}
	back, ok := toJSON(c, d, text)
	if !ok {
		return
	}
	x, err := decodeAll(back)
	if err != nil {
		c.Fail("invalid:"+text, "lisp->json gave invalid JSON (%v): %s", err, back)
		return
	}
	if s := sameDoc(doc, x, "document"); s != "" {
		c.Fail("roundtrip:"+text, "%s\nbecame %s\nfrom %s", s, back, text)
		return
	}
	c.Count("documents", 1)
	countDoc(c, doc)
	c.Distinct(canon(doc))
	if c.Idx < 3 {
		c.Sample(text)
	}
}

func toJSON(c *Case, d *golisp.Data, key string) (string, bool) {
	if c.R.Intn(3) == 0 {
		return golisp.LispWithFramesToJsonString(d), true
	}
	s, err := golisp.Eval(dlist(symD("lisp->json"), quoteD(d)), golisp.Global)
	if err != nil || !golisp.StringP(s) {
		c.Fail("write:"+key, "lisp->json gave %s, %v", canonD(s), err)
		return "", false
	}
	return golisp.StringValue(s), true
}

func c21Data(c *Case) {
	r := c.R
	doc := genDoc(r, docDepth(r), false)
	d := toData(doc)
	before := canonD(d)
	key := canon(doc)
	c.Desc("%s", key)
	text, ok := toJSON(c, d, key)
	if !ok {
		return
	}
	x, err := decodeAll(text)
	if err != nil {
		c.Fail("invalid:"+key, "lisp->json gave invalid JSON (%v): %s", err, text)
		return
	}
	if s := sameDoc(doc, x, "data"); s != "" {
		c.Fail("tojson:"+key, "lisp->json: %s\n%s", s, text)
		return
	}
	back, err := golisp.Eval(dlist(symD("json->lisp"), golisp.StringWithValue(text)), golisp.Global)
	if err != nil || canonD(back) != before {
		c.Fail("back:"+key, "data %s\nbecame %s\nthen %s (err %v)", before, text, canonD(back), err)
		return
	}
	if !golisp.IsEqual(back, d) || !golisp.IsEqual(d, back) {
		c.Fail("equal:"+key, "the data that came back is not equal? to the original %s", before)
		return
	}
	if canonD(d) != before {
		c.Fail("changed:"+key, "converting changed the data from %s to %s", before, canonD(d))
		return
	}
	c.Count("data", 1)
	countDoc(c, doc)
	c.Distinct(key)
}

// values the host has decoded, or made, itself
func goValue(r *rand.Rand, v V) interface{} {
	switch x := v.(type) {
	case NilT:
		return []interface{}{}
	case *Pair:
		l, _ := toSlice(x)
		a := []interface{}{}
		for _, e := range l {
			a = append(a, goValue(r, e))
		}
		if n := len(a); n > 0 && r.Intn(3) == 0 {
			allStr := true
			for _, e := range a {
				if _, ok := e.(string); !ok {
					allStr = false
				}
			}
			if allStr {
				var s []string
				for _, e := range a {
					s = append(s, e.(string))
				}
				return s
			}
		}
		return a
	case *FrameV:
		m := map[string]interface{}{}
		for k, e := range x.M {
			m[strings.TrimSuffix(k, ":")] = goValue(r, e)
		}
		if r.Intn(5) == 0 {
			return &m
		}
		return m
	case Str:
		return string(x)
	case int64:
		switch r.Intn(5) {
		case 0:
			if int64(int32(x)) == x {
				return int32(x)
			}
		case 1:
			if x >= 0 {
				return uint64(x)
			}
		case 2:
			if x > -1<<53 && x < 1<<53 {
				return float64(x)
			}
		case 3:
			return json.Number(strconv.FormatInt(x, 10))
		}
		return x
	case float32:
		if r.Intn(2) == 0 {
			return x
		}
		return float64(x)
	}
	return v
}

func c21Host(c *Case) {
	r := c.R
	doc := genDoc(r, r.Intn(4), true)
	key := canon(doc)
	c.Desc("%s", key)
	d := golisp.JsonToLispWithFrames(goValue(r, doc))
	if s := sameLisp(doc, d, "value"); s != "" {
		c.Fail("host:"+key, "JsonToLispWithFrames: %s", s)
		return
	}
	b, err := json.Marshal(golisp.LispWithFramesToJson(d))
	if err != nil {
		c.Fail("host:"+key, "LispWithFramesToJson gave something that is not JSON: %v", err)
		return
	}
	x, err := decodeAll(string(b))
	if err != nil {
		c.Fail("host:"+key, "%v", err)
		return
	}
	if s := sameDoc(doc, x, "value"); s != "" {
		c.Fail("hostback:"+key, "LispWithFramesToJson: %s", s)
		return
	}
	c.Count("host_values", 1)
	c.Distinct("host" + key)
}

// nesting far deeper than ordinary documents
func c21Deep(c *Case) {
	r := c.R
	n := 50 + r.Intn(900)
	var v V = int64(7)
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			v = list(v)
		} else {
			v = &FrameV{map[string]V{"k:": v}}
		}
	}
	var b bytes.Buffer
	jsonText(&b, r, v)
	c.Desc("nested %d deep, case %d", n, c.Idx)
	d := golisp.JsonStringToLispWithFrames(b.String())
	if s := sameLisp(v, d, ""); s != "" {
		c.Fail(fmt.Sprintf("deep:%d:%d", n, c.Idx), "depth %d: %.300s", n, s)
		return
	}
	x, err := decodeAll(golisp.LispWithFramesToJsonString(d))
	if err != nil {
		c.Fail(fmt.Sprintf("deep:%d:%d", n, c.Idx), "depth %d: %v", n, err)
		return
	}
	if s := sameDoc(v, x, ""); s != "" {
		c.Fail(fmt.Sprintf("deep:%d:%d", n, c.Idx), "depth %d: %.300s", n, s)
	}
	c.Count("deep", 1)
}

// ---- the older conversion, to association lists -------------------------------------------------------------

// alistDoc: a document without empty arrays and objects, which association lists can not tell apart
func alistDoc(r *rand.Rand, d int) V {
	if d <= 0 || r.Intn(5) == 0 {
		switch r.Intn(3) {
		case 0:
			return jsonNumber(r, true)
		case 1:
			return Str(jsonStr(r))
		default:
			return r.Intn(2) == 0
		}
	}
	n := 1 + r.Intn(4)
	if r.Intn(150) == 0 { // wide, and flat
		n, d = 200+r.Intn(900), 1
	}
	if r.Intn(2) == 0 {
		f := &FrameV{map[string]V{}}
		for i := 0; i < n; i++ {
			f.M[jsonStr(r)+":"] = alistDoc(r, d-1)
		}
		return f
	}
	var l []V
	for i := 0; i < n; i++ {
		l = append(l, alistDoc(r, d-1))
	}
	return list(l...)
}

// sameAlist compares lisp data of lists and association lists with the document
func sameAlist(want V, d *golisp.Data, at string) string {
	bad := func() string { return fmt.Sprintf("at %s: got %s, want %s", at, canonD(d), canon(want)) }
	switch x := want.(type) {
	case *FrameV:
		n := 0
		for c := d; golisp.NotNilP(c); c = golisp.Cdr(c) {
			if !golisp.AlistP(c) {
				return bad()
			}
			e := golisp.Car(c)
			if !golisp.StringP(golisp.Car(e)) {
				return bad()
			}
			k := golisp.StringValue(golisp.Car(e)) + ":"
			w, ok := x.M[k]
			if !ok {
				return bad()
			}
			if s := sameAlist(w, golisp.Cdr(e), at+"."+k); s != "" {
				return s
			}
			n++
		}
		if n != len(x.M) {
			return bad()
		}
		return ""
	case *Pair:
		l, _ := toSlice(x)
		for i, e := range l {
			if !golisp.PairP(d) || golisp.NilP(d) {
				return bad()
			}
			if s := sameAlist(e, golisp.Car(d), fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
			d = golisp.Cdr(d)
		}
		if golisp.NotNilP(d) {
			return bad()
		}
		return ""
	}
	return sameLisp(want, d, at)
}

// smallFloats: some integers as a plain encoding/json leaves them
func smallFloats(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			x[k] = smallFloats(r, e)
		}
	case []interface{}:
		for i := range x {
			x[i] = smallFloats(r, x[i])
		}
	case json.Number:
		if f, err := x.Float64(); err == nil && (f > -1<<53 && f < 1<<53) && r.Intn(2) == 0 {
			return f
		}
	}
	return v
}

func c21Alists(c *Case) {
	r := c.R
	doc := alistDoc(r, r.Intn(5))
	var b bytes.Buffer
	jsonText(&b, r, doc)
	text := b.String()
	c.Desc("%s", text)
	var d *golisp.Data
	if r.Intn(3) == 0 {
		x, err := decodeAll(text)
		if err != nil {
			panic(err)
		}
		d = golisp.JsonToLisp(smallFloats(r, x))
	} else {
		d = golisp.JsonStringToLisp(text)
	}
	if s := sameAlist(doc, d, "document"); s != "" {
		c.Fail("alist:"+text, "JsonStringToLisp: %s\n%s", s, text)
		return
	}
	before := canonD(d)
	x, err := decodeAll(golisp.LispToJsonString(d))
	if err != nil {
		c.Fail("alistjson:"+text, "LispToJsonString gave invalid JSON: %v", err)
		return
	}
	if s := sameDoc(doc, x, "document"); s != "" {
		c.Fail("alistback:"+text, "LispToJsonString: %s", s)
		return
	}
	if before != canonD(d) {
		c.Fail("alistchanged:"+text, "LispToJsonString changed its argument from %s to %s", before, canonD(d))
		return
	}
	// a transformation is a function of a node and its parent
	xf, perr := golisp.Parse([]string{"(lambda (n p) (cons p n))", "cons", "(lambda (n p) p)"}[c.Idx%3])
	if perr != nil {
		panic(perr)
	}
	parent := golisp.IntegerWithValue(int64(c.Idx))
	switch r.Intn(6) {
	case 0:
		parent = nil
	case 1:
		parent = golisp.EmptyCons()
	case 2:
		parent = golisp.LispFalse
	case 3:
		parent = golisp.Cons(parent, d)
	}
	if r.Intn(10) == 0 {
		d = nil
	}
	out, err := golisp.TransformJson(xf, d, parent)
	want := []*golisp.Data{golisp.Cons(parent, d), golisp.Cons(d, parent), parent}[c.Idx%3]
	if err != nil || canonD(out) != canonD(want) {
		c.Fail("transform:"+text, "TransformJson gave %s, %v instead of %s", canonD(out), err, canonD(want))
		return
	}
	c.Count("alist_documents", 1)
	c.Distinct("a" + canon(doc))
}

// ---- Go structs of the host ----------------------------------------------------------------------------------

func hostType(r *rand.Rand, d int) reflect.Type {
	basic := []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(false)}
	if d <= 0 || r.Intn(3) > 0 {
		return basic[r.Intn(len(basic))]
	}
	switch r.Intn(6) {
	case 0:
		return reflect.SliceOf(hostType(r, d-1))
	case 1:
		return reflect.ArrayOf(1+r.Intn(3), hostType(r, d-1))
	case 2:
		return reflect.MapOf(reflect.TypeOf(""), hostType(r, d-1))
	case 3:
		t := reflect.PointerTo(hostType(r, d-1))
		for r.Intn(3) == 0 {
			t = reflect.PointerTo(t)
		}
		return t
	default:
		return hostStruct(r, d-1)
	}
}

func hostStruct(r *rand.Rand, d int) reflect.Type {
	var fs []reflect.StructField
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: hostType(r, d)}
		k := f.Type.Kind()
		simple := k != reflect.Ptr && k != reflect.Map && k != reflect.Struct && k != reflect.Array && k != reflect.Slice
		name := []string{"", fmt.Sprintf("n%d", i), fmt.Sprintf("a-b_%d", i), fmt.Sprintf("key%d/x", i)}[r.Intn(4)]
		opts := ""
		if r.Intn(3) == 0 && (simple || k == reflect.Ptr || k == reflect.Slice) {
			opts += ",omitempty"
		}
		if r.Intn(4) == 0 && simple && k != reflect.Float32 && k != reflect.Float64 {
			opts += ",string"
		}
		if opts == "" && r.Intn(6) == 0 {
			opts = ","
		}
		switch {
		case r.Intn(10) == 0:
			f.Tag = `json:"-"`
		case r.Intn(10) == 0:
			f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "main"
		case name+opts != "":
			f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", name+opts))
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func hostFill(r *rand.Rand, v reflect.Value, omit bool) {
	zero := r.Intn(4) == 0
	switch k := v.Kind(); k {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !zero {
			v.SetInt(genInt(r)) // truncated to the size
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !zero {
			v.SetUint(uint64(genInt(r)) >> 1)
		}
	case reflect.Float32, reflect.Float64:
		for !zero {
			f := genFloat(r)
			if f == f && f-f == 0 && (f > -1<<24 && f < 0 || f > 0 && f < 1<<24) { // spelt exactly whether or not it is integral
				v.SetFloat(float64(f))
				break
			}
		}
	case reflect.String:
		if !zero {
			v.SetString(jsonStr(r))
		}
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Slice:
		n := r.Intn(4)
		if omit && n == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.Intn(2)))
		for i := 0; i < n; i++ {
			hostFill(r, v.Index(i), false)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			hostFill(r, v.Index(i), false)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := r.Intn(3); n > 0; n-- {
			e := reflect.New(v.Type().Elem()).Elem()
			hostFill(r, e, false)
			v.SetMapIndex(reflect.ValueOf(jsonStr(r)), e)
		}
	case reflect.Ptr:
		if omit { // only an absent one: what omitempty means for a pointer to zero is not settled
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		hostFill(r, v.Elem(), false)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" {
				hostFill(r, v.Field(i), strings.Contains(f.Tag.Get("json"), "omitempty"))
			}
		}
	}
}

func sameDecoded(want, got interface{}, at string) string {
	bad := fmt.Sprintf("at %s: got %#v, want %#v", at, got, want)
	switch x := want.(type) {
	case map[string]interface{}:
		m, ok := got.(map[string]interface{})
		if !ok || len(m) != len(x) {
			return bad
		}
		for k, e := range x {
			g, ok := m[k]
			if !ok {
				return bad
			}
			if s := sameDecoded(e, g, at+"."+k); s != "" {
				return s
			}
		}
	case []interface{}:
		a, ok := got.([]interface{})
		if !ok || len(a) != len(x) {
			return bad
		}
		for i := range x {
			if s := sameDecoded(x[i], a[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case json.Number:
		n, ok := got.(json.Number)
		if !ok {
			return bad
		}
		if x == n {
			return ""
		}
		a, e1 := strconv.ParseFloat(string(x), 64)
		b, e2 := strconv.ParseFloat(string(n), 64)
		_, i1 := strconv.ParseInt(string(x), 10, 64)
		_, i2 := strconv.ParseInt(string(n), 10, 64)
		if e1 != nil || e2 != nil || i1 == nil && i2 == nil || float32(a) != float32(b) {
			return bad
		}
	default:
		if want != got {
			return bad
		}
	}
	return ""
}

func c21Structs(c *Case) {
	r := c.R
	t := hostStruct(r, r.Intn(4))
	p := reflect.New(t)
	hostFill(r, p.Elem(), false)
	v := p.Elem().Interface()
	if r.Intn(3) == 0 {
		v = p.Interface()
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	want, err := decodeAll(string(b))
	if err != nil {
		panic(err)
	}
	key := t.String() + "\n" + string(b)
	c.Desc("%s", key)
	d := golisp.JsonToLispWithFrames(v)
	got, err := decodeAll(golisp.LispWithFramesToJsonString(d))
	if err != nil {
		c.Fail("struct:"+key, "the JSON of the struct's frame is invalid: %v\n%s", err, key)
		return
	}
	if s := sameDecoded(want, got, "struct"); s != "" {
		c.Fail("struct:"+key, "%s\n%s", s, key)
		return
	}
	c.Count("structs", 1)
	c.Distinct("s" + key)
}

// ---- text that is not JSON -----------------------------------------------------------------------------------

func c21Malformed(c *Case) {
	r := c.R
	var b bytes.Buffer
	jsonText(&b, r, genDoc(r, r.Intn(4), true))
	text := b.Bytes()
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := 0
		if len(text) > 0 {
			i = r.Intn(len(text))
		}
		ch := "{}[]:,\"\\ -.e09tfn'\x00\xff#"[r.Intn(20)]
		switch r.Intn(4) {
		case 0:
			text = text[:i]
		case 1:
			text = append(text[:i:i], text[min(i+1, len(text)):]...)
		case 2:
			text = append(append(text[:i:i], ch), text[i:]...)
		default:
			text = append(append([]byte{}, text...), ch)
		}
	}
	s := string(text)
	if _, err := decodeAll(s); err == nil || !utf8.ValidString(s) {
		c.Count("still_valid", 1)
		return
	}
	c.Desc("%q", s)
	d, err := golisp.Eval(dlist(symD("json->lisp"), golisp.StringWithValue(s)), golisp.Global)
	if err != nil || !golisp.FrameP(d) || len(golisp.FrameValue(d).Data) != 0 {
		c.Fail("malformed:"+s, "json->lisp of %q, which is not JSON, gave %s, %v instead of an empty frame", s, canonD(d), err)
		return
	}
	// and one like any other
	prog := golisp.InternalMakeList(symD("begin"),
		golisp.InternalMakeList(symD("set-slot!"), quoteD(d), symD("a:"), golisp.IntegerWithValue(int64(c.Idx))),
		golisp.InternalMakeList(symD("get-slot"), quoteD(d), symD("a:")))
	v, err := golisp.Eval(prog, golisp.Global)
	if err != nil || canonD(v) != strconv.Itoa(c.Idx) {
		c.Fail("malformedframe:"+s, "the frame json->lisp gave for %q can not hold a slot: %s, %v", s, canonD(v), err)
		return
	}
	// the older function refuses it
	refused := func() (p bool) {
		defer func() { p = recover() != nil }()
		golisp.JsonStringToLisp(s)
		return
	}()
	if !refused {
		c.Fail("malformedold:"+s, "JsonStringToLisp took %q, which is not JSON", s)
		return
	}
	c.Count("malformed", 1)
	c.Distinct("m" + s)
}

func init() {
	register(&Check{ID: "C21",
		Rule: "documents: random JSON documents written in random ways (white space, escapes, number spellings, member order) are converted to lisp and back; data: random lisp data to JSON and back; host: Go values through the host API; deep: nesting up to 950; alists: the older conversion to association lists, both ways, and TransformJson; structs: random Go struct types and values converted and compared with what encoding/json says of the same value; malformed: damaged documents give an empty, usable frame (or a refusal from the older function). Judged by Go's JSON decoder with exact numbers. Distinct: the document.",
		Assumptions: []string{"numbers are 64-bit integers or values a 32-bit float represents; null, repeated member names, functions in slots and strings that are not UTF-8 are not generated",
			"Go's encoding/json is trusted as the reader of JSON text"},
		Setup: setupPrims,
		Need:  []string{"documents", "data", "host_values", "deep", "integers_above_2^53", "floats", "empty_arrays", "alist_documents", "structs", "malformed"},
		Phases: []Phase{
			{"documents", 40000, 800000, c21Documents},
			{"data", 30000, 600000, c21Data},
			{"host", 16000, 200000, c21Host},
			{"deep", 100, 1000, c21Deep},
			{"alists", 20000, 300000, c21Alists},
			{"structs", 12000, 200000, c21Structs},
			{"malformed", 10000, 200000, c21Malformed},
		}})
}
