package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/steelseries/golisp"
)

// makeFrameForm: the form a frame literal is read as
func asRead(v V) V {
	switch x := v.(type) {
	case *Pair:
		return cons(asRead(x.A), asRead(x.D))
	}
	return v
}

func init() {
	register(&Check{
		ID: "C01", Setup: setupPrims, Need: []string{"round_trips", "frames", "values_with_bytes"},
		Rule:        "random data (every integer/float width incl. extremes and subnormals, strings over awkward alphabets, symbols, nested proper/dotted lists, quote/quasiquote forms, byte arrays, frames of self-evaluating values) built through the Go API and through the reader, printed, read back and compared structurally; non-trivial: datum is not an empty list, distinct by printed text",
		Assumptions: []string{"strings are valid UTF-8", "a quote form without operand, printed '() by a pinned test, is outside the claim"},
		Phases: []Phase{
			{Name: "values", Quick: 60000, Thorough: 1200000, Run: c01Values},
			{Name: "floats", Quick: 60000, Thorough: 1500000, Run: c01Floats},
			{Name: "frames", Quick: 8000, Thorough: 100000, Run: c01Frames},
		},
	})
	register(&Check{
		ID: "C02", Setup: setupPrims, Need: []string{"streams", "garbage_read", "garbage_rejected", "truncations", "evaluated"},
		Rule:        "data rendered as token sequences with random white space, comments, number spellings and adjacency, read one by one, all at once and evaluated in order; truncated, mutated and arbitrary texts for termination, no crash and prefix preservation; non-trivial: at least two expressions or a rejected text, distinct by text",
		Assumptions: []string{"a stray closing bracket at top level may be read as a symbol (a pinned test requires it)"},
		Phases: []Phase{
			{Name: "streams", Quick: 25000, Thorough: 400000, Run: c02Streams},
			{Name: "truncate", Quick: 15000, Thorough: 200000, Run: c02Truncate},
			{Name: "garbage", Quick: 40000, Thorough: 800000, Run: c02Garbage},
			{Name: "deep", Quick: 40, Thorough: 200, Run: c02Deep},
		},
	})
}

var allOpts = valOpts{bytes: true, dotted: true, quoted: true, floats: true, syms: true}

func c01Values(c *Case) {
	v := genVal(c.R, 1+c.R.Intn(5), allOpts)
	if bareQuote(v) {
		return
	}
	want := canon(v)
	c.Desc("%s", want)
	d := toData(v)
	c01Check(c, d, want)
}

func c01Floats(c *Case) {
	f := genFloat(c.R)
	var v V = f
	if c.R.Intn(2) == 0 {
		v = genInt(c.R)
	}
	c.Desc("%s", canon(v))
	c01Check(c, toData(v), canon(v))
}

func c01Check(c *Case, d *golisp.Data, want string) {
	text := golisp.String(d)
	if got := canonD(d); got != want {
		c.Fail("printing-changed:"+want, "datum %s became %s by printing it", want, got)
		return
	}
	r, err := golisp.Parse(text)
	if err != nil {
		c.Fail("unreadable:"+want, "%s printed as %q which is rejected: %v", want, text, err)
		return
	}
	if got := canonD(r); got != want {
		c.Fail("differs:"+want, "%s printed as %q which reads as %s", want, text, got)
		return
	}
	if !strings.Contains(want, "F:nan") && !golisp.IsEqual(d, r) {
		c.Fail("noteq:"+want, "%s printed as %q and read back is not equal (IsEqual) to the original", want, text)
	}
	if t2 := golisp.String(r); t2 != text {
		c.Fail("reprint:"+want, "%s prints as %q but after reading as %q", want, text, t2)
	}
	all, err := golisp.ParseAll(text + " " + text)
	if err != nil || len(all) != 2 || canonD(all[0]) != want || canonD(all[1]) != want {
		c.Fail("twice:"+want, "%q twice in a row reads as %d data (err %v)", text, len(all), err)
	}
	c.Count("round_trips", 1)
	if strings.Contains(want, "B[") {
		c.Count("values_with_bytes", 1)
	}
	if want != "()" {
		c.Distinct(text)
	}
	if c.Idx < 3 {
		c.Sample(text)
	}
}

// frames of self-evaluating values: reading and evaluating the printed text gives an equal frame
func c01Frames(c *Case) {
	o := valOpts{bytes: true, floats: true}
	var gen func(d int) V
	gen = func(d int) V {
		f := &FrameV{map[string]V{}}
		for i := 0; i < c.R.Intn(5); i++ {
			k := fmt.Sprintf("s%s:", strings.Repeat("k", c.R.Intn(4)))
			if d > 0 && c.R.Intn(3) == 0 {
				f.M[k] = gen(d - 1)
				continue
			}
			f.M[k] = genAtom(c.R, o)
		}
		return f
	}
	v := gen(3)
	want := canon(v)
	c.Desc("%s", want)
	d := toData(v)
	text := golisp.String(d)
	if got := canonD(d); got != want {
		c.Fail("printing-changed:"+want, "frame %s became %s by printing it", want, got)
		return
	}
	r, err := golisp.ParseAndEvalInEnvironment(text, freshEnv())
	if err != nil {
		c.Fail("unreadable:"+want, "frame %s printed as %q: %v", want, text, err)
		return
	}
	if got := canonD(r); got != want {
		c.Fail("differs:"+want, "frame %s printed as %q which gives %s", want, text, got)
		return
	}
	if !golisp.IsEqual(d, r) || !golisp.IsEqual(r, d) {
		c.Fail("noteq:"+want, "frame %s printed as %q and read back is not equal", want, text)
	}
	r2, err := golisp.ParseAndEvalInEnvironment(golisp.String(r), freshEnv())
	if err != nil || canonD(r2) != want {
		c.Fail("second:"+want, "frame %s after two round trips is %s (err %v)", want, golisp.String(r2), err)
	}
	c.Count("frames", 1)
	c.Distinct(text)
}

// ---- C02 ---------------------------------------------------------------------------

func zeros(r *rand.Rand) string {
	if r.Intn(4) > 0 {
		return ""
	}
	return strings.Repeat("0", r.Intn(24))
}

// renderTokens gives the tokens of v; each token is text that needs a separator unless it is punctuation
func tokens(r *rand.Rand, v V, out []string) []string {
	switch x := v.(type) {
	case int64:
		switch {
		case x >= 0 && r.Intn(5) == 0:
			return append(out, "0x"+zeros(r)+fmt.Sprintf("%x", x))
		case x >= 0 && r.Intn(6) == 0:
			return append(out, "#x"+zeros(r)+fmt.Sprintf("%X", x))
		case x >= 0 && (x < 1<<20 || r.Intn(4) == 0) && r.Intn(6) == 0:
			return append(out, "#b"+zeros(r)+fmt.Sprintf("%b", x))
		}
		return append(out, fmt.Sprint(x))
	case Str:
		return append(out, spellStr(r, string(x)))
	case *Bytes:
		out = append(out, "[")
		for _, b := range x.B {
			out = append(out, fmt.Sprint(b))
		}
		return append(out, "]")
	case *Pair:
		if s, ok := x.A.(Sym); ok {
			if d, ok := x.D.(*Pair); ok && isNil(d.D) && r.Intn(4) > 0 {
				pre := map[Sym]string{"quote": "'", "quasiquote": "`", "unquote": ",", "unquote-splicing": ",@"}[s]
				if pre != "" {
					return tokens(r, d.A, append(out, pre))
				}
			}
		}
		out = append(out, "(")
		out = tokens(r, x.A, out)
		dots := r.Intn(2) == 0
		var t V = x.D
		for {
			p, ok := t.(*Pair)
			if !ok {
				break
			}
			if dots && r.Intn(12) == 0 { // (a . (b c)) is (a b c)
				break
			}
			out = tokens(r, p.A, out)
			t = p.D
		}
		if !isNil(t) {
			out = append(out, ".")
			out = tokens(r, t, out)
		}
		return append(out, ")")
	case NilT:
		return append(out, "(", ")")
	}
	return append(out, show(v))
}

// spellStr: a string literal; a backslash stands before n for a new line and before any other character for itself
func spellStr(r *rand.Rand, s string) string {
	if r.Intn(3) > 0 {
		return quoteStr(s)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, ch := range s {
		switch {
		case ch == '\n' && r.Intn(3) > 0:
			b.WriteString("\\n")
			continue
		case ch == '"' || ch == '\\' || ch != 'n' && r.Intn(3) == 0:
			b.WriteByte('\\')
		}
		b.WriteRune(ch)
	}
	b.WriteByte('"')
	return b.String()
}

func sep(r *rand.Rand, a, b string) string {
	need := true
	if a == "" || strings.HasSuffix(a, "(") || strings.HasSuffix(a, "[") || a == ")" || a == "]" || a == "'" || a == "`" || a == ",@" || a[0] == '"' {
		need = false
	}
	if b == ")" || b == "]" || b == "(" || b == "[" || b[0] == '"' || b == "'" || b == "`" || b == "," || b == ",@" {
		need = false
	}
	if a == "." || b == "." {
		need = !(b == "(" || b == ")" || b[0] == '"') || a != "."
	}
	if a == "," { // ,@ would be another token
		need = strings.HasPrefix(b, "@")
	}
	if !need && r.Intn(2) == 0 {
		return ""
	}
	var s strings.Builder
	for i := 0; i < 1+r.Intn(3); i++ {
		switch r.Intn(8) {
		case 0:
			s.WriteString("\n")
		case 1:
			s.WriteString("\t")
		case 2:
			s.WriteString("\r\n")
		case 3:
			s.WriteString([]string{" ; comment ( \" ' [\n", ";;; ) ] \"\n", ";\n", " ;a;b\n\n", ";" + commentText(r) + "\n", " ;" + commentText(r) + "\r\n"}[r.Intn(6)])
		default:
			s.WriteString(" ")
		}
	}
	return s.String()
}

// commentText: what a comment may say; code, most of all
func commentText(r *rand.Rand) string {
	parts := []string{"(", ")", "))", ")))", "]", "}", "{", "[", "\"", "'", "`", ",@", ";", ";;", "\\", "\\n", "#", "#|", "|#", "#;", "|", " ", "  ", "a", "(define x 1)", "foo:", "1", "-", ".", " . ", "\t", "é", "世", "\r", "\x00", "\u2028", "\u0085", "\v", "\f", "\ufeff", "#t", "0x", "@", "~%", "*", "/*", "*/", "//"}
	var b strings.Builder
	for n := r.Intn(8); n > 0; n-- {
		b.WriteString(parts[r.Intn(len(parts))])
	}
	return b.String()
}

func render(r *rand.Rand, vs []V) (text string) {
	var toks []string
	for _, v := range vs {
		toks = tokens(r, v, toks)
	}
	var b strings.Builder
	prev := ""
	for _, t := range toks {
		b.WriteString(sep(r, prev, t))
		b.WriteString(t)
		prev = t
	}
	switch r.Intn(5) {
	case 0:
		b.WriteString("\n")
	case 1:
		b.WriteString(" ; trailing comment" + commentText(r))
	case 2:
		b.WriteString("  \n ;x\n ")
	}
	return b.String()
}

func c02Streams(c *Case) {
	var vs []V
	for i := 0; i < 1+c.R.Intn(6); i++ {
		v := genVal(c.R, c.R.Intn(5), allOpts)
		if bareQuote(v) {
			v = int64(i)
		}
		if c.R.Intn(6) == 0 { // characters a backslash might mean something for
			var b strings.Builder
			for n := c.R.Intn(8); n > 0; n-- {
				b.WriteByte("abfnrtvxu0eE\\\"' \n\t7{}"[c.R.Intn(21)])
			}
			v = list(Str(b.String()), v)
			c.Count("escapes", 1)
		}
		vs = append(vs, v)
	}
	if c.R.Intn(250) == 0 { // long data and long texts
		n := 900 + c.R.Intn(4000)
		l := make([]V, n)
		for i := range l {
			l[i] = int64(c.R.Intn(300) - 20)
			if c.R.Intn(9) == 0 {
				l[i] = Str("x")
			}
		}
		if c.R.Intn(3) == 0 {
			vs = append(vs, l...)
		} else {
			vs = append(vs, listTail(l, []V{Nil, Nil, Sym("z")}[c.R.Intn(3)]))
		}
		c.Count("long", 1)
	}
	text := render(c.R, vs)
	c.Desc("%q", text)
	all, err := golisp.ParseAll(text)
	if err != nil {
		c.Fail("rejected:"+text, "valid text rejected: %v\n%s", err, text)
		return
	}
	if len(all) != len(vs) {
		c.Fail("count:"+text, "%d expressions read as %d\n%s", len(vs), len(all), text)
		return
	}
	for i, v := range vs {
		if canonD(all[i]) != canon(v) {
			c.Fail("diff:"+text, "expression %d reads as %s, want %s\n%s", i, canonD(all[i]), canon(v), text)
			return
		}
	}
	first, err := golisp.Parse(text)
	if err != nil || canonD(first) != canon(vs[0]) {
		c.Fail("first:"+text, "first expression alone reads as %s (err %v), want %s\n%s", canonD(first), err, canon(vs[0]), text)
	}
	c.Count("streams", 1)
	if len(vs) > 1 {
		c.Distinct(text)
	}
	if c.Idx < 3 {
		c.Sample(text)
	}
	// evaluating the text evaluates each expression once, in order
	var fs []V
	for i, v := range vs {
		fs = append(fs, list(S("vh-tick"), int64(i), list(S("quote"), v)))
		if c.R.Intn(4) == 0 {
			fs = append(fs, Nil)
		}
	}
	etext := render(c.R, fs)
	c.Desc("%q", etext)
	rec.take()
	val, err := golisp.ParseAndEvalAllInEnvironment(etext, freshEnv())
	tr := rec.take()
	var want []string
	for i, v := range vs {
		want = append(want, fmt.Sprintf("%d %s", i, canon(v)))
	}
	wv := "()"
	if _, ok := fs[len(fs)-1].(NilT); !ok {
		wv = canon(vs[len(vs)-1])
	}
	if err != nil || strings.Join(tr, "\n") != strings.Join(want, "\n") || canonD(val) != wv {
		c.Fail("eval:"+etext, "evaluating the text: err %v, value %s want %s\ngot  %v\nwant %v\n%s", err, canonD(val), wv, tr, want, etext)
	}
	c.Count("evaluated", 1)
}

// a compound expression cut anywhere inside must be rejected; what stands before it is still delivered
func c02Truncate(c *Case) {
	v := genVal(c.R, 1+c.R.Intn(4), allOpts)
	if bareQuote(v) {
		return
	}
	switch v.(type) {
	case *Pair, *Bytes, Str:
	default:
		v = list(v, v)
	}
	full := strings.TrimSpace(show(v))
	switch c.R.Intn(3) {
	case 0:
		toks := tokens(c.R, v, nil)
		full = ""
		for i, t := range toks {
			if i > 0 {
				full += " "
			}
			full += t
		}
	}
	rs := []rune(full)
	// quote prefixes: cutting after 'x leaves a complete datum, so wrap
	if rs[0] != '(' && rs[0] != '[' && rs[0] != '"' {
		rs = []rune("(" + full + ")")
	}
	k := 1 + c.R.Intn(len(rs)-1)
	cut := string(rs[:k])
	pre := []V{int64(1), list(S("a")), Str("p")}[:c.R.Intn(4)]
	text := render(c.R, pre)
	if len(pre) > 0 {
		text += "\n"
	} else {
		text = ""
	}
	text += cut
	c.Desc("%q", text)
	all, err := golisp.ParseAll(text)
	c.Count("truncations", 1)
	c.Distinct(text)
	if err == nil {
		c.Fail("accepted:"+text, "truncated text %q was accepted as %d expressions", text, len(all))
		return
	}
	if len(all) != len(pre) {
		c.Fail("prefix:"+text, "truncated text %q: %d expressions before the truncated one were delivered, want %d (err %v)", text, len(all), len(pre), err)
		return
	}
	for i := range pre {
		if canonD(all[i]) != canon(pre[i]) {
			c.Fail("prefixdiff:"+text, "%q: expression %d read as %s", text, i, canonD(all[i]))
		}
	}
	if d, err := golisp.Parse(cut); err == nil {
		c.Fail("accepted1:"+cut, "truncated text %q was read as %s", cut, golisp.String(d))
	}
	rec.take()
	_, err = golisp.ParseAndEvalAllInEnvironment("(vh-tick 1) (vh-tick 2)"+cut, freshEnv())
	if tr := rec.take(); err == nil || strings.Join(tr, ",") != "1,2" {
		c.Fail("evaltrunc:"+cut, "evaluating two calls followed by truncated %q: err %v, events %v", cut, err, tr)
	}
}

var garbageTok = []string{"(", ")", "[", "]", "{", "}", "'", "`", ",", ",@", ".", "\"", "\\", ";", "#", "#t", "#f", "#x", "#b", "0x", "0xz", "-", "-1", "1.2.3", "1.", ".5", "1e5", "99999999999999999999", "#\\a", "|", "||", "a", "foo:", "a.b", "\n", " ", "\x00", "\xff", "\xc3", "²", "٣", "é", "\u200b", "{a: 1}", "(1 . 2)", "( . )", "( . 1)", "(1 . )", "(1 . 2 3)", "[1 2", "[256]", "[-1]", "[a]", "[1.5]", "[\"x\"]", "'", "')", "()", "#x-1", "#tfoo", "..", "...", "\"a\\\"b\"", "\"unterminated", "@", "@a", ",@@a", "quote"}

const junk = "()[]{}'`,@.\"\\;# a1-x\n"

func c02Garbage(c *Case) {
	var b strings.Builder
	switch c.R.Intn(4) {
	case 0:
		for i := 0; i < 1+c.R.Intn(12); i++ {
			b.WriteString(garbageTok[c.R.Intn(len(garbageTok))])
			if c.R.Intn(3) == 0 {
				b.WriteString(" ")
			}
		}
	case 1:
		p := make([]byte, 1+c.R.Intn(30))
		c.R.Read(p)
		b.Write(p)
	case 2: // a valid text with a mutation
		v := genVal(c.R, 4, allOpts)
		s := []byte(render(c.R, []V{v}))
		for i := 0; i < 1+c.R.Intn(3) && len(s) > 0; i++ {
			k := c.R.Intn(len(s))
			switch c.R.Intn(3) {
			case 0:
				s = append(s[:k], s[k+1:]...)
			case 1:
				s[k] = byte(junk[c.R.Intn(len(junk))])
			case 2:
				s = append(s[:k], append([]byte(garbageTok[c.R.Intn(len(garbageTok))]), s[k:]...)...)
			}
		}
		b.Write(s)
	case 3:
		for i := 0; i < 1+c.R.Intn(25); i++ {
			b.WriteByte(junk[c.R.Intn(len(junk))])
		}
	}
	g := b.String()
	c.Desc("%q", g)
	all, err := golisp.ParseAll(g)
	if err != nil {
		c.Count("garbage_rejected", 1)
	} else {
		c.Count("garbage_read", 1)
	}
	c.Distinct(g)
	var cs []string
	for _, d := range all {
		cs = append(cs, canonD(d))
		golisp.String(d) // printable
	}
	// reading is deterministic and the first expression alone is the same
	all2, err2 := golisp.ParseAll(g)
	if len(all2) != len(all) || (err == nil) != (err2 == nil) {
		c.Fail("nondet:"+g, "reading %q twice differs: %d/%v vs %d/%v", g, len(all), err, len(all2), err2)
	}
	one, err1 := golisp.Parse(g)
	if len(all) > 0 {
		if err1 != nil || canonD(one) != cs[0] {
			c.Fail("first:"+g, "%q: first of all is %s, alone it is %s (err %v)", g, cs[0], canonD(one), err1)
		}
	} else if (err == nil) != (err1 == nil) {
		c.Fail("first0:"+g, "%q: reading all gives error %v, reading one %v", g, err, err1)
	}
	// complete expressions in front are all delivered whatever follows
	pre := []V{int64(12), list(S("x"), Nil), Str("s;("), &Bytes{[]byte{1}}, Nil}[c.R.Intn(5)]
	t2 := show(pre) + "\n" + g
	c.Desc("%q", t2)
	all3, err3 := golisp.ParseAll(t2)
	if len(all3) != len(all)+1 || (err3 == nil) != (err == nil) {
		c.Fail("after:"+t2, "%q reads as %d expressions (err %v) but after %s as %d (err %v)", g, len(all), err, show(pre), len(all3), err3)
		return
	}
	for i := range all3 {
		w := canon(pre)
		if i > 0 {
			w = cs[i-1]
		}
		if canonD(all3[i]) != w {
			c.Fail("afterdiff:"+t2, "%q: expression %d reads as %s, want %s", t2, i, canonD(all3[i]), w)
		}
	}
}

// deep and long inputs
func c02Deep(c *Case) {
	n := 200 * (1 + c.R.Intn(20))
	open := []string{"(", "[(", "'", "`", ",", "{a: ", "(a . "}[c.R.Intn(7)]
	text := strings.Repeat(open, n)
	c.Desc("%d times %q", n, open)
	if _, err := golisp.ParseAll(text); err == nil {
		c.Fail("deep-accepted:"+open, "%d times %q was accepted", n, open)
	}
	c.Count("truncations", 1)
	if open == "(" {
		all, err := golisp.ParseAll(text + "1" + strings.Repeat(")", n))
		if err != nil || len(all) != 1 {
			c.Fail("deep:"+fmt.Sprint(n), "nesting depth %d: %v", n, err)
		}
	}
	m := 1000 * (1 + c.R.Intn(10))
	all, err := golisp.ParseAll(strings.Repeat("(a \"b\" 1) ;c\n", m))
	if err != nil || len(all) != m {
		c.Fail("long:"+fmt.Sprint(m), "%d expressions read as %d (err %v)", m, len(all), err)
	}
	c.Distinct(fmt.Sprint(open, n, m))
}
