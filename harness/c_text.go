package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/steelseries/golisp"
)

// ---- C16: strings ------------------------------------------------------------------------------

func genStrPair(r *rand.Rand) (string, string) {
	a := genStr(r)
	b := genStr(r)
	switch r.Intn(6) {
	case 0:
		b = a
	case 1:
		rs := []rune(a)
		if len(rs) > 0 {
			i, j := r.Intn(len(rs)+1), r.Intn(len(rs)+1)
			if i > j {
				i, j = j, i
			}
			b = string(rs[i:j])
		}
	case 2:
		b = strings.ToUpper(a)
	case 3:
		b = a + genStr(r)
	}
	if r.Intn(2) == 0 {
		return b, a
	}
	return a, b
}

// independent versions of the string operations

func mIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func mSplit(s, sep string) []string {
	var out []string
	if sep == "" {
		for _, ch := range s {
			out = append(out, string(ch))
		}
		return out
	}
	for {
		i := mIndex(s, sep)
		if i < 0 {
			return append(out, s)
		}
		out = append(out, s[:i])
		s = s[i+len(sep):]
	}
}

func mTrim(s, set string, left, right bool) string {
	rs := []rune(s)
	in := func(c rune) bool {
		for _, x := range set {
			if x == c {
				return true
			}
		}
		return false
	}
	for left && len(rs) > 0 && in(rs[0]) {
		rs = rs[1:]
	}
	for right && len(rs) > 0 && in(rs[len(rs)-1]) {
		rs = rs[:len(rs)-1]
	}
	return string(rs)
}

func mMap(s string, f func(rune) rune) string {
	var b strings.Builder
	for _, c := range s {
		b.WriteRune(f(c))
	}
	return b.String()
}
func mUp(s string) string   { return mMap(s, unicode.ToUpper) }
func mDown(s string) string { return mMap(s, unicode.ToLower) }
func mCap(s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return ""
	}
	return mUp(string(rs[:1])) + mDown(string(rs[1:]))
}

func mCmp(a, b string) int {
	for i := 0; ; i++ {
		switch {
		case i == len(a) && i == len(b):
			return 0
		case i == len(a):
			return -1
		case i == len(b):
			return 1
		case a[i] < b[i]:
			return -1
		case a[i] > b[i]:
			return 1
		}
	}
}

func strs(l []string) V {
	var o []V
	for _, s := range l {
		o = append(o, Str(s))
	}
	return list(o...)
}

func c16Ops(c *Case) {
	r := c.R
	a, b := genStrPair(r)
	switch r.Intn(16) {
	case 0:
		checkCall(c, "string-length", []V{Str(a)}, wV(int64(len(a))))
		checkCall(c, "string-null?", []V{Str(a)}, wV(a == ""))
	case 1, 2:
		i, j := r.Intn(len(a)+2), r.Intn(len(a)+2)
		if r.Intn(4) > 0 && i > j {
			i, j = j, i
		}
		if r.Intn(10) == 0 {
			i = -1 - r.Intn(3)
		}
		if r.Intn(20) == 0 {
			j = -1
		}
		w := wErr
		if 0 <= i && i <= j && j <= len(a) {
			if !utf8.ValidString(a[i:j]) {
				return
			}
			w = wV(Str(a[i:j]))
		}
		checkCall(c, "substring", []V{Str(a), int64(i), int64(j)}, w)
	case 3:
		checkCall(c, "substring?", []V{Str(b), Str(a)}, wV(mIndex(a, b) >= 0))
	case 4:
		checkCall(c, "string-prefix?", []V{Str(b), Str(a)}, wV(len(b) <= len(a) && a[:len(b)] == b))
	case 5:
		checkCall(c, "string-suffix?", []V{Str(b), Str(a)}, wV(len(b) <= len(a) && a[len(a)-len(b):] == b))
	case 6:
		k := r.Intn(3)
		checkCall(c, []string{"string-upcase", "string-downcase", "string-capitalize"}[k], []V{Str(a)}, wV(Str([]func(string) string{mUp, mDown, mCap}[k](a))))
	case 7, 8:
		k := r.Intn(3)
		op := []string{"string-trim", "string-trim-left", "string-trim-right"}[k]
		args := []V{Str(a)}
		set := " \t\r\n\v\f"
		if r.Intn(2) == 0 {
			set = b
			if len(a) > 0 && r.Intn(2) == 0 {
				set += string([]rune(a)[:1])
			}
			args = append(args, Str(set))
		} else if r.Intn(2) == 0 {
			pad := []string{" ", "\n", "\t", "  ", " \r\n", "\v\f"}
			a = pad[r.Intn(6)] + a + pad[r.Intn(6)]
			args[0] = Str(a)
		}
		checkCall(c, op, args, wV(Str(mTrim(a, set, k != 2, k != 1))))
	case 9, 10:
		sep := []string{",", " ", "", "ab", "\n", b, "::", "aa"}[r.Intn(8)]
		if r.Intn(2) == 0 {
			a = strings.Join([]string{a, genStr(r), "", genStr(r)}[:r.Intn(5)], sep)
		}
		d, err := checkCall(c, "string-split", []V{Str(a), Str(sep)}, wV(strs(mSplit(a, sep))))
		if err == nil {
			env := freshEnv()
			env.BindLocallyTo(symD("pieces"), d)
			j, err := evalText("(string-join pieces "+quoteStr(sep)+")", env)
			judge(c, "string-join of string-split "+quoteStr(a)+" "+quoteStr(sep), j, err, wV(Str(a)))
			c.Count("split_joined", 1)
		}
	case 11:
		var l []string
		for i := 0; i < r.Intn(5); i++ {
			l = append(l, genStr(r))
		}
		args := []V{strs(l)}
		sep := ""
		if r.Intn(2) == 0 {
			sep = b
			args = append(args, Str(b))
		}
		w := ""
		for i, s := range l {
			if i > 0 {
				w += sep
			}
			w += s
		}
		checkCall(c, "string-join", args, wV(Str(w)))
	case 12, 13:
		k := mCmp(a, b)
		x, y := mDown(a), mDown(b)
		kc := mCmp(x, y)
		ops := []string{"=", "<", ">", "<=", ">="}
		i := r.Intn(5)
		f := func(k int) bool { return []bool{k == 0, k < 0, k > 0, k <= 0, k >= 0}[i] }
		checkCall(c, "string"+ops[i]+"?", []V{Str(a), Str(b)}, wV(f(k)))
		checkCall(c, "string-ci"+ops[i]+"?", []V{Str(a), Str(b)}, wV(f(kc)))
	case 14: // str: the displayed forms one after the other
		var args []V
		w := ""
		n := 1 + r.Intn(4)
		if r.Intn(6) == 0 {
			n = 1 + r.Intn(40)
		}
		for i := 0; i < n; i++ {
			v := genElem(r, 2)
			args = append(args, v)
			if s, ok := v.(Str); ok {
				w += string(s)
			} else {
				w += printed(v)
			}
		}
		checkCall(c, "str", args, wV(Str(w)))
	case 15: // symbols
		if a == "" {
			a = "x"
		}
		if r.Intn(4) == 0 {
			a = []string{" ", "", "\t"}[r.Intn(3)] + a + []string{" ", "", "\n"}[r.Intn(3)]
		}
		d, err := checkCall(c, "intern", []V{Str(a)}, wV(Sym(a)))
		if err == nil {
			env := freshEnv()
			env.BindLocallyTo(symD("sy"), d)
			s, err := evalText("(str sy)", env)
			judge(c, "(str (intern "+quoteStr(a)+"))", s, err, wV(Str(a)))
		}
	}
}

// bang versions change exactly the string they are given, and all names for it
func c16Bang(c *Case) {
	r := c.R
	env := freshEnv()
	type cell struct{ s string }
	vars := map[string]*cell{}
	var names []string
	var prog []string
	def := func(nm, expr string, v *cell) {
		prog = append(prog, fmt.Sprintf("(define %s %s)", nm, expr))
		vars[nm] = v
		names = append(names, nm)
	}
	def("s0", fmt.Sprintf("(str %s)", quoteStr("a"+genStr(r))), nil)
	s0 := genStr(r)
	if r.Intn(3) == 0 { // letters whose other case has another length, or that have three cases
		rs := []rune(s0)
		for n := 1 + r.Intn(3); n > 0; n-- {
			i := r.Intn(len(rs) + 1)
			rs = append(rs[:i:i], append([]rune{[]rune("ıÿɐǆǅſłŁȺⱥĀ")[r.Intn(11)]}, rs[i:]...)...)
		}
		s0 = string(rs)
	}
	prog[0] = fmt.Sprintf("(define s0 (str %s \"\"))", quoteStr(s0))
	vars["s0"] = &cell{s0}
	for i := 0; i < 3+r.Intn(7); i++ {
		o := names[r.Intn(len(names))]
		nm := fmt.Sprintf("s%d", i+1)
		switch r.Intn(8) {
		case 0:
			def(nm, o, vars[o])
		case 1:
			def(nm, "(str "+o+")", &cell{vars[o].s})
		case 2:
			def(nm, fmt.Sprintf("(substring %s 0 (string-length %s))", o, o), &cell{vars[o].s})
		case 3:
			def(nm, fmt.Sprintf("(string-trim %s \"\")", o), &cell{vars[o].s})
		case 4:
			def(nm, "(string-upcase "+o+")", &cell{mUp(vars[o].s)})
		case 5:
			def(nm, "(string-join (list "+o+"))", &cell{vars[o].s})
		default:
			k := r.Intn(3)
			prog = append(prog, fmt.Sprintf("(%s %s)", []string{"string-upcase!", "string-downcase!", "string-capitalize!"}[k], o))
			vars[o].s = []func(string) string{mUp, mDown, mCap}[k](vars[o].s)
			c.Count("bang", 1)
		}
	}
	text := strings.Join(prog, "\n")
	c.Desc("%s", text)
	c.Distinct(text)
	for _, p := range prog {
		if _, err := evalText(p, env); err != nil {
			c.Fail("bang:"+text, "%s failed: %v", p, err)
			return
		}
	}
	for _, n := range names {
		d, err := evalText(n, env)
		if showOutcome(d, err) != canon(Str(vars[n].s)) {
			c.Fail("bang:"+text, "after\n%s\n%s is %s, want %s", text, n, showOutcome(d, err), canon(Str(vars[n].s)))
			return
		}
	}
}

func c16Wrong(c *Case) {
	r := c.R
	bad := []V{int64(3), Sym("x"), list(Str("a")), Nil, true}[r.Intn(5)]
	un := []string{"string-upcase", "string-downcase", "string-capitalize", "string-upcase!", "string-downcase!", "string-capitalize!", "string-length", "string-null?", "string-trim", "string-trim-left", "string-trim-right", "intern"}
	bin := []string{"string-split", "substring?", "string-prefix?", "string-suffix?", "string=?", "string<?", "string>?", "string<=?", "string>=?", "string-ci=?", "string-ci<?", "string-ci>?", "string-ci<=?", "string-ci>=?"}
	if r.Intn(2) == 0 {
		checkCall(c, un[r.Intn(len(un))], []V{bad}, wErr)
		return
	}
	args := []V{Str("ab"), Str("b")}
	args[r.Intn(2)] = bad
	checkCall(c, bin[r.Intn(len(bin))], args, wErr)
	checkCall(c, "string-join", []V{list(Str("a"), int64(2))}, wErr)
	checkCall(c, "substring", []V{Str("abc"), int64(0), Sym("x")}, wErr)
	checkCall(c, "substring", []V{Str("abc"), Str("0"), int64(1)}, wErr)
}

// ---- C17: format --------------------------------------------------------------------------------

func display(v V) string {
	if s, ok := v.(Str); ok {
		return string(s)
	}
	return printed(v)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// formatModel: the text for a control string, or an error; unspec when widths meet non-ASCII text
func formatModel(ctl string, args []V) (out string, bad, unspec bool) {
	i := 0
	next := func() byte {
		if i < len(ctl) {
			return ctl[i]
		}
		return 0
	}
	for i < len(ctl) {
		if ctl[i] != '~' {
			out += ctl[i : i+1]
			i++
			continue
		}
		i++
		n := 0
		given := false
		for next() >= '0' && next() <= '9' {
			n = n*10 + int(next()-'0')
			given = true
			i++
			if n > 100000 {
				return "", false, true
			}
		}
		if !given {
			switch next() {
			case '#':
				n = len(args)
				i++
			case 'V', 'v':
				if len(args) == 0 {
					return "", true, false
				}
				k, ok := args[0].(int64)
				if !ok {
					return "", true, false
				}
				if k > 100000 {
					return "", false, true
				}
				if k < 0 {
					k = 0
				}
				n = int(k)
				args = args[1:]
				i++
			}
		}
		at := false
		if next() == '@' {
			at = true
			i++
		}
		switch d := next(); d {
		case 'a', 'A', 's', 'S':
			i++
			if len(args) == 0 {
				return "", true, false
			}
			t := printed(args[0])
			if d == 'a' || d == 'A' {
				t = display(args[0])
			}
			args = args[1:]
			if n > 0 && !isASCII(t) {
				unspec = true
			}
			pad := ""
			for len(pad)+len(t) < n {
				pad += " "
			}
			if at {
				out += pad + t
			} else {
				out += t + pad
			}
		case '%', '~':
			i++
			ch := "~"
			if d == '%' {
				ch = "\n"
			}
			if n == 0 {
				n = 1
			}
			for k := 0; k < n; k++ {
				out += ch
			}
		case '\n':
			for i < len(ctl) && (ctl[i] == ' ' || ctl[i] >= 9 && ctl[i] <= 13) {
				i++
			}
			if at {
				out += "\n"
			}
			if i < len(ctl) && ctl[i] >= 0x80 {
				unspec = true // bytes of other characters may count as space
			}
		default:
			return "", true, false
		}
	}
	if len(args) > 0 {
		return "", true, false
	}
	return out, false, unspec
}

func genControl(r *rand.Rand) (string, []V) {
	var b strings.Builder
	var args []V
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			b.WriteString(strings.Replace(genStr(r), "~", "-", -1))
		case 1:
			b.WriteString([]string{"x", " ", "a b", ": ", "\n", "é"}[r.Intn(6)])
		}
		if r.Intn(25) == 0 { // malformed
			b.WriteString([]string{"~q", "~", "~d", "~-3a", "~@", "~5", "~V", "~é", "~ a", "~@@a", "~#", "~3@"}[r.Intn(12)])
			continue
		}
		b.WriteByte('~')
		k := r.Intn(9)
		switch r.Intn(8) {
		case 0, 1:
			fmt.Fprint(&b, r.Intn(12))
		case 2:
			b.WriteByte('#')
		case 3:
			b.WriteByte("Vv"[r.Intn(2)])
			args = append(args, []V{int64(r.Intn(12)), int64(r.Intn(12)), int64(-3), Str("5"), Sym("x")}[r.Intn(5)])
		}
		if r.Intn(3) == 0 {
			b.WriteByte('@')
		}
		switch {
		case k < 3:
			b.WriteByte("aA"[r.Intn(2)])
		case k < 6:
			b.WriteByte("sS"[r.Intn(2)])
		case k == 6:
			b.WriteByte('%')
		case k == 7:
			b.WriteByte('~')
		case k == 8:
			b.WriteString("\n" + []string{"", "  ", "\t\n ", " ~~"}[r.Intn(4)])
		}
		if k < 6 {
			args = append(args, genElem(r, 2))
		}
	}
	if r.Intn(4) > 0 {
		b.WriteString([]string{"", "end", " .", "é"}[r.Intn(4)])
	}
	switch r.Intn(15) {
	case 0:
		args = append(args, genElem(r, 1))
	case 1:
		if len(args) > 0 {
			args = args[:len(args)-1]
		}
	}
	return b.String(), args
}

func c17Format(c *Case) {
	ctl, args := genControl(c.R)
	out, bad, unspec := formatModel(ctl, args)
	full := append([]V{false, Str(ctl)}, args...)
	w := wV(Str(out))
	if bad {
		w = wErr
		c.Count("malformed", 1)
	} else {
		c.Count("formatted", 1)
	}
	if unspec { // (also huge widths, which would exhaust memory)
		return
	}
	checkCall(c, "format", full, w)
}

func c17Dest(c *Case) {
	r := c.R
	dir := scratch()
	path := filepath.Join(dir, fmt.Sprintf("fmt%d", c.Idx))
	defer os.Remove(path)
	env := freshEnv()
	f, err := os.Create(path)
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer f.Close()
	env.BindLocallyTo(symD("fport"), golisp.PortWithValue(f))
	want := ""
	var prog []string
	for i := 0; i < 1+r.Intn(4); i++ {
		ctl, args := genControl(r)
		out, bad, unspec := formatModel(ctl, args)
		if unspec {
			return
		}
		dest := []string{"fport", "#t"}[r.Intn(2)]
		src := "(format " + dest + " " + quoteStr(ctl)
		for _, a := range args {
			src += " " + show(q(a))
		}
		src += ")"
		prog = append(prog, src)
		c.Desc("%s", strings.Join(prog, "\n"))
		var d *golisp.Data
		var err error
		if dest == "#t" {
			old := os.Stdout
			os.Stdout = f
			d, err = evalText(src, env)
			os.Stdout = old
		} else {
			d, err = evalText(src, env)
		}
		if bad != (err != nil) {
			c.Fail("dest:"+src, "%s: error %v, want failure %v", src, err, bad)
		}
		if !bad {
			want += out
			if golisp.NotNilP(d) {
				c.Fail("destval:"+src, "%s returned %s instead of nothing", src, golisp.String(d))
			}
		}
	}
	got, _ := os.ReadFile(path)
	c.Count("written", 1)
	c.Distinct(c.desc)
	if string(got) != want {
		c.Fail("out:"+c.desc, "%s\nwrote %q, want %q", c.desc, got, want)
	}
	for _, s := range []string{"(format 5 \"a\")", "(format \"a\" \"b\")", "(format #f 'a)", "(format () \"b\")"} {
		if d, err := evalText(s, env); err == nil {
			c.Fail("noerr:"+s, "%s returned %s", s, golisp.String(d))
		}
	}
}

var scratchDir string

// scratch is this worker's private directory
func scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp(os.Getenv("VH_DIR"), "scratch")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

// ---- C18: byte arrays -----------------------------------------------------------------------------

func bytesV(b []byte) V { return &Bytes{b} }

func c18History(c *Case) {
	r := c.R
	env := freshEnv()
	type arr struct{ b []byte }
	vars := map[string]*arr{}
	var names, prog []string
	bad := false
	fail := func(f string, a ...interface{}) {
		bad = true
		c.Fail("bytes:"+strings.Join(prog, " "), "after\n%s\n%s", strings.Join(prog, "\n"), fmt.Sprintf(f, a...))
	}
	run := func(src string, want V, isErr bool) {
		prog = append(prog, src)
		c.Desc("%s", strings.Join(prog, "\n"))
		d, err := evalText(src, env)
		c.Count("operations", 1)
		if isErr {
			c.Count("errors_expected", 1)
			if err == nil {
				fail("%s must fail, returned %s", src, canonD(d))
			}
			return
		}
		if err != nil {
			fail("%s failed: %v", src, err)
		} else if canonD(d) != canon(want) {
			fail("%s returned %s, want %s", src, canonD(d), canon(want))
		}
	}
	n := 0
	def := func(expr string, a *arr) {
		nm := fmt.Sprintf("b%d", n)
		n++
		run(fmt.Sprintf("(define %s %s)", nm, expr), bytesV(a.b), false)
		vars[nm] = a
		names = append(names, nm)
	}
	rb := func(k int) []byte {
		b := make([]byte, k)
		r.Read(b)
		if r.Intn(3) == 0 {
			for i := range b {
				b[i] = []byte{0, 1, 127, 128, 254, 255}[r.Intn(6)]
			}
		}
		return b
	}
	lit := func(b []byte) string { return strings.Trim(strings.Replace(fmt.Sprint(b), ",", "", -1), "[]") }
	start := rb(r.Intn(8))
	if r.Intn(12) == 0 {
		start = rb(9 + r.Intn(300))
		c.Count("large_arrays", 1)
	}
	if len(start) > 0 && r.Intn(2) == 0 {
		def("(list->bytearray '("+lit(start)+"))", &arr{start})
	} else {
		def("["+lit(start)+"]", &arr{start})
	}
	for step := 0; step < 3+r.Intn(10) && !bad; step++ {
		o := names[r.Intn(len(names))]
		a := vars[o]
		L := len(a.b)
		idx := func() int {
			if L == 0 || r.Intn(6) == 0 {
				return []int{-1, L, L + 1, -100, 1 << 40}[r.Intn(5)]
			}
			return r.Intn(L)
		}
		switch r.Intn(15) {
		case 0:
			def(o, a) // another name for the same array
		case 1:
			def("(copy "+o+")", &arr{append([]byte{}, a.b...)})
		case 2:
			i, v := idx(), r.Intn(256)
			if r.Intn(8) == 0 {
				v = []int{-1, 256, 1000, -128}[r.Intn(4)]
			}
			op := "replace-byte"
			if r.Intn(2) == 0 {
				op = "replace-byte!"
			}
			isErr := i < 0 || i >= L || v < 0 || v > 255
			nb := append([]byte{}, a.b...)
			if !isErr {
				nb[i] = byte(v)
			}
			if op == "replace-byte" && !isErr {
				def(fmt.Sprintf("(replace-byte %s %d %d)", o, i, v), &arr{nb})
			} else {
				run(fmt.Sprintf("(%s %s %d %d)", op, o, i, v), bytesV(nb), isErr)
				if !isErr {
					a.b = nb
				}
			}
		case 3:
			i := idx()
			if i >= 0 && i < L {
				run(fmt.Sprintf("(extract-byte %s %d)", o, i), int64(a.b[i]), false)
			} else {
				run(fmt.Sprintf("(extract-byte %s %d)", o, i), nil, true)
			}
		case 4:
			i := idx()
			k := r.Intn(6)
			if r.Intn(8) == 0 {
				k = []int{-1, -5, 1 << 40, L + 1}[r.Intn(4)]
			}
			if i >= 0 && i < L && k >= 0 && i+k <= L {
				def(fmt.Sprintf("(extract-bytes %s %d %d)", o, i, k), &arr{append([]byte{}, a.b[i:i+k]...)})
			} else {
				run(fmt.Sprintf("(extract-bytes %s %d %d)", o, i, k), nil, true)
			}
		case 5, 6, 7: // append: another array, a list, single bytes
			var extra []byte
			var arg string
			switch r.Intn(4) {
			case 0:
				p := names[r.Intn(len(names))]
				extra, arg = vars[p].b, p
			case 1:
				extra = rb(1 + r.Intn(4))
				arg = "'(" + lit(extra) + ")"
			case 2:
				extra = rb(1 + r.Intn(4))
				arg = lit(extra)
			case 3:
				extra = rb(r.Intn(3))
				arg = "[" + lit(extra) + "]"
			}
			isErr := false
			if r.Intn(8) == 0 {
				arg = []string{"256", "-1", "'(1 300)", "'(1 -1)", "'(1 a)", "\"x\"", "1 2 256", "1.5"}[r.Intn(8)]
				isErr = true
			}
			nb := append(append([]byte{}, a.b...), extra...)
			if r.Intn(2) == 0 {
				run(fmt.Sprintf("(append-bytes! %s %s)", o, arg), bytesV(nb), isErr)
				if !isErr {
					a.b = nb
				}
			} else if isErr {
				run(fmt.Sprintf("(append-bytes %s %s)", o, arg), nil, true)
			} else {
				def(fmt.Sprintf("(append-bytes %s %s)", o, arg), &arr{nb})
			}
		case 8, 9:
			k := r.Intn(L + 3)
			m := k
			if m > L {
				m = L
			}
			if r.Intn(2) == 0 {
				def(fmt.Sprintf("(take %d %s)", k, o), &arr{append([]byte{}, a.b[:m]...)})
			} else {
				def(fmt.Sprintf("(drop %d %s)", k, o), &arr{append([]byte{}, a.b[m:]...)})
			}
		case 10:
			run("(length "+o+")", int64(L), false)
		case 11:
			var l []V
			for _, x := range a.b {
				l = append(l, int64(x))
			}
			op := []string{"bytearray->list", "bytearray-to-list"}[r.Intn(2)]
			run("("+op+" "+o+")", list(l...), false)
		case 12:
			p := names[r.Intn(len(names))]
			run("(== "+o+" "+p+")", string(a.b) == string(vars[p].b), false)
		case 13: // creation with nested arrays, and bad elements
			x := rb(1 + r.Intn(3))
			if r.Intn(4) == 0 {
				def("(list->bytearray (list "+o+"))", &arr{append([]byte{}, a.b...)})
			} else if r.Intn(3) > 0 {
				def(fmt.Sprintf("(%s (list %s %s 7))", []string{"list->bytearray", "list-to-bytearray"}[r.Intn(2)], lit(x), o), &arr{append(append(append([]byte{}, x...), a.b...), 7)})
			} else {
				run([]string{"(list->bytearray '(1 256))", "(list->bytearray '(-1))", "(list->bytearray '(1 a))", "(list->bytearray 5)", "(list->bytearray '(1.5))", "(list->bytearray '(\"a\"))", "(bytearray->list '(1))", "(extract-byte '(1) 0)", "(extract-byte " + o + " 'x)", "(replace-byte " + o + " \"0\" 1)", "(replace-byte! \"abc\" 0 1)", "(append-bytes '(1) 2)", "(append-bytes! 5 2)", "(extract-bytes " + o + " 0 'a)", "[256]", "[-1]"}[r.Intn(16)], nil, true)
			}
		case 14:
			run("(bytearray? "+o+")", true, false)
		}
		// every array of the history is what the model says: copies are separate, names shared
		for _, nm := range names {
			d, err := evalText(nm, env)
			if showOutcome(d, err) != canon(bytesV(vars[nm].b)) {
				fail("%s is %s, want %s", nm, showOutcome(d, err), canon(bytesV(vars[nm].b)))
				break
			}
			c.Count("observations", 1)
		}
	}
	c.Distinct(c.desc)
}

// ---- C24: ports --------------------------------------------------------------------------------------

type outPort struct {
	name, path string
	want       []byte
	open       bool
}

func c24Write(c *Case) {
	r := c.R
	dir := scratch()
	env := freshEnv()
	var ports []*outPort
	files := map[string]*[]byte{}
	var prog []string
	run := func(src string, wantErr bool) bool {
		prog = append(prog, src)
		c.Desc("%s", strings.Join(prog, "\n"))
		_, err := evalText(src, env)
		c.Count("operations", 1)
		if (err != nil) != wantErr {
			c.Fail("io:"+c.desc, "%s\n%s: error %v, want failure %v", c.desc, src, err, wantErr)
			return false
		}
		return true
	}
	nf := 1 + r.Intn(3)
	for i := 0; i < nf; i++ {
		p := filepath.Join(dir, fmt.Sprintf("w%d-%d", c.Idx, i))
		defer os.Remove(p)
		if r.Intn(3) == 0 {
			old := []byte(genStr(r) + "\n'old")
			os.WriteFile(p, old, 0o600)
			files[p] = &old
		}
	}
	use := map[string]bool{}
	for step := 0; step < 4+r.Intn(14); step++ {
		if len(ports) == 0 || r.Intn(6) == 0 {
			p := filepath.Join(dir, fmt.Sprintf("w%d-%d", c.Idx, r.Intn(nf)))
			if use[p] {
				continue
			}
			use[p] = true
			nm := fmt.Sprintf("op%d", len(ports))
			mode := ""
			app := false
			switch r.Intn(4) {
			case 0, 1:
				mode, app = " #t", true
			case 2:
				mode = []string{" #f", " #f", " '()"}[r.Intn(3)]
			}
			if app && r.Intn(4) == 0 { // anything else counts as true
				mode = []string{" 1", " \"append\"", " 'a", " '(1)", " 0", " \"\""}[r.Intn(6)]
			}
			if !run(fmt.Sprintf("(define %s (open-output-file %s%s))", nm, quoteStr(p), mode), false) {
				return
			}
			o := &outPort{name: nm, path: p, open: true}
			if app && files[p] != nil {
				o.want = append([]byte{}, *files[p]...)
			}
			ports = append(ports, o)
			continue
		}
		o := ports[r.Intn(len(ports))]
		var src string
		var out string
		v := genVal(r, 3, allOpts)
		switch r.Intn(6) {
		case 0, 1:
			if bareQuote(v) {
				continue
			}
			if _, isF := hasFrame(v); isF {
				continue
			}
			src, out = "(write "+show(q(v))+" "+o.name+")", printed(v)
		case 2:
			s := genStr(r)
			if r.Intn(10) == 0 {
				s = strings.Repeat(s+"|", r.Intn(2000))
				c.Count("large_writes", 1)
			}
			env.BindLocallyTo(symD("ws"), golisp.StringWithValue(s))
			src, out = "(write-string "+quoteStr(s)+" "+o.name+")", s
			if len(s) > 200 {
				src = fmt.Sprintf("(write-string ws %s) ; %d bytes", o.name, len(s))
			}
		case 3:
			b := make([]byte, r.Intn(5))
			r.Read(b)
			src, out = "(write-bytes "+show(&Bytes{b})+" "+o.name+")", string(b)
			if r.Intn(4) == 0 {
				b = make([]byte, r.Intn(1<<uint(r.Intn(18))))
				r.Read(b)
				env.BindLocallyTo(symD("wb"), toData(&Bytes{b}))
				src, out = fmt.Sprintf("(write-bytes wb %s) ; %d bytes", o.name, len(b)), string(b)
				c.Count("large_writes", 1)
			}
		case 4:
			src, out = "(newline "+o.name+")", "\n"
		case 5:
			if r.Intn(3) > 0 {
				continue
			}
			if o.open {
				o.open = false
				use[o.path] = false
				if !run("(close-port "+o.name+")", false) {
					return
				}
				w := append([]byte{}, o.want...)
				files[o.path] = &w
			}
			continue
		}
		if !run(src, !o.open) {
			return
		}
		if o.open {
			o.want = append(o.want, out...)
			c.Count("writes", 1)
		}
		// what is written is in the file at once, in order
		if r.Intn(4) == 0 {
			for _, p := range ports {
				if !p.open {
					continue
				}
				got, _ := os.ReadFile(p.path)
				if string(got) != string(p.want) {
					c.Fail("file:"+c.desc, "%s\nfile of %s holds %q, want %q", c.desc, p.name, got, p.want)
					return
				}
			}
		}
	}
	for _, p := range ports {
		if p.open {
			run("(close-port "+p.name+")", false)
			w := append([]byte{}, p.want...)
			files[p.path] = &w
		}
	}
	for p, w := range files {
		got, err := os.ReadFile(p)
		if err != nil || string(got) != string(*w) {
			c.Fail("file:"+c.desc, "%s\nfile %s holds %q (err %v), want %q", c.desc, p, got, err, *w)
			return
		}
		c.Count("files_compared", 1)
	}
	c.Distinct(strings.Replace(c.desc, dir, "", -1))
}

func hasFrame(v V) (V, bool) {
	switch x := v.(type) {
	case *FrameV:
		return x, true
	case *Pair:
		if f, ok := hasFrame(x.A); ok {
			return f, ok
		}
		return hasFrame(x.D)
	}
	return nil, false
}

// several files of written data read back through interleaved ports
func c24Read(c *Case) {
	r := c.R
	dir := scratch()
	env := freshEnv()
	type inPort struct {
		name string
		left []V
		open bool
	}
	var prog []string
	run := func(src string) (*golisp.Data, error) {
		prog = append(prog, src)
		c.Desc("%s", strings.Join(prog, "\n"))
		return evalText(src, env)
	}
	nf := 1 + r.Intn(3)
	contents := make([][]V, nf)
	paths := make([]string, nf)
	for i := range contents {
		paths[i] = filepath.Join(dir, fmt.Sprintf("r%d-%d", c.Idx, i))
		defer os.Remove(paths[i])
		run(fmt.Sprintf("(define wp (open-output-file %s))", quoteStr(paths[i])))
		n := r.Intn(7)
		if r.Intn(6) == 0 {
			n = 40 + r.Intn(400) // more than one buffer
		}
		for k := 0; k < n; k++ {
			v := genVal(r, 2, valOpts{bytes: true, dotted: true, quoted: true, floats: true, syms: true})
			if bareQuote(v) {
				continue
			}
			if s, ok := v.(Sym); ok && s == "__EOF__" {
				continue
			}
			if r.Intn(25) == 0 {
				v = Str([]string{"__EOF__", "EOF", ""}[r.Intn(3)])
			}
			env.BindLocallyTo(symD("wv"), toData(v))
			if r.Intn(60) == 0 {
				env.BindLocallyTo(symD("wfill"), toData(Str("\n;"+strings.Repeat("= ", []int{600, 2100, 33000}[r.Intn(3)]+r.Intn(9))+"\n")))
				evalText("(write-string wfill wp)", env)
				c.Count("large_files", 1)
			}
			if _, err := evalText("(begin (write wv wp) "+[]string{"(newline wp)", "(write-string \" ;c\n\" wp)", "(write-string \"  \" wp)"}[r.Intn(3)]+")", env); err != nil {
				c.Fail("write:"+canon(v), "writing %s failed: %v", canon(v), err)
				return
			}
			contents[i] = append(contents[i], v)
		}
		run("(close-port wp)")
	}
	var ports []*inPort
	for step := 0; step < 6+r.Intn(60) || step < 500 && len(ports) > 0 && len(ports[0].left) > 0; step++ {
		if len(ports) == 0 || len(ports) < 5 && r.Intn(8) == 0 {
			i := r.Intn(nf)
			nm := fmt.Sprintf("ip%d", len(ports))
			if _, err := run(fmt.Sprintf("(define %s (open-input-file %s))", nm, quoteStr(paths[i]))); err != nil {
				c.Fail("open:"+c.desc, "%v", err)
				return
			}
			ports = append(ports, &inPort{nm, contents[i], true})
			continue
		}
		p := ports[r.Intn(len(ports))]
		if p.open && r.Intn(25) == 0 {
			run("(close-port " + p.name + ")")
			p.open = false
			continue
		}
		d, err := run("(read " + p.name + ")")
		c.Count("reads", 1)
		switch {
		case !p.open:
			if err == nil {
				c.Fail("closed:"+c.desc, "%s\nread from a closed port gave %s", c.desc, golisp.String(d))
				return
			}
		case len(p.left) == 0:
			env.BindLocallyTo(symD("last"), d)
			e, err2 := evalText("(eof-object? last)", env)
			if err != nil || err2 != nil || !golisp.BooleanValue(e) {
				c.Fail("eof:"+c.desc, "%s\nread at the end of the file gave %s, error %v", c.desc, golisp.String(d), err)
				return
			}
			c.Count("eofs", 1)
		default:
			if err != nil || canonD(d) != canon(p.left[0]) {
				c.Fail("read:"+c.desc, "%s\nread from %s gave %s (error %v), want %s", c.desc, p.name, canonD(d), err, canon(p.left[0]))
				return
			}
			env.BindLocallyTo(symD("last"), d)
			if e, _ := evalText("(eof-object? last)", env); golisp.BooleanValue(e) {
				c.Fail("noteof:"+c.desc, "%s taken for the end of the file", canonD(d))
			}
			p.left = p.left[1:]
			c.Count("data_read", 1)
		}
	}
	for _, p := range ports {
		if p.open {
			run("(close-port " + p.name + ")")
		}
	}
	c.Distinct(strings.Replace(c.desc, dir, "", -1))
}

func c24Wrong(c *Case) {
	dir := scratch()
	env := freshEnv()
	p := filepath.Join(dir, fmt.Sprintf("x%d", c.Idx))
	os.WriteFile(p, []byte("(a b) (unfinished"), 0o600)
	defer os.Remove(p)
	evalText(fmt.Sprintf("(define ip (open-input-file %s))", quoteStr(p)), env)
	step := func(src string, wantErr bool, want V) {
		c.Desc("%s", src)
		d, err := evalText(src, env)
		c.Count("errors_expected", 1)
		if (err != nil) != wantErr || !wantErr && want != nil && canonD(d) != canon(want) {
			c.Fail("wrong:"+src, "%s gave %s, error %v", src, canonD(d), err)
		}
	}
	step("(read ip)", false, list(Sym("a"), Sym("b")))
	step("(read ip)", true, nil)
	step("(write 'x ip)", true, nil)
	step("(write-string \"x\" ip)", true, nil)
	step("(write-bytes [1] ip)", true, nil)
	step("(newline ip)", true, nil)
	step("(close-port ip)", false, nil)
	step(fmt.Sprintf("(open-input-file %s)", quoteStr(p+"/none")), true, nil)
	step(fmt.Sprintf("(open-output-file %s)", quoteStr(p+"/none")), true, nil)
	step("(open-input-file 'a)", true, nil)
	step("(write 1 2)", true, nil)
	step("(write-string 'a)", true, nil)
	step("(write-bytes '(1) 2)", true, nil)
	step("(read 5)", true, nil)
	step("(close-port 5)", true, nil)
	b, _ := os.ReadFile(p)
	if string(b) != "(a b) (unfinished" {
		c.Fail("changed", "an input port changed its file to %q", b)
	}
}

// wildMatch: * any run, ? any one character, [set] one of a set with ranges, [^set] one not of it, \x the x
func wildMatch(p, n []rune) bool {
	if len(p) == 0 {
		return len(n) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(n); i++ {
			if wildMatch(p[1:], n[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(n) > 0 && wildMatch(p[1:], n[1:])
	case '\\':
		return len(n) > 0 && p[1] == n[0] && wildMatch(p[2:], n[1:])
	case '[':
		if len(n) == 0 {
			return false
		}
		j, neg, in := 1, false, false
		if p[j] == '^' {
			j, neg = j+1, true
		}
		for p[j] != ']' {
			if p[j+1] == '-' {
				in = in || p[j] <= n[0] && n[0] <= p[j+2]
				j += 3
			} else {
				in = in || p[j] == n[0]
				j++
			}
		}
		return in != neg && wildMatch(p[j+1:], n[1:])
	}
	return len(n) > 0 && p[0] == n[0] && wildMatch(p[1:], n[1:])
}

// the files of a directory, all of them or those of a pattern
func c24List(c *Case) {
	r := c.R
	dir := filepath.Join(scratch(), fmt.Sprintf("ls%d", c.Idx))
	if err := os.Mkdir(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := func() string {
		var b strings.Builder
		for n := 1 + r.Intn(5); n > 0; n-- {
			b.WriteString([]string{"a", "b", "c", "x", "A", ".", "_", "é", "1", ".lsp", "-", " "}[r.Intn(12)])
		}
		return b.String()
	}
	var names []string
	for n := r.Intn(9); n > 0; n-- {
		f := name()
		if f == "." || f == ".." {
			continue
		}
		p := filepath.Join(dir, f)
		if _, err := os.Stat(p); err == nil {
			continue
		}
		if r.Intn(6) == 0 {
			os.Mkdir(p, 0700)
			os.WriteFile(filepath.Join(p, name()+"q"), nil, 0600)
		} else if port, err := golisp.Eval(dlist(symD("open-output-file"), golisp.StringWithValue(p)), golisp.Global); err == nil {
			golisp.Eval(dlist(symD("close-port"), port), golisp.Global)
		}
		names = append(names, f)
	}
	for q := 0; q < 4; q++ {
		pat := "*"
		given := dir
		if r.Intn(4) == 0 {
			given += "/"
		}
		args := []*golisp.Data{symD("list-directory"), golisp.StringWithValue(given)}
		if r.Intn(4) > 0 {
			var b strings.Builder
			for n := 1 + r.Intn(4); n > 0; n-- {
				b.WriteString([]string{"*", "*", "?", "[abc]", "[a-c]", "[^a-b.]", "\\*", "\\a", "a", "b", ".", "x", "*.lsp", "é"}[r.Intn(14)])
			}
			pat = b.String()
			if r.Intn(4) == 0 && len(names) > 0 {
				pat = names[r.Intn(len(names))]
			}
			if pat == "." || pat == ".." {
				pat = "*"
			}
			args = append(args, golisp.StringWithValue(pat))
		}
		var want []string
		for _, n := range names {
			if wildMatch([]rune(pat), []rune(n)) {
				want = append(want, filepath.Join(dir, n))
			}
		}
		sort.Strings(want)
		key := fmt.Sprintf("%q of %q", pat, names)
		c.Desc("list-directory %s", key)
		d, err := golisp.Eval(dlist(args...), golisp.Global)
		var got []string
		for _, e := range golisp.ToArray(d) {
			got = append(got, golisp.StringValue(e))
		}
		sort.Strings(got)
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("list:"+key, "list-directory, %s: %q, %v; want %q", key, got, err, want)
			return
		}
		c.Count("listings", 1)
		c.Count("listed_files", len(got))
		c.Distinct(key)
	}
}

func init() {
	register(&Check{
		ID: "C16", Setup: setupPrims,
		Need:        []string{"calls", "bang", "split_joined", "errors_expected", "op_substring", "op_string-trim", "op_string-ci<?", "op_str", "op_intern", "op_string-capitalize"},
		Rule:        "each string operation on pairs of strings (empty, long, quotes, separators, control and non-ASCII characters, one derived from the other) and positions at and beyond both ends, compared with character-wise models; split joined back; histories of in-place changes over names and copies compared with a model; distinct by operation and operands",
		Assumptions: []string{"positions and lengths count bytes, as the implementation documents by its tests; cuts inside a multi-byte character and invalid UTF-8 are not exercised"},
		Phases: []Phase{
			{Name: "ops", Quick: 120000, Thorough: 2000000, Run: c16Ops},
			{Name: "bang", Quick: 15000, Thorough: 200000, Run: c16Bang},
			{Name: "wrong", Quick: 3000, Thorough: 20000, Run: c16Wrong},
		},
	})
	register(&Check{
		ID: "C17", Setup: setupPrims,
		Need:        []string{"formatted", "malformed", "written"},
		Rule:        "random control strings (all directives with numeric, #, V widths and @, literal text, malformed and truncated directives) with matching, missing and surplus arguments of all types, compared with an independent formatter; output to a port and to standard output compared with the file content; distinct by control string and arguments",
		Assumptions: []string{"column widths above 100000 and widths of non-ASCII text are not judged"},
		Phases: []Phase{
			{Name: "format", Quick: 80000, Thorough: 1500000, Run: c17Format},
			{Name: "dest", Quick: 6000, Thorough: 60000, Run: c17Dest},
		},
	})
	register(&Check{
		ID: "C18", Setup: setupPrims,
		Need:        []string{"operations", "observations", "errors_expected"},
		Rule:        "histories of byte array operations (copying and in place, sharing names, bad indices, values and types) over several live arrays, every array compared with its model after each step; distinct by history",
		Assumptions: []string{"list->bytearray of the empty list is rejected by the implementation and not judged"},
		Phases: []Phase{
			{Name: "history", Quick: 40000, Thorough: 600000, Run: c18History},
		},
	})
	register(&Check{
		ID: "C24", Setup: setupPrims,
		Need:        []string{"writes", "files_compared", "data_read", "eofs", "errors_expected", "listed_files"},
		Rule:        "histories of open (create, truncate, append), write, write-string, write-bytes, newline and close over several ports in a private directory, file contents compared byte for byte while open and after closing; written data read back through several interleaved input ports on the same and different files up to the end-of-file object; uses of closed and wrong-direction ports; list-directory over random directories and patterns compared with a matcher of its own; distinct by history",
		Assumptions: []string{"one open output port per file at a time"},
		Phases: []Phase{
			{Name: "write", Quick: 6000, Thorough: 80000, Run: c24Write},
			{Name: "read", Quick: 4000, Thorough: 50000, Run: c24Read},
			{Name: "wrong", Quick: 300, Thorough: 1000, Run: c24Wrong},
			{Name: "list", Quick: 4000, Thorough: 40000, Run: c24List},
		},
	})
}
