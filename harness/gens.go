package main

import (
	"math"
	"regexp"
	"strings"
	"unicode/utf8"
)

var (
	asciiPieces = []string{"a", " ", "\n", "b", "ab", "foo", "bar", "foo bar", "x1", "42", "Hello", "WORLD", "the", ",", ".", "\n\n", "  ", "\t", "-", "_", "(", ")", "\"", "'", "\\", ";", "#", "[", "]", "{", "}", "=", "+", "*", "?", "$", "^", "|", "%", "&", "<", ">", "/", ":", "@", "`", "~", "!", "0", "9", "A", "Z", "z", "\r\n", "\r", "snake_case", "camelCase", "don't", "e.g.", "a-b", "$1", "${1}", "\\n", "\\1", "%s", "%d"}
	uniPieces   = []string{"é", "ü", "ß", "ñ", "Ω", "中", "文", "日本", "😀", "👍🏽", "e\u0301", "\u00a0", "\u2028", "\u2029", "\u0085", "\ufeff", "İ", "ı", "ǆ", "ﬁ", "ŉ", "ÿ", "Ā", "\u200b", "я", "Я", "ς", "Σ", "\U0010ffff", "\ufffd", "\u0600"}
	rawPieces   = []string{"\x00", "\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\xed\xa0\x80", "\x1b[0m", "\x7f", "\v", "\f", "\xc0\xaf", "\b"}
	codeLines   = []string{"func main() {", "\tfmt.Println(\"hi\")", "}", "", "// comment", "x := 1", "<div class=\"a\">", "</div>", "import os", "def f(x):", "    return x + 1", "key: value", "- item", "# Title", "a,b,c", "line", "SELECT * FROM t;"}
)

// size picks a length, now and then one around a mined or otherwise special number.
func genSize(t *T, max int) int {
	switch t.W(10, 6, 3, 2) {
	case 0:
		return t.N(6)
	case 1:
		return t.N(40)
	case 2:
		return t.N(300)
	}
	sp := []int{7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 100000}
	var n int
	if t.Bool() && len(dict().ints) > 0 {
		n = pick(t, dict().ints)
	} else {
		n = pick(t, sp)
	}
	n += t.N(5) - 2
	if n < 0 {
		n = 0
	}
	if n > max {
		n = n % (max + 1)
	}
	return n
}

// genVast is a size around which programs that read in pieces or with a bound go
// wrong.
func genVast(t *T) int {
	n := pick(t, []int{1 << 12, 1 << 13, 1 << 15, 1 << 16, 100000, 1 << 17, 200000, 1 << 18, 300000, 500000, 1 << 19, 1000000, 1 << 20, 1<<20 + 1<<18})
	if t.P(1, 3) {
		n = pick(t, dict().ints) % 1300000
	}
	return max(1, n+t.N(9)-t.N(200))
}

// pump makes a program vast: one of its strings, or the number of its
// instructions.
func pump(t *T, is []Val) []Val {
	is = append([]Val(nil), is...)
	n := genVast(t)
	unit := pick(t, []string{"a", "ab ", "x\n", "\"", "\\", "é", "(", "; ", "word\n", "' "})
	v := Call("insert", VS(strings.Repeat(unit, 1+n/len(unit))))
	if t.Bool() {
		v = pick(t, []Val{Call("point"), Call("insert", VS("a")), Call("concat", VS("a"), VN(5)), Call("forward-char")})
		if len(is) > 0 {
			if x := pick(t, is); !hasNested(x) {
				v = x
			}
		}
		k := max(1, min(20000, n/(10+written(v))))
		for i := 0; i < k; i++ {
			is = append(is, v)
		}
		return is
	}
	i := t.N(len(is) + 1)
	return append(is[:i:i], append([]Val{v}, is[i:]...)...)
}

// written is about how much there is to write for a value.
func written(v Val) int {
	n := len(v.S) + 3
	for _, x := range v.L {
		n += written(x)
	}
	return n
}

func genPiece(t *T, raw bool) string {
	switch t.W(16, 4, 3, 2) {
	case 1:
		return pick(t, uniPieces)
	case 2:
		return pick(t, dict().strs)
	case 3:
		if raw {
			return pick(t, rawPieces)
		}
		return string(rune(t.R(32, 126)))
	}
	return pick(t, asciiPieces)
}

type textOpt struct {
	raw  bool // invalid UTF-8 and control bytes allowed
	max  int
	big  int // when set, one text in so many is large
	huge int // when set, one text in so many is larger than a mebibyte
}

// bigText makes a text of the size of real files, up to 100 000 bytes.
func bigText(t *T, o textOpt) string {
	n := 0
	switch t.W(3, 3, 2) {
	case 0:
		n = pick(t, []int{4096, 8192, 10000, 16384, 20000, 32768, 50000, 65535, 65536, 65537, 100000}) + t.N(7) - 3
	case 1:
		n = pick(t, dict().ints) + t.N(7) - 3
	case 2:
		n = t.N(70000)
	}
	if n > 100000 {
		n %= 100000
	}
	if n < 300 {
		n = 300 + t.N(4000)
	}
	u := pick(t, []string{"a", "ab ", "x\n", "word ", "line of text\n", "\n", "0123456789", "one two\nthree\n\n", "é\n"})
	if t.Bool() {
		u = ""
		for k := t.R(1, 6); k > 0; k-- {
			u += genPiece(t, o.raw)
		}
		if u == "" {
			u = "-"
		}
	}
	s := genPiece(t, o.raw) + strings.Repeat(u, n/len(u)+1)
	s = s[:min(n, len(s))]
	if t.Bool() {
		s += genPiece(t, o.raw)
	}
	if t.Bool() {
		s = odds(t, s, o.raw)
	}
	return s
}

// odds puts something at the ends of a text that programs are wont to treat specially.
func odds(t *T, s string, raw bool) string {
	if t.Bool() {
		x := []string{"\n\n\n", "\r", "\r\n", " \n", "\\", "\u2028", " ", "\t"}
		if raw {
			x = append(x, "\xe2\x80", "\xff", "\x00", "\x00\x00", "\x1a", "\x00\n")
		}
		return s + pick(t, x)
	}
	x := []string{"\ufeff", "#!/bin/sh\n", "\r\n", "\n\n", " ", "\ufeff\n", "---\n", "<?xml version=\"1.0\"?>\n"}
	if raw {
		x = append(x, "\xff\xfe", "\xfe\xff", "\x80", "\x00")
	}
	return pick(t, x) + s
}

// genText makes a text of many shapes.
func genText(t *T, o textOpt) string {
	if o.max == 0 {
		o.max = 3000
	}
	s := ""
	kind := t.W(6, 8, 4, 3, 3, 2, 2, 2)
	if o.big > 0 && t.N(o.big) == o.big-1 {
		kind = 8
		o.max = 100100
	}
	switch kind {
	case 8:
		s = bigText(t, o)
	case 0: // tiny alphabet
		n := t.N(9)
		for i := 0; i < n; i++ {
			s += pick(t, []string{"a", "b", " ", "\n", "é", "."})
		}
	case 1: // mixture
		n := t.N(14)
		for i := 0; i < n; i++ {
			s += genPiece(t, o.raw)
		}
	case 2: // lines
		n := t.Small(30)
		nl := pick(t, []string{"\n", "\n", "\n", "\r\n"})
		for i := 0; i < n; i++ {
			if t.Bool() {
				s += pick(t, codeLines)
			} else {
				for k := t.N(5); k > 0; k-- {
					s += genPiece(t, o.raw)
				}
			}
			if i < n-1 || t.Bool() {
				s += nl
			}
		}
	case 3: // repetition, overlapping occurrences
		u := genPiece(t, o.raw)
		if t.Bool() {
			u += genPiece(t, o.raw)
		}
		s = strings.Repeat(u, t.N(12)) + pick(t, []string{"", u[:len(u)/2], "\n"})
	case 4: // words
		n := t.N(12)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += pick(t, []string{" ", " ", " ", "  ", ", ", "\n", "\t", "_", "-", ".", "é", " \n "})
			}
			s += pick(t, []string{"foo", "bar", "Foo", "a", "x2", "42", "Hello", "world", "é", "z9Z", "AZ", "az", "09"})
		}
		s = pick(t, []string{"", " ", "\n", "é"}) + s + pick(t, []string{"", " ", "\n", "."})
	case 5: // boundary characters of the word class
		n := t.N(10)
		for i := 0; i < n; i++ {
			s += string(rune(pick(t, []int{'/', '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', '_', 'M', 'm', '5', ' ', '\n'})))
		}
	case 6: // a chosen length
		n := genSize(t, o.max)
		u := pick(t, []string{"a", "ab ", "x\n", "word ", "line of text\n", "\n", "é", "0123456789"})
		s = strings.Repeat(u, n/len(u)+1)[:n]
		if !o.raw && !utf8.ValidString(s) {
			s = s[:len(s)-1] + "a"
		}
		if t.Bool() {
			s += genPiece(t, o.raw)
		}
	case 7: // many short lines
		n := genSize(t, min(o.max, 400))
		for i := 0; i < n; i++ {
			s += pick(t, []string{"a\n", "\n", "b c\n"})
		}
		s += pick(t, []string{"", "end"})
	}
	if len(s) > o.max+64 {
		s = s[:o.max]
		if !o.raw {
			s = strings.ToValidUTF8(s, "?")
		}
	}
	if !o.raw && !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	if o.huge > 0 && t.N(o.huge) == o.huge-1 {
		n := 1<<20 + pick(t, []int{-1, 0, 1, 5000, 1 << 20})
		if big := dict().big; len(big) > 0 && t.Bool() {
			if k := pick(t, big); k <= 32<<20 {
				n = k + pick(t, []int{-1, 0, 1, 5000})
			}
		}
		s = strings.Repeat(s+"x\n", n/(len(s)+2)+1)
	}
	if t.P(1, 16) {
		s = odds(t, s, o.raw)
	}
	if len(s) > longText {
		t.long = true
	}
	return s
}

// longText is the length from which on only patterns are used that Go's regexp
// matches in linear time (FindAll with `a*b|` is quadratic on a text of a's, in
// the code under test as in the model).
const longText = 4000

var linearRe = []string{"a", "o", "[a-z]+", "\\w+", "\\d+", "\\n", "\\s+", "[^\\n]+", "(?i)foo", "x", "b ", "line", "(a)", "foo|bar", "é", "[A-Z]", "\\S", "."}

// genStr makes a short argument string.
func genStr(t *T, raw bool) string {
	switch t.W(6, 3, 1) {
	case 0:
		n := t.N(4)
		s := ""
		for i := 0; i < n; i++ {
			s += genPiece(t, raw)
		}
		return s
	case 1:
		return pick(t, []string{"x", "", "foo", "foo bar", "a\nb", "$1", "${0}", "\\1", "\\", "\"q\"", "a;b", "(x)", "é", "longer replacement text", "NEW"})
	}
	return genText(t, textOpt{raw: raw, max: 600})
}

// genCount makes a count or position, related to the state or special.
func genCount(t *T, st State) float64 {
	n := len(st.Text)
	nl := strings.Count(st.Text, "\n")
	d := float64(t.N(5) - 2)
	switch t.W(10, 6, 4, 3, 3, 2, 3, 2) {
	case 0:
		return float64(t.R(0, 3))
	case 1:
		return float64(t.R(-3, 12))
	case 2:
		return float64(n) + d
	case 3:
		return float64(nl) + d
	case 4:
		return float64(n-st.P) + d
	case 5:
		return float64(st.P) + d
	case 6:
		s := float64(1)
		if t.N(6) == 5 {
			s = -1
		}
		return s * (float64(pick(t, dict().ints)) + d)
	}
	return pick(t, []float64{1e6, -1e6, 2147483647, 2147483648, -2147483648, 4294967296, 9223372036854775807, -9223372036854775808, 1e19, -1e19, 1e300, -1e300, 65536, -100, 100})
}
func genPos(t *T, st State) float64 {
	if t.W(3, 1) == 0 {
		return float64(t.R(1, len(st.Text)+1))
	}
	return genCount(t, st)
}

// substringOf picks a piece of the text, near the point more often than not.
func substringOf(t *T, st State) string {
	n := len(st.Text)
	if n == 0 {
		return ""
	}
	a := t.N(n)
	if t.Bool() {
		a = max(0, min(n-1, st.P-1+t.N(7)-4))
	}
	b := min(n, a+1+t.Small(12))
	return st.Text[a:b]
}

func genLiteral(t *T, st State, raw bool) string {
	s := ""
	if len(st.Text) > 64 && t.P(1, 8) { // a long one
		n := len(st.Text)
		a := t.N(n)
		if t.Bool() {
			a = max(0, min(n-1, st.P-1))
		}
		s = st.Text[a:min(n, a+genSize(t, 20000)+1)]
		if !raw {
			s = strings.ToValidUTF8(s, "")
		}
		return s
	}
	switch t.W(10, 3, 2, 1, 1) {
	case 0:
		s = substringOf(t, st)
	case 1:
		s = genPiece(t, raw)
	case 2:
		s = substringOf(t, st) + genPiece(t, raw)
	case 3:
		s = swapCase(substringOf(t, st))
	case 4:
		s = ""
	}
	if !raw {
		s = strings.ToValidUTF8(s, "")
	}
	return s
}
func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

var badRe = []string{"(", "[", "*", "a{2,1}", "\\", "(?P<", "+a", "a)", "[z-a]", "(?=x)", "\\8", "x**", "(?i", "[[:foo:]]", "a{99999}", "(foo", "[abc", "\\p{Zz}"}

// reaching makes a pattern that matches from some place before point up to it
// (back), or from point up to some place after it.
func reaching(t *T, st State, raw, back bool) string {
	n := len(st.Text)
	a, b := st.P-1, st.P-1
	if back {
		a = t.N(b + 1)
		if t.Bool() {
			a = max(0, b-genSize(t, 100000))
		}
	} else {
		b = a + t.N(n-a+1)
		if t.Bool() {
			b = min(n, a+genSize(t, 100000))
		}
	}
	s := st.Text[a:b]
	k := t.R(1, 6)
	any := pick(t, []string{"[\\s\\S]*", "(?s).*", "(.|\\n)*", "[^\\x00]*", "[\\s\\S]*"})
	if len(s) > 2*k {
		x, y := s[:k], s[len(s)-k:]
		if !raw {
			x, y = strings.ToValidUTF8(x, ""), strings.ToValidUTF8(y, "")
		}
		x, y = regexp.QuoteMeta(x), regexp.QuoteMeta(y)
		switch {
		case back && t.Bool():
			y = ""
		case back && t.P(1, 4):
			x = "^" + x
		}
		return x + any + y
	}
	if !raw {
		s = strings.ToValidUTF8(s, "")
	}
	return regexp.QuoteMeta(s)
}

func genRegexp(t *T, st State, raw bool) string {
	if st.P <= len(st.Text)+1 && t.P(1, 10) {
		return reaching(t, st, raw, t.Bool())
	}
	if t.long || len(st.Text) > longText {
		switch t.W(3, 4, 1) {
		case 0:
			return regexp.QuoteMeta(genLiteral(t, st, raw))
		case 1:
			return pick(t, linearRe)
		}
		return pick(t, badRe)
	}
	switch t.W(6, 8, 2, 2, 1) {
	case 0:
		q := regexp.QuoteMeta(genLiteral(t, st, raw))
		if t.P(1, 3) {
			q = dressed(t, q)
		}
		return q
	case 1:
		n := t.R(1, 3)
		s := ""
		for i := 0; i < n; i++ {
			s += pick(t, []string{".", "a", "[a-z]+", "\\w+", "\\d+", ".*", ".+?", "a*", "(a)", "foo|bar", "(?:foo|bar)", "[^\\n]*", "\\s+", "b?", "x{2}", "(a|ab)", "(\\w)(\\w)", "[A-Z]", "\\.", "\\(", "[[:alpha:]]+", "é", "(?i)foo", "(?s).", "\\n", "\\S", "a|b|", "o", " ", "[ab]+", "\\pL+", "\\x{e9}", "\\Qa.b\\E", "\\Qfoo", "\\(.*\\)"})
		}
		return s
	case 2:
		return pick(t, []string{"^", "$", "^a", "a$", "\\ba", "a\\b", "(?m)^", "(?m)$", "(?m)^\\w+", "\\w+$", "\\B", "\\A", "\\z", "(?m)^$", ""})
	case 3:
		return pick(t, badRe)
	}
	return genLiteral(t, st, raw) // unquoted
}

// dressed is a pattern for a text with something before or behind it, or around it.
func dressed(t *T, q string) string {
	switch t.N(4) {
	case 0:
		return pick(t, []string{"^", "\\A", "\\b", "\\B", "(?m)^", "(?i)", "(?s)", "(?U)", "(?:^|x)", ".", ".*", "\\n", "(?i:x)?", "[ab]?", "(?m:^|x)"}) + q
	case 1:
		return q + pick(t, []string{"$", "\\z", "\\b", "\\B", "(?m)$", "(?m:$)", "+", "*", "?", "{2}", "|zz", ".*", ".*?", "(?i:X)?", "\\n", "|", "(?:$|x)"})
	case 2:
		return pick(t, []string{"(", "(?:", "(?i:", "(?P<n>", "(?m:^", "(?s-m:", "\\A(", "^("}) + q + pick(t, []string{")", ")", ")+", ")*", ")?", ")$"})
	}
	return pick(t, []string{"^", "\\A", "(?m)^", "\\b"}) + q + pick(t, []string{"$", "\\z", "\\b", "+", ".*"})
}

// genArgs makes fitting arguments for a function, given the state it meets.
func genArgs(t *T, st State, fn string, raw bool) []Val {
	s := sigs[fn]
	n := s.min
	if s.max < 0 {
		n = t.Small(8)
		if t.P(1, 12) {
			n = min(genSize(t, 300), 300)
		}
	} else if s.max > s.min && t.P(2, 3) {
		n = s.max
	}
	var a []Val
	for i := 0; i < n; i++ {
		switch k := s.kinds[min(i, len(s.kinds)-1)]; k {
		case 'n':
			switch fn {
			case "goto-char", "set-mark-command", "buffer-substring":
				if fn == "buffer-substring" && i == 1 && t.P(1, 4) {
					a = append(a, VN(-1))
				} else {
					a = append(a, VN(genPos(t, st)))
				}
			case "substring":
				a = append(a, VN(genPos(t, State{Text: string(a[0].S), P: 1, M: 1})))
			default:
				a = append(a, VN(genCount(t, st)))
			}
		default:
			switch {
			case fn == "search-forward" || fn == "search-backward":
				a = append(a, VS(genLiteral(t, st, raw)))
			case fn == "re-search-forward" || fn == "re-search-backward" || fn == "looking-at":
				a = append(a, VS(genRegexp(t, st, raw)))
			case fn == "looking-back":
				// patterns that match just before point, or from far before it
				if st.P > 1 && t.P(1, 4) {
					a = append(a, VS(reaching(t, st, raw, true)))
				} else if t.Bool() && st.P > 1 {
					k := t.R(1, min(6, st.P-1))
					x := st.Text[st.P-1-k : st.P-1]
					if !raw {
						x = strings.ToValidUTF8(x, "")
					}
					if t.Bool() {
						x = regexp.QuoteMeta(x)
					}
					a = append(a, VS(x))
				} else {
					a = append(a, VS(genRegexp(t, st, raw)))
				}
			case (fn == "string-match" || fn == "replace-regexp-in-string") && i == 0:
				a = append(a, VS(genRegexp(t, st, raw)))
			case (fn == "string-match" && i == 1) || (fn == "replace-regexp-in-string" && i == 2):
				if t.Bool() && (raw || utf8.ValidString(st.Text)) {
					a = append(a, VS(st.Text))
				} else {
					a = append(a, VS(genText(t, textOpt{raw: raw, max: 300})))
				}
			case owner[fn] == "C09":
				if t.W(2, 1) == 0 {
					a = append(a, VS(genStr(t, raw)))
				} else {
					a = append(a, VS(genText(t, textOpt{raw: raw, max: 300})))
				}
			default:
				a = append(a, VS(genStr(t, raw)))
			}
		}
	}
	return a
}

func genCall(t *T, st State, fn string, raw bool) Val { return Call(fn, genArgs(t, st, fn, raw)...) }

// initState makes a text with point and mark somewhere in it.
func genState(t *T, o textOpt) State {
	st := State{Text: genText(t, o), P: 1, M: 1}
	n := len(st.Text)
	place := func() int {
		switch t.W(3, 6, 3, 2) {
		case 0:
			return 1
		case 1:
			return t.R(1, n+1)
		case 2:
			return n + 1
		}
		// right behind or before a line end
		if i := strings.IndexByte(st.Text, '\n'); i >= 0 {
			return clamp(i+1+t.N(3)-1+1, n)
		}
		return clamp(n, n)
	}
	st.P = place()
	st.M = place()
	return st
}

// step advances a model state for generating what comes next.
func step(st State, v Val) State {
	p := predict(st, v.Fn(), v.Args())
	if p.Err || p.Unspec {
		return st
	}
	return p.St
}

var fnGroups = map[string][]string{}

// genFn picks a function: mostly of the focus, otherwise of any group.
func genFn(t *T, focus []string) string {
	if len(focus) > 0 && t.P(3, 5) {
		return pick(t, focus)
	}
	switch t.W(4, 4, 3, 3, 2, 1, 1) {
	case 0:
		return pick(t, fnGroups["C04"])
	case 1:
		return pick(t, fnGroups["C03"])
	case 2:
		return pick(t, fnGroups["C05"])
	case 3:
		return pick(t, fnGroups["C07"])
	case 4:
		return "replace-match"
	case 5:
		return pick(t, fnGroups["C08"])
	}
	return pick(t, fnGroups["C09"])
}

// genHistory makes instructions that fit the states they meet.
func genHistory(t *T, st State, focus []string, n int, raw bool) []Val {
	var is []Val
	for i := 0; i < n; i++ {
		v := genCall(t, st, genFn(t, focus), raw)
		is = append(is, v)
		st = step(st, v)
		if len(st.Text) > 20000 {
			break
		}
	}
	return is
}

func isValid(s string) bool { return utf8.ValidString(s) }

func nan() float64      { return math.NaN() }
func inf(s int) float64 { return math.Inf(s) }
