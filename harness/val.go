package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
)

// B is a byte string that survives JSON.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}
func (b *B) UnmarshalJSON(d []byte) error {
	var q string
	if err := json.Unmarshal(d, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*b = B(s)
	return err
}

// F is a number that survives JSON, infinities included.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}
func (f *F) UnmarshalJSON(d []byte) error {
	var q string
	if err := json.Unmarshal(d, &q); err != nil {
		return err
	}
	v, err := strconv.ParseFloat(q, 64)
	*f = F(v)
	return err
}

// Val is a value of the language: K is s(tring), n(umber), y (symbol) or l(ist).
type Val struct {
	K string `json:"k"`
	S B      `json:"s,omitempty"`
	N F      `json:"n,omitempty"`
	L []Val  `json:"l,omitempty"`
}

func VS(s string) Val  { return Val{K: "s", S: B(s)} }
func VN(n float64) Val { return Val{K: "n", N: F(n)} }
func VI(n int) Val     { return VN(float64(n)) }
func VY(s string) Val  { return Val{K: "y", S: B(s)} }
func VL(l ...Val) Val  { return Val{K: "l", L: l} }
func Call(fn string, a ...Val) Val {
	return Val{K: "l", L: append([]Val{VY(fn)}, a...)}
}
func (v Val) Fn() string {
	if v.K == "l" && len(v.L) > 0 && v.L[0].K == "y" {
		return string(v.L[0].S)
	}
	return ""
}
func (v Val) Args() []Val {
	if v.K == "l" && len(v.L) > 0 {
		return v.L[1:]
	}
	return nil
}

// E converts to the program values of the library.
func (v Val) E() edlisp.Value {
	switch v.K {
	case "s":
		return edlisp.NewString(string(v.S))
	case "n":
		return edlisp.NewNumber(float64(v.N))
	case "y":
		return edlisp.NewSymbol(string(v.S))
	case "l":
		l := make([]edlisp.Value, len(v.L))
		for i, x := range v.L {
			l[i] = x.E()
		}
		return &edlisp.List{Elements: l}
	}
	panic("bad value kind " + v.K)
}
func prog(vs []Val) []edlisp.Value {
	p := make([]edlisp.Value, len(vs))
	for i, v := range vs {
		p[i] = v.E()
	}
	return p
}

// progShared is like prog, but parts that are equal are one value.
func progShared(vs []Val) []edlisp.Value {
	seen := map[string]edlisp.Value{}
	var mk func(v Val) edlisp.Value
	mk = func(v Val) edlisp.Value {
		key := v.K + v.String()
		if e, ok := seen[key]; ok {
			return e
		}
		e := v.E()
		if v.K == "l" {
			var es []edlisp.Value
			for _, x := range v.L {
				es = append(es, mk(x))
			}
			e = edlisp.NewList(es...)
		}
		seen[key] = e
		return e
	}
	p := make([]edlisp.Value, len(vs))
	for i, v := range vs {
		p[i] = mk(v)
	}
	return p
}

// fromE converts a value of the library.
func fromE(v edlisp.Value) Val {
	switch x := v.(type) {
	case *edlisp.String:
		return VS(x.Value)
	case *edlisp.Number:
		return VN(x.Value)
	case *edlisp.Symbol:
		return VY(x.Name)
	case *edlisp.List:
		l := make([]Val, len(x.Elements))
		for i, e := range x.Elements {
			l[i] = fromE(e)
		}
		return Val{K: "l", L: l}
	case nil:
		return Val{K: "0"}
	}
	return Val{K: "?", S: B(fmt.Sprintf("%T %v", v, v))}
}
func fromProg(p []edlisp.Value) []Val {
	r := make([]Val, len(p))
	for i, v := range p {
		r[i] = fromE(v)
	}
	return r
}

// eq is equality of kind and content, independent of the library's.
func eq(a, b Val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case "n":
		return a.N == b.N || (math.IsNaN(float64(a.N)) && math.IsNaN(float64(b.N)))
	case "l":
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !eq(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	}
	return a.S == b.S
}
func eqs(a, b []Val) bool { return eq(VL(a...), VL(b...)) }

func (v Val) String() string {
	switch v.K {
	case "s":
		return strconv.Quote(string(v.S))
	case "n":
		return fnum(float64(v.N))
	case "y":
		return string(v.S)
	case "l":
		p := make([]string, len(v.L))
		for i, x := range v.L {
			p[i] = x.String()
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	return "<" + v.K + ">" + string(v.S)
}
func fnum(n float64) string {
	if n == math.Trunc(n) && math.Abs(n) < 1e15 {
		return strconv.FormatFloat(n, 'f', -1, 64)
	}
	return strconv.FormatFloat(n, 'g', -1, 64)
}

func hasNested(v Val) bool {
	for _, a := range v.Args() {
		if a.K == "l" {
			return true
		}
	}
	return false
}
func validStrings(v Val) bool {
	if v.K == "s" && !utf8.ValidString(string(v.S)) {
		return false
	}
	for _, x := range v.L {
		if !validStrings(x) {
			return false
		}
	}
	return true
}

// ---- renderings, independent of the library's writers

// quoting styles
func quoteStr(s string, style int, t *T) string {
	switch style {
	case 1:
		return strconv.QuoteToASCII(s)
	case 2: // every byte as \xNN
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, `\x%02x`, s[i])
		}
		b.WriteByte('"')
		return b.String()
	case 3: // as raw as possible
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); {
			r, n := utf8.DecodeRuneInString(s[i:])
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteByte(byte(r))
			case r == '\n':
				b.WriteString(`\n`)
			case r == '\r':
				b.WriteString(`\r`)
			case r == utf8.RuneError && n <= 1:
				fmt.Fprintf(&b, `\x%02x`, s[i])
			default:
				b.WriteString(s[i : i+n])
			}
			i += n
		}
		b.WriteByte('"')
		return b.String()
	case 4: // a random spelling for every character
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); {
			r, n := utf8.DecodeRuneInString(s[i:])
			bad := r == utf8.RuneError && n <= 1
			opt := 0
			if t != nil {
				opt = t.N(5)
			}
			switch {
			case bad || opt == 1:
				for j := 0; j < n; j++ {
					fmt.Fprintf(&b, `\x%02x`, s[i+j])
				}
			case opt == 2:
				for j := 0; j < n; j++ {
					fmt.Fprintf(&b, `\%03o`, s[i+j])
				}
			case opt == 3 && r <= 0xffff:
				fmt.Fprintf(&b, `\u%04x`, r)
			case opt == 4:
				fmt.Fprintf(&b, `\U%08X`, r)
			default:
				q := strconv.Quote(s[i : i+n])
				b.WriteString(q[1 : len(q)-1])
			}
			i += n
		}
		b.WriteByte('"')
		return b.String()
	}
	return strconv.Quote(s)
}

func numStr(n float64, style int) string {
	switch style {
	case 1:
		return strconv.FormatFloat(n, 'e', -1, 64)
	case 2:
		if math.Abs(n) < 1e18 {
			return strconv.FormatFloat(n, 'f', -1, 64)
		}
	}
	return strconv.FormatFloat(n, 'g', -1, 64)
}

func renderSexp(v Val, q int, t *T) string {
	switch v.K {
	case "s":
		return quoteStr(string(v.S), q, t)
	case "n":
		return numStr(float64(v.N), 0)
	case "y":
		return string(v.S)
	}
	p := make([]string, len(v.L))
	for i, x := range v.L {
		p[i] = renderSexp(x, q, t)
	}
	return "(" + strings.Join(p, " ") + ")"
}
func renderShell(v Val, q int, t *T) string {
	p := make([]string, len(v.L))
	for i, x := range v.L {
		p[i] = renderSexp(x, q, t)
	}
	return strings.Join(p, " ")
}
func jsonStr(s string, ascii bool) string {
	b, _ := json.Marshal(s)
	if !ascii {
		return string(b)
	}
	var o strings.Builder
	for _, r := range string(b) {
		if r < 0x80 {
			o.WriteRune(r)
		} else if r > 0xffff {
			r -= 0x10000
			fmt.Fprintf(&o, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		} else {
			fmt.Fprintf(&o, `\u%04x`, r)
		}
	}
	return o.String()
}
func renderJSON(v Val, ascii bool) string {
	switch v.K {
	case "s", "y":
		return jsonStr(string(v.S), ascii)
	case "n":
		return numStr(float64(v.N), 0)
	}
	p := make([]string, len(v.L))
	for i, x := range v.L {
		p[i] = renderJSON(x, ascii)
	}
	return "[" + strings.Join(p, ",") + "]"
}

func shellScript(vs []Val) string { return scriptOf(vs, "shell") }
func scriptOf(vs []Val, format string) string {
	var l []string
	for _, v := range vs {
		switch format {
		case "shell":
			l = append(l, renderShell(v, 0, nil))
		case "sexp":
			l = append(l, renderSexp(v, 0, nil))
		case "json":
			l = append(l, renderJSON(v, false))
		case "jsonarray":
			l = append(l, renderJSON(v, false))
		}
	}
	if format == "jsonarray" {
		return "[" + strings.Join(l, ",\n ") + "]"
	}
	return strings.Join(l, "\n")
}

func clip(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q… (%d bytes)", s[:400], len(s))
	}
	return strconv.Quote(s)
}

func sortedKeys[X any](m map[string]X) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
