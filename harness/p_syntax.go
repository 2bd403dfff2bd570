package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
)

// ---- a reference reader of the three syntaxes

var errOpen = errors.New("not determined") // outside of what the documentation defines

// refLines reads shell-like lines and S-expressions.
func refLines(s string) ([]Val, error) {
	if !isValid(s) {
		return nil, errOpen
	}
	res := []Val{}
	for _, line := range strings.Split(s, "\n") {
		line = strings.TrimSuffix(line, "\r")
		cmds, err := refTokens(line)
		if err != nil {
			return nil, err
		}
		for _, c := range cmds {
			v, err := refCommand(c)
			if err != nil {
				return nil, err
			}
			res = append(res, v)
		}
	}
	return res, nil
}

type tok struct {
	kind byte // ( ) a(tom) "
	text string
}

func refTokens(line string) (cmds [][]tok, err error) {
	var cur []tok
	i := 0
	for i < len(line) {
		switch c := line[i]; {
		case c == ' ' || c == '\t':
			i++
		case c == ';':
			if len(cur) > 0 {
				cmds = append(cmds, cur)
			}
			cur = nil
			i++
		case c == '(' || c == ')':
			cur = append(cur, tok{c, string(c)})
			i++
		case c == '"':
			j := i + 1
			for j < len(line) && line[j] != '"' {
				if line[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(line) {
				return nil, fmt.Errorf("unterminated string")
			}
			j++
			if j < len(line) && !strings.ContainsRune(" \t;()", rune(line[j])) {
				return nil, errOpen // something glued to a string
			}
			cur = append(cur, tok{'"', line[i:j]})
			i = j
		default:
			j := i
			for j < len(line) && !strings.ContainsRune(" \t;()", rune(line[j])) {
				if line[j] == '"' || line[j] == '\\' || line[j] < ' ' || line[j] == 0x7f {
					return nil, errOpen
				}
				j++
			}
			a := line[i:j]
			if strings.TrimSpace(a) != a {
				return nil, errOpen // exotic blanks
			}
			cur = append(cur, tok{'a', a})
			i = j
		}
	}
	if len(cur) > 0 {
		cmds = append(cmds, cur)
	}
	return cmds, nil
}

func refAtom(t tok) (Val, error) {
	if t.kind == '"' {
		s, err := strconv.Unquote(t.text)
		return VS(s), err
	}
	n, err := strconv.ParseFloat(t.text, 64)
	if errors.Is(err, strconv.ErrRange) {
		return Val{}, errOpen
	}
	if err == nil {
		return VN(n), nil
	}
	return VY(t.text), nil
}

func refCommand(ts []tok) (Val, error) {
	pos := 0
	var list func(depth int) (Val, error)
	elem := func(depth int) (Val, error) {
		t := ts[pos]
		pos++
		switch t.kind {
		case '(':
			if depth > 5000 {
				return Val{}, errOpen
			}
			return list(depth + 1)
		case ')':
			return Val{}, fmt.Errorf("stray parenthesis")
		}
		return refAtom(t)
	}
	list = func(depth int) (Val, error) {
		v := VL()
		for {
			if pos >= len(ts) {
				return Val{}, fmt.Errorf("unterminated list")
			}
			if ts[pos].kind == ')' {
				pos++
				return v, nil
			}
			x, err := elem(depth)
			if err != nil {
				return Val{}, err
			}
			v.L = append(v.L, x)
		}
	}
	if ts[0].kind == '(' {
		v, err := elem(0)
		if err == nil && pos < len(ts) {
			err = fmt.Errorf("text after the expression")
		}
		return v, err
	}
	v := VL()
	for pos < len(ts) {
		x, err := elem(0)
		if err != nil {
			return Val{}, err
		}
		v.L = append(v.L, x)
	}
	return v, nil
}

// refJSON reads JSON commands, one after the other or in an enclosing array.
func refJSON(s string) ([]Val, error) {
	if !isValid(s) || strings.Contains(s, `\u`) && strings.Contains(strings.ToLower(s), `\ud`) {
		return nil, errOpen // lone surrogates
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	res := []Val{}
	for {
		var raw json.RawMessage
		if err := d.Decode(&raw); err == io.EOF {
			return res, nil
		} else if err != nil {
			return nil, err
		}
		var items []json.RawMessage
		if raw[0] != '[' || json.Unmarshal(raw, &items) != nil {
			return nil, fmt.Errorf("not an array")
		}
		if len(items) == 0 || items[0][0] != '"' {
			for _, it := range items {
				if it[0] != '[' {
					return nil, fmt.Errorf("not an array")
				}
				v, err := refJSONCall(it)
				if err != nil {
					return nil, err
				}
				res = append(res, v)
			}
			continue
		}
		v, err := refJSONCall(raw)
		if err != nil {
			return nil, err
		}
		res = append(res, v)
	}
}
func refJSONCall(raw json.RawMessage) (Val, error) {
	var items []json.RawMessage
	if err := json.Unmarshal(raw, &items); err != nil {
		return Val{}, err
	}
	v := VL()
	for i, it := range items {
		switch c := it[0]; {
		case c == '"':
			var s string
			if err := json.Unmarshal(it, &s); err != nil {
				return Val{}, err
			}
			if i == 0 {
				v.L = append(v.L, VY(s))
			} else {
				v.L = append(v.L, VS(s))
			}
		case i == 0:
			return Val{}, fmt.Errorf("no name")
		case c == '[':
			x, err := refJSONCall(it)
			if err != nil {
				return Val{}, err
			}
			v.L = append(v.L, x)
		case c == '-' || '0' <= c && c <= '9':
			n, err := strconv.ParseFloat(string(it), 64)
			if err != nil {
				return Val{}, errOpen
			}
			v.L = append(v.L, VN(n))
		default:
			return Val{}, fmt.Errorf("not a string, number or array")
		}
	}
	return v, nil
}

// ---- programs that all syntaxes express

// genName makes a name that every syntax can write.
func genName(t *T) string {
	if t.P(3, 4) {
		return pick(t, allFns)
	}
	n := pick(t, []string{"x", "foo-bar", "é", "日本", "+", "-", "*", "/", "<=", "a.b", "a:b", "a,b", "a'b", "'x", "#x", "&rest", "?", "!", "$1", "%s", "_", "~", "^", "=", "1+", "-x", "insert#", "a/b", "e5", "infx", "nanx", "x1", "1st", "0x", "--flag", "{}", "|", "`", "@@", "nil", "t"})
	if t.Bool() {
		n += pick(t, []string{"", "-", "1", "é", "x", "'"})
	}
	if _, err := strconv.ParseFloat(n, 64); err == nil {
		return "x"
	}
	return n
}

func genNumber(t *T) float64 {
	switch t.W(6, 4, 3, 3) {
	case 0:
		return float64(t.R(-5, 100))
	case 1:
		return float64(pick(t, dict().ints)) + float64(t.N(3)-1)
	case 2:
		return pick(t, []float64{0.5, -0.25, 1.5, 3.14159, 1e6, 123456789, 1e15, 1e16, 9007199254740991, 9007199254740992, 9007199254740993, 1e20, 1e21, 1e22, -1e21, 1e-6, 1e-7, 1e100, 1e300, 5e-324, 1.7976931348623157e308, 2147483647, 2147483648, 4294967296, 9223372036854775807, 9223372036854775808, 1.8446744073709552e19, 0.1, 100000, 1000000, 10000000, 999999.5})
	}
	n := math.Float64frombits(uint64(t.N(1<<31))<<33 | uint64(t.N(1<<31))<<2)
	if math.IsNaN(n) || math.IsInf(n, 0) {
		return 1
	}
	return n
}

// genAnyCall makes a call of any shape.
func genFreeCall(t *T, depth int, raw bool) Val {
	v := Call(genName(t))
	n := t.N(5)
	if t.P(1, 40) {
		n = t.N(200)
	}
	for i := 0; i < n; i++ {
		switch t.W(5, 3, 2) {
		case 0:
			if t.W(3, 1) == 0 {
				v.L = append(v.L, VS(genStr(t, raw)))
			} else {
				v.L = append(v.L, VS(genText(t, textOpt{raw: raw, max: 300})))
			}
		case 1:
			v.L = append(v.L, VN(genNumber(t)))
		case 2:
			if depth > 0 {
				v.L = append(v.L, genFreeCall(t, depth-1, raw))
			}
		}
	}
	return v
}

type SyntaxCase struct {
	Text  B     `json:"text"`
	Is    []Val `json:"instructions"`
	Q     int   `json:"quoting"`
	Num   int   `json:"numbers"`
	Spell int   `json:"spelling"` // seeds the choices among equivalent spellings
	ASCII bool  `json:"ascii"`
	Run   bool  `json:"run"`
}

func genSyntax(t *T) *SyntaxCase {
	c := &SyntaxCase{Q: t.N(5), Num: t.N(3), ASCII: t.Bool(), Spell: t.N(1 << 20), Run: true}
	switch t.W(30, 24, 3) {
	case 0:
		st := State{Text: genText(t, textOpt{raw: t.P(1, 8), max: 600, big: 400}), P: 1, M: 1}
		c.Text = B(st.Text)
		c.Is = genScript(t, st, t.N(7), true)
	case 1:
		c.Text = B(genText(t, textOpt{max: 100}))
		for k := t.R(1, 5); k > 0; k-- {
			c.Is = append(c.Is, genFreeCall(t, t.N(4), false))
		}
	case 2: // deep
		d := t.R(1, 60)
		if t.P(1, 30) {
			d = t.R(60, 2000)
		}
		v := Call("concat", VS(genStr(t, false)))
		for i := 0; i < d; i++ {
			v = Call(pick(t, []string{"concat", "upcase", "x"}), v)
			for k := t.N(3); k > 0 && d < 100; k-- {
				v.L = append(v.L, VS(pick(t, []string{"", "a", ")", "(", "\""})))
			}
		}
		c.Is = []Val{Call("insert", v)}
	}
	if t.P(1, 600) {
		c.Is = pump(t, genLinear(t))
	}
	return c
}

// spelled writes the program with the chosen spellings.
func (c *SyntaxCase) spelled(format string) string {
	t := newT(uint64(c.Spell), 7)
	var f func(v Val) string
	f = func(v Val) string {
		switch v.K {
		case "s":
			return quoteStr(string(v.S), c.Q, t)
		case "n":
			return numStr(float64(v.N), c.Num)
		case "y":
			return string(v.S)
		}
		p := make([]string, len(v.L))
		for i, x := range v.L {
			p[i] = f(x)
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	var j func(v Val) string
	j = func(v Val) string {
		switch v.K {
		case "n":
			return numStr(float64(v.N), c.Num)
		case "l":
			p := make([]string, len(v.L))
			for i, x := range v.L {
				p[i] = j(x)
			}
			return "[" + strings.Join(p, pick(t, []string{",", ", ", " ,\n\t"})) + "]"
		}
		return jsonStr(string(v.S), c.ASCII)
	}
	var l []string
	for _, v := range c.Is {
		switch format {
		case "shell":
			s := f(v)
			l = append(l, s[1:len(s)-1])
		case "sexp":
			l = append(l, f(v))
		default:
			l = append(l, j(v))
		}
	}
	switch format {
	case "json":
		return strings.Join(l, pick(t, []string{"\n", "", " ", "\r\n"}))
	case "jsonarray":
		return "[" + strings.Join(l, ",") + "]"
	}
	return strings.Join(l, "\n")
}

func mustParse(r *Rec, how, s string, want []Val, got []edlisp.Value, err error) {
	if err != nil {
		r.Fail("%s refuses %s: %v", how, clip(s), err)
	}
	if g := fromProg(got); !eqs(g, want) {
		r.Fail("%s reads %s as %s instead of %s", how, clip(s), clip(VL(g...).String()), clip(VL(want...).String()))
	}
}

func shapes(is []Val) (nested, str bool) {
	for _, v := range is {
		nested = nested || hasNested(v)
		for _, a := range v.Args() {
			str = str || a.K == "s" && a.S != ""
		}
	}
	return
}

// jsonSpace is what JSON allows before a value.
var jsonSpace = []string{"", "\n", "\t", "\r\n", " ", "\n\n  ", "\r", " \t\n", "\t\t"}

func runSyntax(c *SyntaxCase, r *Rec) {
	sh, sx, js, ja := c.spelled("shell"), c.spelled("sexp"), c.spelled("json"), c.spelled("jsonarray")
	check := func(how, s string, f func() ([]edlisp.Value, error)) {
		p, err := f()
		mustParse(r, how, s, c.Is, p, err)
	}
	check("ParseString", sh, func() ([]edlisp.Value, error) { return parser.ParseString(sh) })
	check("ParseReader", sh, func() ([]edlisp.Value, error) { return parser.ParseReader(strings.NewReader(sh)) })
	check("ParseFormat shell", sh, func() ([]edlisp.Value, error) { return parser.ParseFormat("shell", sh) })
	check("ParseString", sx, func() ([]edlisp.Value, error) { return parser.ParseString(sx) })
	check("ParseJSONString", ja, func() ([]edlisp.Value, error) { return parser.ParseJSONString(ja) })
	check("ParseFormat json", ja, func() ([]edlisp.Value, error) { return parser.ParseFormat("json", ja) })
	check("ParseJSONReader", js, func() ([]edlisp.Value, error) { return parser.ParseJSONReader(strings.NewReader(js)) })
	if len(c.Is) == 1 {
		check("ParseSexp", sx, func() ([]edlisp.Value, error) { return parser.ParseSexp(sx) })
		check("ParseFormat sexp", sx, func() ([]edlisp.Value, error) { return parser.ParseFormat("sexp", sx) })
	}
	if !strings.HasPrefix(strings.TrimSpace(sh), "[") {
		check("ParseScript", sh, func() ([]edlisp.Value, error) { return parser.ParseScript(sh) })
	}
	lead := jsonSpace[c.Spell%len(jsonSpace)]
	lja, ljs := lead+ja, lead+js
	check("ParseScript", lja, func() ([]edlisp.Value, error) { return parser.ParseScript(lja) })
	if len(c.Is) > 0 {
		check("ParseScript", ljs, func() ([]edlisp.Value, error) { return parser.ParseScript(ljs) })
	}
	if len(c.Is) > 0 {
		r.NonTrivial()
		nested, _ := shapes(c.Is)
		if nested {
			r.Label("nested")
		} else {
			r.Label("flat")
		}
	}
	if growth(sh) > 4 {
		return
	}
	b := edlisp.NewBuffer(string(c.Text))
	_, err := edlisp.Eval(prog(c.Is), edlisp.NewDefaultEnvironment(), b)
	for _, x := range []struct{ format, script string }{{"shell", sh}, {"sexp", sx}, {"json", js}, {"json", ja}, {"shell", sx}, {"", sh}, {"", ja}, {"", lja}, {"", ljs}} {
		var out string
		var e error
		if x.format == "" {
			if x.script == sh && strings.HasPrefix(strings.TrimSpace(sh), "[") || x.script == ljs && len(c.Is) == 0 {
				continue
			}
			out, e = texted.ExecuteScript(string(c.Text), x.script)
		} else {
			out, e = texted.ExecuteScriptWithFormat(string(c.Text), x.script, x.format)
		}
		sameOutcome(r, "as "+x.format+" "+clip(x.script), b.String(), err, out, e)
	}
	if err != nil {
		r.Label("fails")
	} else {
		r.Label("succeeds")
	}
}

// sameOutcome compares a run through some interface with the reference run.
func sameOutcome(r *Rec, how, text string, err error, out string, e error) {
	if (err == nil) != (e == nil) {
		r.Fail("%s: error %v instead of %v", how, e, err)
	}
	if err == nil {
		if out != text {
			r.Fail("%s: text %s instead of %s", how, clip(out), clip(text))
		}
		return
	}
	if out != "" {
		r.Fail("%s: fails (%v) and still returns %s", how, e, clip(out))
	}
	var a, b *edlisp.ExecutionError
	if !errors.As(err, &a) || !errors.As(e, &b) {
		r.Fail("%s: error %T %v instead of %v", how, e, e, err)
	}
	if a.InstructionIndex != b.InstructionIndex || cause(err) != cause(e) || a.Point != b.Point || a.Mark != b.Mark || a.BufferContents != b.BufferContents {
		r.Fail("%s: fails with %v instead of %v", how, e, err)
	}
}

// scriptNames are names of files with scripts; they say nothing about the syntax.
var scriptNames = []string{"script", "script", "s.json", "s.sexp", "s.shell", "s.sh", "s.txt", "s.texted", "s.el", "s.lisp", ".script", "s.JSON", "sexp", "json", "shell", "script.xml", "s.txt.json", "s.bak"}

func scriptName(s string) string {
	h := fnv.New32a()
	h.Write([]byte(s))
	return scriptNames[int(h.Sum32()>>3)%len(scriptNames)]
}

func runSyntaxCLI(c *SyntaxCase, r *Rec) {
	if len(c.Is) == 0 || growth(c.spelled("shell")) > 4 {
		return
	}
	dir, done := scratch(r)
	defer done()
	b := edlisp.NewBuffer(string(c.Text))
	_, err := edlisp.Eval(prog(c.Is), edlisp.NewDefaultEnvironment(), b)
	for _, f := range []string{"shell", "sexp", "json", "jsonarray"} {
		s := c.spelled(f)
		flag := strings.TrimSuffix(f, "array")
		var o cliOut
		if c.Spell%2 == 0 || len(s) > 100000 {
			name := scriptName(s)
			put(r, filepath.Join(dir, name), s)
			args := []string{"edit", "--format", flag, "-f", name}
			switch {
			case flag == "shell" && c.Spell%3 > 0: // which it is without being told
				args = []string{"edit", "-f", name}
			case c.Spell%3 == 1:
				args = []string{"edit", "--" + flag, "-f", name}
			}
			o = cli(r, dir, string(c.Text), args...)
		} else {
			o = cli(r, dir, string(c.Text), "edit", "--format", flag, "-s", s)
		}
		if (o.code == 0) != (err == nil) {
			r.Fail("as %s: %s\nthe program gives error %v", f, o, err)
		}
		if err == nil && o.stdout != b.String() {
			r.Fail("as %s: %s\nthe program gives %s", f, o, clip(b.String()))
		}
		if err != nil && (o.stdout != "" || !strings.Contains(o.stderr, fmt.Sprintf("instruction %d", err.(*edlisp.ExecutionError).InstructionIndex)) || !strings.Contains(o.stderr, cause(err))) {
			r.Fail("as %s: %s\nthe program gives error %v", f, o, err)
		}
	}
	r.NonTrivial()
}

// ---- C14

type ConvCase struct {
	Is    []Val    `json:"program"`
	Chain []string `json:"chain"`
}

func genAnyProgram(t *T) []Val {
	var is []Val
	raw := t.P(1, 4)
	for k := t.N(6); k > 0; k-- {
		v := genFreeCall(t, []int{0, 0, 1, 3}[t.N(4)], raw)
		is = append(is, v)
	}
	if len(is) > 0 && t.P(1, 4) { // something that not every syntax can express
		v := &is[t.N(len(is))]
		i := t.N(len(v.L) + 1)
		x := Val{}
		switch t.N(7) {
		case 0:
			x = VY(genName(t))
		case 1:
			x = VY(pick(t, []string{"a b", "", "5", "(x)", "a\"b", "a;b", "\"q\"", "x\n", " x", "x ", "inf", "NaN", "1e5", "a\tb", "insert \"x\"; point", "0x1p4", "\xff", "a\rb", "\u00a0x", ")"}))
		case 2:
			x = VN(pick(t, []float64{inf(1), inf(-1), nan()}))
		case 3:
			x = VS(pick(t, []string{"\xff", "a\x80", "\xed\xa0\x80", "é\xc3"}))
		case 4:
			x = VL()
		case 5:
			x = Call("concat", VS("x"))
		case 6:
			x = VL(VS("a"), VN(1))
		}
		v.L = append(v.L[:i:i], append([]Val{x}, v.L[i:]...)...)
	}
	return is
}

func genConv(t *T) *ConvCase {
	c := &ConvCase{Is: genAnyProgram(t)}
	for k := t.R(2, 5); k > 0; k-- {
		c.Chain = append(c.Chain, pick(t, formats))
	}
	if t.P(1, 300) {
		c.Is = pump(t, c.Is)
	}
	return c
}

// plainSymbol: a name that lines can spell. open: that is not determined.
func plainSymbol(s string) (ok, open bool) {
	v, err := refLines("x " + s)
	if err == errOpen {
		if strings.ContainsAny(s, " \t\n\"();") || !isValid(s) {
			return false, strings.ContainsAny(s, "\"\\") // a quote inside of a name
		}
		return false, true
	}
	return err == nil && len(v) == 1 && eqs(v[0].L, []Val{VY("x"), VY(s)}) && !strings.Contains(s, "\r"), strings.Contains(s, "\r")
}

// expressible tells whether a syntax can write the program.
func expressible(is []Val, format string) (ok, open bool) {
	ok = true
	var walk func(v Val, top bool)
	walk = func(v Val, top bool) {
		switch v.K {
		case "y":
			if format == "json" {
				ok = ok && isValid(string(v.S))
			} else {
				p, o := plainSymbol(string(v.S))
				ok = ok && p
				open = open || o
			}
		case "n":
			if n := float64(v.N); math.IsNaN(n) || math.IsInf(n, 0) {
				if format == "json" {
					ok = false
				}
			}
		case "s":
			if format == "json" && !isValid(string(v.S)) {
				ok = false
			}
		case "l":
			if len(v.L) == 0 && top {
				open = true
			}
			if !top && format == "shell" {
				ok = false
			}
			for i, x := range v.L {
				if format == "json" && (x.K == "y") != (i == 0) {
					ok = false
				}
				if top && i == 0 && x.K == "l" && format == "shell" {
					ok = false
				}
				walk(x, false)
			}
		}
	}
	for _, v := range is {
		walk(v, true)
	}
	return ok, open
}

func parseBack(format, s string) ([]edlisp.Value, error) {
	if format == "json" {
		return parser.ParseJSONScript(strings.NewReader(s))
	}
	return parser.ParseString(s)
}

func runConv(c *ConvCase, r *Rec) {
	for _, f := range formats {
		ok, open := expressible(c.Is, f)
		if open {
			continue
		}
		w, err := writer.NewWriter(writer.Format(f))
		if err != nil {
			r.Fail("NewWriter(%s): %v", f, err)
		}
		var sb strings.Builder
		err = w.Write(&sb, prog(c.Is))
		if !ok {
			r.Label("not expressible as " + f)
			if err == nil {
				r.Fail("%s cannot be expressed as %s, but is written as %s", clip(VL(c.Is...).String()), f, clip(sb.String()))
			}
			continue
		}
		r.Label("written as " + f)
		if err != nil {
			r.Fail("%s cannot be written as %s: %v", clip(VL(c.Is...).String()), f, err)
		}
		p, err := parseBack(f, sb.String())
		mustParse(r, "after writing as "+f+", the parser", sb.String(), c.Is, p, err)
		// one value at a time
		for _, v := range c.Is {
			var one strings.Builder
			if err := w.WriteValue(&one, v.E()); err != nil {
				r.Fail("%s cannot be written as %s: %v", clip(v.String()), f, err)
			}
			p, err := parseBack(f, one.String())
			mustParse(r, "after writing one value as "+f+", the parser", one.String(), []Val{v}, p, err)
		}
		if len(c.Is) > 0 {
			r.NonTrivial()
		}
	}
}

func runConvCLI(c *ConvCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	// a program that the first syntax can be given in
	in := c.Chain[0]
	is := c.Is
	for _, v := range is {
		if v.K != "l" || len(v.L) == 0 {
			return
		}
	}
	var s string
	if in == "json" {
		if ok, open := expressible(is, "json"); !ok || open {
			return
		}
	} else if ok, open := expressible(is, "sexp"); !ok || open {
		return
	} else if in == "shell" {
		for _, v := range is {
			if v.L[0].K == "l" {
				return
			}
		}
	}
	s = scriptOf(is, in)
	if in == "json" && len(is) == 0 {
		s = "[]"
	}
	for _, f := range c.Chain[1:] {
		o := cli(r, dir, s, "parse", "--input-format", in, "--output-format", f)
		ok, open := expressible(is, f)
		if open {
			return
		}
		if !ok {
			if o.code == 0 || o.stdout != "" {
				r.Fail("%s cannot be expressed as %s, but parse gives %s", clip(VL(is...).String()), f, o)
			}
			r.Label("refused")
			r.NonTrivial()
			return
		}
		if o.code != 0 {
			r.Fail("parse cannot convert %s from %s to %s: %s", clip(s), in, f, o)
		}
		var got []Val
		var err error
		if f == "json" {
			got, err = refJSON(o.stdout)
		} else {
			got, err = refLines(o.stdout)
		}
		if err == errOpen {
			r.Label("not determined")
			return
		}
		if err != nil || !eqs(got, is) {
			r.Fail("parse converts %s from %s to %s: %s, %v", clip(s), in, f, clip(o.stdout), err)
		}
		s, in = o.stdout, f
	}
	if len(is) > 0 {
		r.NonTrivial()
		r.Label("converted")
	}
}

// ---- C15

type LayoutCase struct {
	Text  B      `json:"text"`
	Is    []Val  `json:"instructions"`
	Lines []int  `json:"syntax_per_instruction"` // 0 shell, 1 sexp
	Gaps  []B    `json:"between"`                // len(Is)+1
	Ends  []B    `json:"end_of_line"`            // blanks behind each instruction
	Q     int    `json:"quoting"`
	Spell int    `json:"spelling"`
	JSON  bool   `json:"json,omitempty"`
	Lit   string `json:"-"`
}

func genBlank(t *T, min int) string {
	s := ""
	for k := min + t.N(3); k > 0; k-- {
		s += pick(t, []string{" ", " ", "\t"})
	}
	return s
}
func genGap(t *T) string {
	switch t.W(4, 3, 2, 2) {
	case 0:
		return "\n"
	case 1:
		return pick(t, []string{";", " ; ", "; ", ";;", " ; ; ", ";\t"})
	case 2:
		return pick(t, []string{"\r\n", "\n\n", "\r\n\r\n", "\n  \n", "\n\t\n", "\n;\n", ";\n", "; \r\n", "\n;", "\n ;; \n"})
	}
	s := "\n"
	for k := t.N(4); k > 0; k-- {
		s += pick(t, []string{"\n", ";", " ", "\t", "\r\n"})
	}
	return s + "\n"
}

func genLayout(t *T) *LayoutCase {
	c := &LayoutCase{Q: t.N(5), Spell: t.N(1 << 20), JSON: t.P(1, 6)}
	st := State{Text: genText(t, textOpt{max: 300}), P: 1, M: 1}
	c.Text = B(st.Text)
	if t.Bool() {
		c.Is = genScript(t, st, t.R(1, 6), c.JSON)
	} else {
		for k := t.R(1, 5); k > 0; k-- {
			c.Is = append(c.Is, genFreeCall(t, t.N(3), !c.JSON && t.P(1, 4)))
		}
	}
	if t.P(1, 600) {
		c.Is = pump(t, genLinear(t))
	}
	for i := 0; i <= len(c.Is); i++ {
		g := genGap(t)
		if i == 0 || i == len(c.Is) {
			g = pick(t, []string{"", "", "", g, genBlank(t, 1), g + genBlank(t, 0)})
		}
		c.Gaps = append(c.Gaps, B(g))
		if i < len(c.Is) {
			c.Lines = append(c.Lines, t.N(2))
			e := ""
			if t.Bool() {
				e = genBlank(t, 0)
			}
			c.Ends = append(c.Ends, B(e))
		}
	}
	return c
}

func (c *LayoutCase) script() string {
	t := newT(uint64(c.Spell), 11)
	var f func(v Val) string
	f = func(v Val) string {
		switch v.K {
		case "s":
			return quoteStr(string(v.S), c.Q, t)
		case "n":
			return numStr(float64(v.N), t.N(3))
		case "y":
			return string(v.S)
		}
		s := "(" + genBlank(t, 0)
		for i, x := range v.L {
			if i > 0 {
				s += genBlank(t, 1)
			}
			s += f(x)
		}
		return s + genBlank(t, 0) + ")"
	}
	var j func(v Val) string
	sp := func() string { return pick(t, []string{"", "", " ", "\n", "\t", "\r\n", "  "}) }
	j = func(v Val) string {
		switch v.K {
		case "n":
			return numStr(float64(v.N), t.N(3))
		case "l":
			s := "[" + sp()
			for i, x := range v.L {
				if i > 0 {
					s += sp() + "," + sp()
				}
				s += j(x)
			}
			return s + sp() + "]"
		}
		return jsonStr(string(v.S), t.Bool())
	}
	if c.JSON {
		s := sp()
		for _, v := range c.Is {
			s += j(v) + sp()
		}
		return s
	}
	s := string(c.Gaps[0])
	for i, v := range c.Is {
		x := f(v)
		if c.Lines[i] == 0 {
			x = x[1 : len(x)-1]
		}
		s += x + string(c.Ends[i]) + string(c.Gaps[i+1])
	}
	return s
}

func runLayout(c *LayoutCase, r *Rec) {
	s := c.script()
	var p []edlisp.Value
	var err error
	f := "shell"
	if c.JSON {
		f = "json"
		p, err = parser.ParseJSONScript(strings.NewReader(s))
	} else {
		p, err = parser.ParseString(s)
	}
	mustParse(r, "the parser", s, c.Is, p, err)
	r.NonTrivial()
	r.Label(f)
	if growth(s) > 4 {
		return
	}
	plain := scriptOf(c.Is, f)
	o1, e1 := texted.ExecuteScriptWithFormat(string(c.Text), plain, f)
	o2, e2 := texted.ExecuteScriptWithFormat(string(c.Text), s, f)
	if o1 != o2 || fmt.Sprint(e1) != fmt.Sprint(e2) {
		r.Fail("%s gives %s, %v\n%s gives %s, %v", clip(plain), clip(o1), e1, clip(s), clip(o2), e2)
	}
	if len(c.Is) > 0 && strings.HasPrefix(strings.TrimSpace(s), "[") == c.JSON {
		o3, e3 := texted.ExecuteScript(string(c.Text), s)
		if o1 != o3 || fmt.Sprint(e1) != fmt.Sprint(e3) {
			r.Fail("%s gives %s, %v\n%s (any syntax) gives %s, %v", clip(plain), clip(o1), e1, clip(s), clip(o3), e3)
		}
	}
}

type LitCase struct {
	S     B    `json:"string"`
	Q     int  `json:"quoting"`
	Spell int  `json:"spelling"`
	ASCII bool `json:"ascii"`
}

func genLit(t *T) *LitCase {
	c := &LitCase{Q: t.N(5), Spell: t.N(1 << 20), ASCII: t.Bool()}
	switch t.W(6, 4, 2, 1) {
	case 0:
		s := ""
		for k := t.N(8); k > 0; k-- {
			s += pick(t, []string{"a", " ", ";", "(", ")", "\"", "\\", "\n", "#", "'", "é", "\t", "\r", "中", "😀", "\\n", "\\\"", "; insert \"x\"", ")(", "\x00", "%", "\r\n", "[", "]", ",", "\u2028", "\u00a0", "`", "\\x41", "//", "--", "\x7f", "\ufeff"})
		}
		c.S = B(s)
	case 1:
		c.S = B(genText(t, textOpt{max: 400}))
	case 2:
		c.S = B(genText(t, textOpt{raw: true, max: 400}))
	case 3:
		c.S = B(strings.Repeat(genPiece(t, false), genSize(t, 70000)/4+1))
	}
	return c
}

func enumLit(tier string, yield func(*LitCase) bool) {
	k := 0
	emit := func(s string) bool {
		for q := 0; q < 5; q++ {
			k++
			if !yield(&LitCase{S: B(s), Q: q, Spell: k, ASCII: k%2 == 0}) {
				return false
			}
		}
		return true
	}
	for b := 0; b < 256; b++ {
		if !emit(string([]byte{byte(b)})) || !emit("a"+string([]byte{byte(b)})+"b") {
			return
		}
	}
	al := []string{"a", "\"", "\\", ";", "(", ")", "\n", " ", "n", "x", "u", "0", "é"}
	for _, x := range al {
		for _, y := range al {
			if !emit(x + y) {
				return
			}
			for _, z := range al {
				if !emit(x + y + z) {
					return
				}
			}
		}
	}
	top := 0x3000
	if tier == "thorough" {
		top = 0x110000
	}
	for r := rune(0x80); r < rune(top); r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		k++
		if !yield(&LitCase{S: B("a" + string(r)), Q: k % 5, Spell: k, ASCII: k%2 == 0}) {
			return
		}
	}
}

func runLit(c *LitCase, r *Rec) {
	s := string(c.S)
	lit := quoteStr(s, c.Q, newT(uint64(c.Spell), 3))
	if s != "" {
		r.NonTrivial()
	}
	try := func(script, format, want string) {
		out, err := texted.ExecuteScriptWithFormat("", script, format)
		if err != nil || out != want {
			r.Fail("%s gives %s, %v instead of %s", clip(script), clip(out), err, clip(want))
		}
	}
	try("insert "+lit, "shell", s)
	try("(insert "+lit+")", "sexp", s)
	try("insert "+lit+"; insert \"|\";insert "+lit, "shell", s+"|"+s)
	try("insert (concat "+lit+" \"|\" "+lit+")", "shell", s+"|"+s)
	if isValid(s) {
		try("[\"insert\", "+jsonStr(s, c.ASCII)+"]", "json", s)
	}
	// read back through the buffer
	p, err := parser.ParseString("insert " + lit + "\nbuffer-substring 1 -1\n")
	if err != nil {
		r.Fail("%s: %v", clip(lit), err)
	}
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(""))
	if err != nil || !eq(fromE(v), VS(s)) {
		r.Fail("inserted as %s and read back as %v, %v", clip(lit), v, err)
	}
	if x, err := parser.ParseSexp(lit); err != nil || len(x) != 1 || !eq(fromE(x[0]), VS(s)) {
		r.Fail("ParseSexp reads %s as %v, %v", clip(lit), x, err)
	}
}

func runLayoutCLI(c *LayoutCase, r *Rec) {
	s := c.script()
	if growth(s) > 4 {
		return
	}
	dir, done := scratch(r)
	defer done()
	f := "shell"
	if c.JSON {
		f = "json"
	}
	name := scriptName(s)
	put(r, filepath.Join(dir, name), s)
	o := cli(r, dir, string(c.Text), "edit", "--format", f, "-f", name)
	out, _, err := reference(c.Is, string(c.Text))
	if (err == nil) != (o.code == 0) || err == nil && o.stdout != out {
		r.Fail("script %s on the command line: %s\nthe program gives %s, %v", clip(s), o, clip(out), err)
	}
	r.NonTrivial()
}

// ---- C16

type BadCase struct {
	Text   B      `json:"text"`
	Script B      `json:"script"`
	Format string `json:"format"`
	How    string `json:"damage"`
}

func enumBad(tier string, yield func(*BadCase) bool) {
	ok := map[string][]string{"shell": {"insert \"A\"", "end-of-buffer; insert \"B\""}, "sexp": {"(insert \"A\")", "(insert (concat \"B\" \"C\"))"}, "json": {"[\"insert\",\"A\"]", "[\"insert\",[\"concat\",\"B\",\"C\"]]"}}
	for _, f := range formats {
		for _, m := range malformed[f] {
			for k := 0; k < 4; k++ {
				l := []string{ok[f][0], ok[f][1]}
				switch k {
				case 0:
					l = []string{m}
				case 1:
					l = append(l, m)
				case 2:
					l = append([]string{m}, l...)
				case 3:
					l = []string{l[0], m, l[1]}
				}
				if f == "json" && strings.HasPrefix(m, "[[") && k == 3 {
					continue
				}
				for _, text := range []string{"", "some text\n"} {
					if !yield(&BadCase{Text: B(text), Script: B(strings.Join(l, "\n")), Format: f, How: m}) {
						return
					}
				}
			}
		}
	}
	// nested calls with a bracket or quote too few or too many
	for _, f := range formats {
		for d := 0; d <= 40; d++ {
			v := VS("x")
			for k := 0; k < d; k++ {
				v = Call([]string{"concat", "upcase"}[k*k%3%2], v)
			}
			s := scriptOf([]Val{Call("insert", v)}, f)
			for k, m := range []string{dropLast(s, ")]"), s + ")", s + "]", dropLast(s, "\""), dropFirst(s, "(["), "(" + s, "[" + s, s + "(", s + "[", dropLast(dropLast(s, ")]"), ")]"), s + " " + s, dropLast(s, ")]") + "\n" + dropLast(s, ")]")} {
				if !yield(&BadCase{Text: "some text\n", Script: B(m), Format: f, How: fmt.Sprintf("depth %d, damage %d", d, k)}) {
					return
				}
			}
		}
	}
}

// dropLast removes the last byte that is one of set.
func dropLast(s, set string) string {
	if k := strings.LastIndexAny(s, set); k >= 0 {
		return s[:k] + s[k+1:]
	}
	return s
}
func dropFirst(s, set string) string {
	if k := strings.IndexAny(s, set); k >= 0 {
		return s[:k] + s[k+1:]
	}
	return s
}

func genBad(t *T) *BadCase {
	c := &BadCase{Format: pick(t, formats)}
	st := State{Text: genText(t, textOpt{max: 200}), P: 1, M: 1}
	c.Text = B(st.Text)
	var is []Val
	for k := t.R(1, 5); k > 0; k-- {
		is = append(is, pick(t, []Val{Call("insert", VS(genStr(t, false))), Call("end-of-buffer"), Call("insert", Call("concat", VS("a"), VS(genStr(t, false)))), Call("delete-char"), Call("forward-char", VN(2)), genFreeCall(t, 2, false)}))
	}
	if t.P(1, 3) { // nested deeply
		v := VS(genStr(t, false))
		for d := 1 + genSize(t, 30); d > 0; d-- {
			v = Call(pick(t, []string{"concat", "upcase", "downcase", "capitalize"}), v)
			if t.P(1, 4) {
				v.L = append(v.L, VS("b"))
			}
			if t.P(1, 6) {
				v.L = append(v.L[:1], append([]Val{VS("a")}, v.L[1:]...)...)
			}
		}
		at := t.N(len(is) + 1)
		is = append(is[:at], append([]Val{Call("insert", v)}, is[at:]...)...)
	}
	if t.P(1, 150) { // behind many instructions
		many := make([]Val, pick(t, []int{20, 70, 130, 260, 520, 1030, 4100, 1 + pick(t, dict().ints)%5000}))
		for i := range many {
			many[i] = Call("insert", VS("a"))
		}
		is = append(many, is...)
	}
	sc := &SyntaxCase{Is: is, Q: t.N(5), Num: t.N(3), Spell: t.N(1 << 20)}
	f := c.Format
	if f == "json" && t.Bool() {
		f = "jsonarray"
	}
	s := sc.spelled(f)
	n := 1
	if t.P(1, 4) {
		n = 2
	}
	for ; n > 0; n-- {
		i := t.N(len(s) + 1)
		spots := func(set string) int {
			var ix []int
			for k := 0; k < len(s); k++ {
				if strings.IndexByte(set, s[k]) >= 0 {
					ix = append(ix, k)
				}
			}
			if len(ix) == 0 {
				return -1
			}
			return pick(t, ix)
		}
		switch t.N(9) {
		case 0: // drop a quote, bracket or comma
			if t.P(1, 3) {
				s = dropLast(s, pick(t, []string{")]", "\"", "(["}))
				c.How = "drop"
			} else if k := spots("\"()[],\\"); k >= 0 {
				s = s[:k] + s[k+1:]
				c.How = "drop"
			}
		case 1: // add one
			s = s[:i] + pick(t, []string{"\"", "(", ")", "[", "]", ",", "\\", "{", "}", ":", ";", "\n"}) + s[i:]
			c.How = "add"
		case 2: // cut off
			s = s[:i]
			c.How = "cut"
		case 3: // a bad escape
			if k := spots("\""); k >= 0 {
				s = s[:k+1] + pick(t, []string{"\\q", "\\x4", "\\u12", "\\400", "\\'", "\\xzz", "\\8", "\\ud800", "\\"}) + s[k+1:]
				c.How = "escape"
			}
		case 4: // something behind an instruction
			if k := spots(")]\n"); k >= 0 {
				s = s[:k+1] + pick(t, []string{" x", "x", " \"y\"", " 5", " (point)", ")", " null", " {}", "]", " true", ",", " [1]"}) + s[k+1:]
				c.How = "behind"
			}
		case 5: // a literal of another kind
			if k := spots("\"[("); k >= 0 {
				s = s[:k] + pick(t, []string{"null,", "true,", "{},", "{\"a\":1},", "5,", "[],", "[5],", "5 ", "\"s\" ", "() "}) + s[k:]
				c.How = "kind"
			}
		case 6:
			s += pick(t, []string{"\n(", "\n)", "\n\"", ";(", "\ninsert \"", "\n[", "\n]", "\nnull", "\n\"insert\"", "\n(insert \"x\"", "\n(insert \"x\") x", "\n[1]", "\n{}"})
			c.How = "last"
		case 7:
			s = pick(t, []string{"(", ")", "\"", "[", "]", "{}", "5", "null", "\"insert\"", "(x", "x)", "[1]", "[null]", "insert \"\\q\""}) + pick(t, []string{"\n", "", " ", ";"}) + s
			c.How = "first"
		case 8: // swap two parts
			j := t.N(len(s) + 1)
			if i > j {
				i, j = j, i
			}
			s = s[j:] + s[i:j] + s[:i]
			c.How = "shuffle"
		}
	}
	c.Script = B(s)
	return c
}

func runBad(c *BadCase, r *Rec) {
	s := string(c.Script)
	var want []Val
	var err error
	if c.Format == "json" {
		want, err = refJSON(s)
	} else {
		want, err = refLines(s)
	}
	if err == errOpen {
		return
	}
	type parse struct {
		name string
		p    []edlisp.Value
		err  error
	}
	var ps []parse
	add := func(name string, p []edlisp.Value, err error) { ps = append(ps, parse{name, p, err}) }
	if c.Format == "json" {
		p, e := parser.ParseJSONScript(strings.NewReader(s))
		add("ParseJSONScript", p, e)
		if t := strings.TrimSpace(s); strings.HasPrefix(t, "[") {
			p, e = parser.ParseScript(s)
			add("ParseScript", p, e)
		}
		if err != nil { // narrower, but as strict
			p, e = parser.ParseJSONString(s)
			add("ParseJSONString", p, e)
		}
	} else {
		p, e := parser.ParseString(s)
		add("ParseString", p, e)
		p, e = parser.ParseReader(strings.NewReader(s))
		add("ParseReader", p, e)
		p, e = parser.ParseFormat("shell", s)
		add("ParseFormat", p, e)
		if !strings.HasPrefix(strings.TrimSpace(s), "[") {
			p, e = parser.ParseScript(s)
			add("ParseScript", p, e)
		}
		if !strings.ContainsAny(s, "\n;") && strings.HasPrefix(strings.TrimSpace(s), "(") {
			p, e = parser.ParseSexp(s)
			add("ParseSexp", p, e)
		}
	}
	for _, p := range ps {
		if err != nil {
			if p.err == nil {
				r.Fail("%s accepts the malformed script %s (%v) as %s", p.name, clip(s), err, clip(VL(fromProg(p.p)...).String()))
			}
		} else {
			mustParse(r, p.name, s, want, p.p, p.err)
		}
	}
	if err == nil {
		r.Label("still well-formed")
		// an accepted script executes every instruction it contains
		if growth(s) <= 3 {
			n := 0
			p := prog(want)
			b := edlisp.NewBuffer(string(c.Text))
			_, e := edlisp.EvalWithTrace(p, edlisp.NewDefaultEnvironment(), b, func(*edlisp.TraceContext) { n++ })
			if e == nil && n != len(want) {
				r.Fail("%d instructions, but %d executed", len(want), n)
			}
			out, e2 := texted.ExecuteScriptWithFormat(string(c.Text), s, c.Format)
			sameOutcome(r, clip(s), b.String(), e, out, e2)
		}
		r.NonTrivial()
		return
	}
	r.NonTrivial()
	r.Label("malformed, " + c.How)
	out, e := texted.ExecuteScriptWithFormat(string(c.Text), s, c.Format)
	refused(r, "ExecuteScriptWithFormat", s, out, e)
	auto := strings.HasPrefix(strings.TrimSpace(s), "[")
	if auto == (c.Format == "json") {
		out, e = texted.ExecuteScript(string(c.Text), s)
		refused(r, "ExecuteScript", s, out, e)
	}
}

// OddCase has a line or a word that is no instruction among ones that are.
type OddCase struct {
	Odd    B      `json:"odd"`
	Place  string `json:"place"` // first, middle, last, behind (an instruction), argument
	Format string `json:"format"`
	EOL    string `json:"line_end"`
}

var oddWords = []string{"#", "# comment", "#comment", "//", "// x", "--", "---", "exit", "quit", "q", ".", "..", "...", "end", "__END__", "EOF", "%", "%%", "rem x", "REM", "'", "`", "@", "!", "!!", "$", "&", "&&", "|", "||", ">", ">>", "< x", "*", "/*", "/* x */", "-*-", "=", "==", "nil", "t", "progn", "begin", "noop", "pass", "null", "true", "~", "^", "_", "-", "+", ":", ":w", "?", "<!-- x -->", "*/", "#!/usr/bin/texted", "#|", "|#", "dnl", "\x04\x04", "5", "0", "1e3"}

func enumOdd(tier string, yield func(*OddCase) bool) {
	words := append([]string{}, oddWords...)
	for b := 0; b < 128; b++ {
		if strings.IndexByte(" \t\n\v\f\r\"();[]\\", byte(b)) < 0 {
			words = append(words, string([]byte{byte(b)}))
		}
	}
	for _, w := range words {
		for _, f := range formats {
			for _, p := range []string{"first", "middle", "last", "behind", "argument"} {
				for _, e := range []string{"\n", "\r\n", ";", "\n\n"} {
					if !yield(&OddCase{B(w), p, f, e}) {
						return
					}
				}
			}
		}
	}
}

func genOdd(t *T) *OddCase {
	c := &OddCase{Place: pick(t, []string{"first", "middle", "last", "behind", "argument"}), Format: pick(t, formats), EOL: pick(t, []string{"\n", "\r\n", ";", "\n\n"})}
	for k := t.R(1, 3); k > 0; k-- {
		switch t.N(3) {
		case 0:
			c.Odd += B(pick(t, oddWords))
		case 1:
			if b := byte(t.N(128)); strings.IndexByte(" \t\n\v\f\r\"();[]\\", b) < 0 {
				c.Odd += B([]byte{b})
			}
		case 2:
			for _, b := range []byte(pick(t, dict().strs)) {
				if b < 128 && strings.IndexByte("\t\n\v\f\r\"();[]\\", b) < 0 {
					c.Odd += B([]byte{b})
				}
			}
		}
	}
	return c
}

// script is the script with the number of its instructions; 0 if the case says nothing.
func (c *OddCase) script(r *Rec) (s, odd string, n int) {
	odd = string(c.Odd)
	words := strings.Fields(odd)
	if len(words) == 0 {
		return
	}
	if _, known := sigs[words[0]]; known && c.Place != "behind" && c.Place != "argument" {
		return
	}
	if c.Place == "behind" || c.Place == "argument" {
		if len(words) > 0 {
			odd = words[0]
		}
	}
	l := map[string][]string{"shell": {`insert "A"`, `insert "B"`, `insert "C"`}, "sexp": {`(insert "A")`, `(insert "B")`, `(insert "C")`}, "json": {`["insert","A"]`, `["insert","B"]`, `["insert","C"]`}}[c.Format]
	eol := c.EOL
	if c.Format == "json" {
		if _, err := strconv.ParseFloat(odd, 64); err == nil {
			r.Label("number")
		}
		if eol == ";" {
			eol = "\n"
		}
	}
	n = 4
	switch c.Place {
	case "first":
		l = append([]string{odd}, l...)
	case "middle":
		l = []string{l[0], odd, l[1], l[2]}
	case "last":
		l = append(l, odd)
	case "behind":
		l[1] += " " + odd
		n = 3
	case "argument":
		n = 3
		switch c.Format {
		case "shell":
			l[1] = "insert " + odd + " \"B\""
		case "sexp":
			l[1] = "(insert " + odd + " \"B\")"
		case "json":
			l[1] = `["insert", ` + odd + ` "B"]`
		}
	}
	return strings.Join(l, eol), odd, n
}

// runOddCLI gives the script to the command line.
func runOddCLI(c *OddCase, r *Rec) {
	s, odd, n := c.script(r)
	if n == 0 || strings.Contains(s, "\x00") {
		return
	}
	dir, done := scratch(r)
	defer done()
	name := scriptName(s)
	put(r, filepath.Join(dir, name), s)
	put(r, filepath.Join(dir, "in"), "text\n")
	want := tree(r, dir)
	for _, args := range [][]string{
		{"edit", "--format", c.Format, "-f", name},
		{"edit", "--format", c.Format, "-f", name, "in"},
		{"edit", "--format", c.Format, "-i", "-f", name, "in"},
		{"edit", "--format", c.Format, "-o", "out", "-f", name, "in"},
		{"edit", "--format", c.Format, "-s", s, "in"},
	} {
		o := cli(r, dir, "text\n", args...)
		what := fmt.Sprintf("%s is no instruction (%s), texted %s on the script %s gives %s", clip(odd), c.Place, strings.Join(args, " "), clip(s), o)
		if o.code == 0 {
			r.Fail("%s", what)
		}
		if args[3] != "-i" && o.stdout != "" {
			r.Fail("%s", what)
		}
		sameTree(r, what, tree(r, dir), want)
	}
	r.NonTrivial()
}

func runOdd(c *OddCase, r *Rec) {
	s, odd, n := c.script(r)
	if n == 0 {
		return
	}
	for _, k := range []string{"with format", "guessed"} {
		var out string
		var err error
		if k == "with format" {
			out, err = texted.ExecuteScriptWithFormat("", s, c.Format)
		} else {
			if strings.HasPrefix(strings.TrimSpace(s), "[") != (c.Format == "json") {
				continue
			}
			out, err = texted.ExecuteScript("", s)
		}
		if err == nil {
			r.Fail("%s is no instruction (%s), but %s succeeds with %s (%s)", clip(odd), c.Place, clip(s), clip(out), k)
		}
	}
	if c.Format != "json" {
		p, err := parser.ParseString(s)
		if err == nil && len(p) != n {
			r.Fail("%s has %d instructions, but %d are read", clip(s), n, len(p))
		}
		if err == nil && (c.Place == "behind" || c.Place == "argument") && c.Format == "shell" {
			if v := fromE(p[1]); len(v.L) != 3 {
				r.Fail("of the instruction with %s only %s is read", clip(odd), clip(v.String()))
			}
		}
	}
	r.NonTrivial()
}

func refused(r *Rec, how, s, out string, e error) {
	if e == nil {
		r.Fail("%s runs the malformed script %s and returns %s", how, clip(s), clip(out))
	}
	if out != "" {
		r.Fail("%s fails on the malformed script %s, but returns %s", how, clip(s), clip(out))
	}
	var ee *edlisp.ExecutionError
	if errors.As(e, &ee) {
		r.Fail("%s starts to execute the malformed script %s: %v", how, clip(s), e)
	}
}

func runBadFiles(c *BadCase, r *Rec) {
	s := string(c.Script)
	var err error
	if c.Format == "json" {
		_, err = refJSON(s)
	} else {
		_, err = refLines(s)
	}
	if err == nil || err == errOpen {
		return
	}
	dir, done := scratch(r)
	defer done()
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	put(r, a, string(c.Text))
	put(r, b, "other")
	want := tree(r, dir)
	if e := texted.EditFileWithFormat(a, s, c.Format); e == nil {
		r.Fail("EditFileWithFormat accepts the malformed script %s", clip(s))
	}
	if auto := strings.HasPrefix(strings.TrimSpace(s), "["); auto == (c.Format == "json") {
		if e := texted.EditFile(a, s); e == nil {
			r.Fail("EditFile accepts the malformed script %s", clip(s))
		}
	}
	res, e := texted.EditFilesWithFormat([]string{a, b}, s, c.Format)
	if e == nil {
		for _, x := range res {
			if x.Success || x.Error == nil {
				r.Fail("EditFilesWithFormat accepts the malformed script %s", clip(s))
			}
		}
	}
	sameTree(r, "after the malformed script "+clip(s), tree(r, dir), want)
	r.NonTrivial()
}

func runBadCLI(c *BadCase, r *Rec) {
	s := string(c.Script)
	var err error
	if c.Format == "json" {
		_, err = refJSON(s)
	} else {
		_, err = refLines(s)
	}
	if err == nil || err == errOpen || strings.Contains(s, "\x00") || s == "" {
		return
	}
	dir, done := scratch(r)
	defer done()
	put(r, filepath.Join(dir, "in"), string(c.Text))
	name := scriptName(s)
	put(r, filepath.Join(dir, name), s)
	want := tree(r, dir)
	refuse := func(stdin string, args ...string) {
		o := cli(r, dir, stdin, args...)
		what := "texted " + strings.Join(args, " ") + " with the malformed script " + clip(s) + " gives " + o.String()
		if o.code == 0 {
			r.Fail("%s", what)
		}
		sameTree(r, what, tree(r, dir), want)
		if strings.Contains(o.stderr+o.stdout, "(at instruction") && !strings.Contains(s, "(at instruction") {
			r.Fail("the script was started: %s", what)
		}
		if args[1] != "-i" && args[0] == "edit" && args[1] != "-e" && o.stdout != "" {
			r.Fail("something is printed: %s", what)
		}
	}
	refuse(string(c.Text), "edit", "--format", c.Format, "-f", name)
	refuse("", "edit", "-i", "--format", c.Format, "-f", name, "in")
	refuse("", "edit", "-o", "out", "--format", c.Format, "-f", name, "in")
	refuse(s, "parse", "--input-format", c.Format, "--output-format", "sexp")
	r.NonTrivial()
}

func init() {
	_ = os.Stdout
	register(&Property{ID: "C13", Rule: "the program has at least one instruction and was read from every syntax",
		Assumptions: []string{"Programs are calls with names, strings of valid UTF-8, finite numbers and nested calls: what all three syntaxes can express."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("library", genSyntax, runSyntax).n(120000, 4000000),
				mkSpec("command line", genSyntax, runSyntaxCLI).n(1600, 30000),
			}
		}})
	register(&Property{ID: "C14", Rule: "a program of at least one instruction was written and read back, or refused",
		Assumptions: []string{"An empty list at the top level, and names that contain quotes, are left out."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("writers", genConv, runConv).n(160000, 5000000),
				mkSpec("texted parse", genConv, runConvCLI).n(3000, 60000),
			}
		}})
	register(&Property{ID: "C15", Rule: "a script in another layout, or a literal that is not empty, was read and run",
		Specs: func() []*Spec {
			return []*Spec{
				enum(mkSpec("literals", genLit, runLit).n(120000, 4000000), enumLit),
				mkSpec("layouts", genLayout, runLayout).n(120000, 4000000),
				mkSpec("layouts on the command line", genLayout, runLayoutCLI).n(1600, 30000),
			}
		}})
	register(&Property{ID: "C16", Rule: "the script is malformed by the reference reader, or well-formed after all and read alike",
		Assumptions: []string{"Text glued to a string literal, control characters and backslashes outside of literals, invalid UTF-8, numbers out of range and lone surrogates are left out."},
		Specs: func() []*Spec {
			return []*Spec{
				enum(mkSpec("odd lines and words", genOdd, runOdd).n(60000, 1000000), enumOdd),
				mkSpec("odd lines on the command line", genOdd, runOddCLI).n(1500, 20000),
				enum(mkSpec("damaged scripts", genBad, runBad).n(300000, 10000000), enumBad),
				enum(mkSpec("damaged scripts on files", genBad, runBadFiles).n(16000, 400000), enumBad),
				mkSpec("damaged scripts on the command line", genBad, runBadCLI).n(2400, 50000),
			}
		}})
}
