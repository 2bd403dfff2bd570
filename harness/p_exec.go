package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	tedtesting "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/edlisp/writer"
)

// ---- programs with nested calls

// genNested makes a call whose arguments may be calls of the right kind.
func genNested(t *T, st State, depth int, raw bool) Val {
	fn := genFn(t, nil)
	if depth > 0 && t.P(2, 3) {
		fn = pick(t, []string{"concat", "insert", "goto-char", "search-forward", "replace-match", "forward-char", "substring", "buffer-substring", "upcase", "length", "replace-region", "delete-char", "set-mark-command", "string-match", "capitalize", "looking-at"})
	}
	v := genCall(t, st, fn, raw)
	if t.long && (strings.Contains(fn, "re") || strings.HasPrefix(fn, "looking") || fn == "string-match") {
		depth = 0 // a computed pattern may be a piece of the text, which takes quadratic time
	}
	if depth > 0 {
		for i := 1; i < len(v.L); i++ {
			if t.P(1, 2) {
				v.L[i] = nestedOf(t, st, v.L[i], depth-1, raw)
			}
		}
	}
	return v
}

// nestedOf replaces a literal by a call that gives a value of that kind, with or without side effects.
func nestedOf(t *T, st State, lit Val, depth int, raw bool) Val {
	if lit.K == "n" {
		fn := pick(t, []string{"point", "mark", "point-max", "buffer-size", "length", "line-number-at-pos", "region-end", "point-min", "region-beginning"})
		v := genCall(t, st, fn, raw)
		if fn == "length" && depth > 0 {
			v.L[1] = nestedOf(t, st, v.L[1], depth-1, raw)
		}
		return v
	}
	switch t.W(4, 4, 1) {
	case 1: // a command: it has an effect on the way
		v := genCall(t, st, pick(t, []string{"insert", "forward-char", "end-of-line", "delete-char", "search-forward", "set-mark", "goto-char", "end-of-buffer", "replace-match", "backward-char", "exchange-point-and-mark", "kill-word"}), raw)
		if depth > 0 && len(v.L) > 1 && t.Bool() {
			v.L[1] = nestedOf(t, st, v.L[1], depth-1, raw)
		}
		return v
	case 2: // wrong kind, or failing
		return pick(t, []Val{Call("point"), Call("looking-at", VS("\x01never")), Call("string-match", VS("\x01never"), lit), Call("no-such-function"), Call("search-forward", VS("\x01never")), Call("looking-at", VS("a")), Call("goto-char"), Call("insert", VN(3))})
	}
	v := genCall(t, st, pick(t, []string{"concat", "upcase", "substring", "buffer-substring", "downcase"}), raw)
	if depth > 0 {
		for i := 1; i < len(v.L); i++ {
			if t.P(1, 2) {
				v.L[i] = nestedOf(t, st, v.L[i], depth-1, raw)
			}
		}
	}
	return v
}

// genProgram makes instructions of every sort, mostly succeeding.
func genProgram(t *T, st State, n int, raw bool, failing bool) []Val {
	var is []Val
	for i := 0; i < n; i++ {
		var v Val
		switch t.W(10, 5, 1) {
		case 0:
			v = genCall(t, st, genFn(t, nil), raw)
			st = step(st, v)
		case 1:
			v = genNested(t, st, t.R(1, 3), raw)
		case 2:
			v = pick(t, []Val{Call("point"), Call("buffer-size"), VS("text"), VN(7), Call("concat")})
		}
		is = append(is, v)
	}
	if failing && len(is) > 0 {
		k := t.N(len(is) + 1)
		is = append(is[:k:k], append([]Val{genFailing(t, st, raw)}, is[k:]...)...)
	}
	return is
}

// genFailing makes an instruction that fails in (nearly) every state.
func genFailing(t *T, st State, raw bool) Val {
	never := "\x01nowhere" + strings.Repeat("z", t.N(4))
	switch t.W(3, 2, 2, 3, 3, 1, 1, 2, 1) {
	case 0:
		return Call(pick(t, []string{"search-forward", "search-backward", "re-search-forward", "re-search-backward"}), VS(never))
	case 1:
		return Call(pick(t, []string{"re-search-forward", "re-search-backward"}), VS(pick(t, badRe)))
	case 2:
		return Call(unknownName(t), genStrArgs(t)...)
	case 3: // an argument of another kind
		for {
			v := genCall(t, st, pick(t, allFns), raw)
			if len(v.L) > 1 {
				i := t.R(1, len(v.L)-1)
				if v.L[i].K == "s" {
					v.L[i] = VI(t.N(9))
				} else {
					v.L[i] = VS(genStr(t, raw))
				}
				return v
			}
		}
	case 4: // the wrong number of arguments
		for {
			fn := pick(t, allFns)
			v := genCall(t, st, fn, raw)
			s := sigs[fn]
			if s.min > 0 && t.Bool() {
				v.L = v.L[:1+t.N(s.min)]
				return v
			}
			if s.max >= 0 {
				for len(v.L)-1 <= s.max+t.N(3) {
					v.L = append(v.L, pick(t, []Val{VI(1), VS("x")}))
				}
				return v
			}
		}
	case 5:
		return VL()
	case 6:
		return pick(t, []Val{VY("point"), VY("x"), VL(VS("insert"), VS("x")), VL(VN(1)), VL(VL(VY("point")))})
	case 7:
		return Call("replace-regexp-in-string", VS(pick(t, badRe)), VS("x"), VS("y"))
	}
	return Call("insert", Call("no-such-function"))
}
func genStrArgs(t *T) []Val {
	var a []Val
	for k := t.N(3); k > 0; k-- {
		a = append(a, pick(t, []Val{VS("x"), VI(1), VS("")}))
	}
	return a
}

// unknownName is close to the name of a function, but is none.
func unknownName(t *T) string {
	for {
		n := pick(t, allFns)
		switch t.N(10) {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			n = n + pick(t, []string{"s", "-", "1", "*", "-command", "!"})
		case 2:
			n = pick(t, []string{"x", "-", "re-", "forward-", "point-"}) + n
		case 3:
			n = strings.ReplaceAll(n, "-", "_")
		case 4:
			n = strings.ReplaceAll(n, "-", "")
		case 5:
			k := t.N(len(n))
			n = n[:k] + n[k+1:]
		case 6:
			n = pick(t, []string{"progn", "save-excursion", "lambda", "setq", "message", "undo", "kill-region", "yank", "quit", "looking-at-p", "char-after", "delete", "replace", "exec", "shell-command", "write-file", "load", "eval", "if", "let", "not", "t", "nil", "list", "forward-line", "newline", "re-search", "search"})
		case 7:
			n = strings.ToUpper(n[:1]) + n[1:]
		case 8:
			i := t.N(len(n))
			n = n[:i] + string(rune('a'+t.N(26))) + n[i:]
		case 9:
			n = pick(t, dict().strs)
			if n == "" || strings.ContainsAny(n, " \t\n\r()\";") {
				continue
			}
		}
		if _, ok := sigs[n]; !ok && n != "" {
			return n
		}
	}
}

// ---- C10

type ProgCase struct {
	Shared bool  `json:"shared,omitempty"` // equal parts of the program are one value
	Text   B     `json:"text"`
	P      int   `json:"point"`
	M      int   `json:"mark"`
	Is     []Val `json:"instructions"`
	Split  int   `json:"split"`
	Env    int   `json:"env"`
}

func (c *ProgCase) buffer() *edlisp.Buffer {
	b := edlisp.NewBuffer(string(c.Text))
	if c.P > 0 {
		b.SetPoint(c.P)
		b.SetMark(c.M)
	}
	return b
}

// cause is the error below the reporting layer.
func cause(err error) string {
	if err == nil {
		return ""
	}
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) && ee.OriginalError != nil {
		return ee.OriginalError.Error()
	}
	return err.Error()
}

type runEnd struct {
	text, cause string
	p, m        int
	val         Val
	idx         int // failing instruction
	ms, me      int
	mt          string
}

func (e runEnd) String() string {
	s := showState(e.text, e.p, e.m)
	if e.cause != "" {
		return fmt.Sprintf("error %q at instruction %d, %s, match %d..%d", e.cause, e.idx, s, e.ms, e.me)
	}
	return fmt.Sprintf("value %s, %s, match %d..%d", clip(e.val.String()), s, e.ms, e.me)
}
func (e runEnd) same(f runEnd) bool {
	return e.text == f.text && e.cause == f.cause && e.p == f.p && e.m == f.m && eq(e.val, f.val) && e.idx == f.idx && e.ms == f.ms && e.me == f.me && e.mt == f.mt
}

// end describes the buffer and the outcome of a run, the remembered match included
// (which a failing instruction reports).
func end(buf *edlisp.Buffer, val edlisp.Value, err error, offset int) runEnd {
	e := runEnd{text: buf.String(), p: buf.Point(), m: buf.Mark(), idx: -1}
	if err != nil {
		e.cause = cause(err)
		var ee *edlisp.ExecutionError
		if errors.As(err, &ee) {
			e.idx = ee.InstructionIndex + offset
		}
	} else {
		e.val = fromE(val)
	}
	_, perr := edlisp.Eval([]edlisp.Value{edlisp.NewList(edlisp.NewSymbol("\x00probe"))}, edlisp.NewDefaultEnvironment(), buf)
	var ee *edlisp.ExecutionError
	if errors.As(perr, &ee) {
		e.ms, e.me, e.mt = ee.LastSearchStart, ee.LastSearchEnd, ee.LastSearchMatch
	}
	return e
}

type traceRec struct {
	ins  Val
	text string
	p, m int
}

func runC10(c *ProgCase, r *Rec) {
	p := prog(c.Is)
	if c.Shared {
		p = progShared(c.Is)
		r.Label("equal parts are one value")
	}
	env := edlisp.NewDefaultEnvironment()
	// one at a time
	b1 := c.buffer()
	var steps []traceRec
	var last edlisp.Value = edlisp.NewString("")
	var lastErr error
	at := 0
	for i := range p {
		at = i
		v, err := edlisp.Eval(p[i:i+1], env, b1)
		lastErr = err
		if err != nil {
			last = nil
			break
		}
		last = v
		steps = append(steps, traceRec{fromE(p[i]), b1.String(), b1.Point(), b1.Mark()})
		if len(b1.String()) > 1<<21 {
			return // a text that grows exponentially
		}
	}
	e1 := end(b1, last, lastErr, at)
	// in one go
	b2 := c.buffer()
	v, err := edlisp.Eval(p, env, b2)
	e2 := end(b2, v, err, 0)
	if !e1.same(e2) {
		r.Fail("one instruction at a time: %s\nin one go: %s", e1, e2)
	}
	// with tracing
	b3 := c.buffer()
	var trace []traceRec
	v, err = edlisp.EvalWithTrace(p, env, b3, func(x *edlisp.TraceContext) {
		trace = append(trace, traceRec{fromE(x.Instruction), x.Buffer.String(), x.Buffer.Point(), x.Buffer.Mark()})
	})
	e3 := end(b3, v, err, 0)
	if !e2.same(e3) {
		r.Fail("in one go: %s\nwith tracing: %s", e2, e3)
	}
	if len(trace) != len(steps) {
		r.Fail("%d instructions completed, but %d traced", len(steps), len(trace))
	}
	for i := range trace {
		if !eq(trace[i].ins, steps[i].ins) || trace[i].text != steps[i].text || trace[i].p != steps[i].p || trace[i].m != steps[i].m {
			r.Fail("trace %d: %s %s\nbut instruction %s left %s", i, trace[i].ins, showState(trace[i].text, trace[i].p, trace[i].m), steps[i].ins, showState(steps[i].text, steps[i].p, steps[i].m))
		}
	}
	// in two parts
	k := 0
	if len(p) > 0 {
		k = c.Split % (len(p) + 1)
	}
	b4 := c.buffer()
	v, err = edlisp.Eval(p[:k], env, b4)
	off := 0
	if err == nil && k < len(p) {
		v, err = edlisp.Eval(p[k:], edlisp.NewDefaultEnvironment(), b4)
		off = k
	}
	e4 := end(b4, v, err, off)
	if !e2.same(e4) {
		r.Fail("in one go: %s\nsplit at %d: %s", e2, k, e4)
	}
	// through the library
	if c.P <= 1 && c.M <= 1 && allParse(c.Is) {
		out, err := texted.ExecuteScript(string(c.Text), shellScript(c.Is))
		if (err != nil) != (e2.cause != "") || (err == nil && out != e2.text) || (err != nil && out != "") || (err != nil && !strings.Contains(err.Error(), e2.cause)) {
			r.Fail("Eval: %s\nExecuteScript: %s, %v", e2, clip(out), err)
		}
	}
	if len(steps) >= 2 {
		r.NonTrivial()
	}
	if e2.cause != "" {
		r.Label("stopped by an error")
	} else {
		r.Label("ran to the end")
	}
}

// allParse: the program can be written as a shell script that parses back to it.
func allParse(is []Val) bool {
	for _, v := range is {
		if v.K != "l" || !plainCall(v) {
			return false
		}
	}
	// a script that starts with a bracket may be taken for JSON
	return len(is) == 0 || !strings.HasPrefix(is[0].Fn(), "[")
}

// plainCall: a call with a name and only strings, numbers and plain calls as arguments.
func plainCall(v Val) bool {
	if v.Fn() == "" || strings.ContainsAny(v.Fn(), " \t\r\n\"();\\\x00\x01") {
		return false
	}
	if !isValid(v.Fn()) {
		return false
	}
	if x, err := parser.ParseSexp(v.Fn()); err != nil || len(x) != 1 || fromE(x[0]).K != "y" {
		return false
	}
	for _, a := range v.Args() {
		switch a.K {
		case "l":
			if !plainCall(a) {
				return false
			}
		case "y":
			return false
		}
	}
	return true
}

func genC10(t *T) *ProgCase {
	raw := t.P(1, 8)
	st := genState(t, textOpt{raw: raw, max: 400, big: 300})
	c := &ProgCase{Text: B(st.Text), P: st.P, M: st.M}
	if t.Bool() {
		c.P, c.M, st.P, st.M = 1, 1, 1, 1
	}
	c.Shared = t.P(1, 3)
	n := 1 + t.Small(12)
	if t.P(1, 40) {
		n = genSize(t, 1100)
		// many cheap instructions
		for i := 0; i < n; i++ {
			c.Is = append(c.Is, pick(t, []Val{Call("insert", VS("ab c\n")), Call("backward-char"), Call("forward-word"), Call("delete-char"), Call("set-mark"), Call("search-backward", VS("b")), Call("beginning-of-line"), Call("point")}))
		}
		c.Split = t.N(n + 1)
		return c
	}
	c.Is = genProgram(t, st, n, raw, t.P(1, 3))
	if len(c.Is) > 0 && t.P(1, 4) { // some of it again
		for k := t.R(1, 4); k > 0; k-- {
			i, j := t.N(len(c.Is)), t.N(len(c.Is)+1)
			if t.Bool() {
				j = i
			}
			c.Is = append(c.Is[:j], append([]Val{c.Is[i]}, c.Is[j:]...)...)
		}
	}
	c.Split = t.N(len(c.Is) + 1)
	return c
}

// nested evaluation against evaluating the calls one after the other
type NestCase struct {
	Text B     `json:"text"`
	P    int   `json:"point"`
	M    int   `json:"mark"`
	Pre  []Val `json:"before"`
	V    Val   `json:"call"`
}

func runNest(c *NestCase, r *Rec) {
	env := edlisp.NewDefaultEnvironment()
	mk := func() *edlisp.Buffer {
		b := edlisp.NewBuffer(string(c.Text))
		b.SetPoint(c.P)
		b.SetMark(c.M)
		for _, v := range c.Pre {
			edlisp.Eval(prog([]Val{v}), env, b)
		}
		return b
	}
	b1 := mk()
	v, err := edlisp.Eval(prog([]Val{c.V}), env, b1)
	e1 := end(b1, v, err, 0)
	b2 := mk()
	calls := 0
	strange := "" // a call that was given t or nil, which no function takes
	var seq func(v Val) (Val, error)
	seq = func(v Val) (Val, error) {
		if v.K != "l" {
			return v, nil
		}
		flat := Val{K: "l", L: append([]Val{}, v.L...)}
		var lits []edlisp.Value
		for i := range flat.L {
			if i == 0 {
				lits = append(lits, flat.L[0].E())
				continue
			}
			x, err := seq(flat.L[i])
			if err != nil {
				return Val{}, err
			}
			lits = append(lits, x.E())
		}
		calls++
		// symbols cannot stand as literals: bind them through a function that returns them
		e3 := edlisp.NewDefaultEnvironment()
		for i := 1; i < len(lits); i++ {
			if s, ok := lits[i].(*edlisp.Symbol); ok {
				if _, ok := sigs[flat.Fn()]; ok && flat.L[i].K == "l" {
					strange = fmt.Sprintf("argument %d of %s is %s", i, clip(flat.String()), s.Name)
				}
				name := fmt.Sprintf("\x00value-%d", i)
				e3.Functions[name] = func([]edlisp.Value, *edlisp.Buffer) (edlisp.Value, error) { return s, nil }
				lits[i] = edlisp.NewList(edlisp.NewSymbol(name))
			}
		}
		res, err := edlisp.Eval([]edlisp.Value{edlisp.NewList(lits...)}, e3, b2)
		if err != nil {
			return Val{}, err
		}
		return fromE(res), nil
	}
	v2, err2 := seq(c.V)
	e2 := end(b2, edlisp.NewString(""), err2, 0)
	e2.val = v2
	if err2 != nil {
		e2.val = Val{}
	}
	if !e1.same(e2) {
		r.Fail("nested: %s\ncall by call, left to right: %s", e1, e2)
	}
	if strange != "" && err == nil {
		r.Fail("%s, which is neither a string nor a number, but the call succeeds: %s", strange, e1)
	}
	if calls >= 2 {
		r.NonTrivial()
	}
}

// what happens inside: every call of a function is recorded
type callRec struct {
	fn   string
	args []Val
	val  Val
	err  error
}

func runSpy(c *ProgCase, r *Rec) {
	env := edlisp.NewDefaultEnvironment()
	var log []callRec
	for n, f := range env.Functions {
		env.Functions[n] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
			x := callRec{fn: n}
			for _, a := range args {
				x.args = append(x.args, fromE(a))
			}
			if len(b.String()) > 1<<20 {
				x.err = errors.New("too much text")
				log = append(log, x)
				return nil, x.err
			}
			v, err := f(args, b)
			if x.err = err; err == nil {
				x.val = fromE(v)
			}
			log = append(log, x)
			return v, err
		}
	}
	p := prog(c.Is)
	val, err := edlisp.Eval(p, env, c.buffer())
	// the record must be that of evaluating from left to right, inside out
	at := 0
	story := func() string {
		var s []string
		for _, x := range log {
			s = append(s, fmt.Sprintf("%s %v", x.fn, x.args))
		}
		return clip(strings.Join(s, "; "))
	}
	var want func(v Val) (Val, bool) // the value, or false if the run must end here
	want = func(v Val) (Val, bool) {
		if v.K == "s" || v.K == "n" {
			return v, true
		}
		fn := v.Fn()
		_, known := env.Functions[fn]
		if v.K != "l" || len(v.L) == 0 || v.L[0].K != "y" || !known {
			if v.K == "l" && len(v.L) > 0 { // arguments of what is no function may have been evaluated
				for _, a := range v.L[1:] {
					if at == len(log) {
						break
					}
					if _, ok := want(a); !ok {
						break
					}
				}
			}
			return Val{}, false
		}
		var args []Val
		for _, a := range v.Args() {
			x, ok := want(a)
			if !ok {
				return Val{}, false
			}
			args = append(args, x)
		}
		if at >= len(log) {
			r.Fail("%s was not called with %v; the calls were %s", fn, args, story())
		}
		x := log[at]
		at++
		if x.fn != fn || !eqs(x.args, args) {
			r.Fail("call %d should be %s %v; the calls were %s", at, fn, args, story())
		}
		return x.val, x.err == nil
	}
	var last Val = VS("")
	done := true
	n := 0
	for _, v := range c.Is {
		if last, done = want(v); !done {
			break
		}
		n++
	}
	if at != len(log) {
		r.Fail("%d calls too many after the first %d: %s", len(log)-at, at, story())
	}
	if done != (err == nil) {
		r.Fail("the instructions all succeed: %v, but the script gives the error %v", done, err)
	}
	if done && !eq(last, fromE(val)) {
		r.Fail("the last instruction gives %s, but the script gives %s", last, fromE(val))
	}
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) && (ee.InstructionIndex != n || ee.OriginalError == nil) {
		r.Fail("instruction %d fails, but the error names %d", n, ee.InstructionIndex)
	}
	if len(log) >= 2 {
		r.NonTrivial()
	}
}

func genNest(t *T) *NestCase {
	raw := t.P(1, 8)
	st := genState(t, textOpt{raw: raw, max: 200})
	c := &NestCase{Text: B(st.Text), P: st.P, M: st.M}
	if v, ok := matchingSearch(t, st, raw); ok && t.Bool() {
		c.Pre = append(c.Pre, v)
		st = step(st, v)
	}
	switch t.W(3, 2) {
	case 0:
		c.V = genNested(t, st, t.R(1, 4), raw)
	case 1: // several arguments with effects
		c.V = Call("concat")
		for k := t.R(2, 4); k > 0; k-- {
			x := nestedOf(t, st, VS(""), 2, raw)
			c.V.L = append(c.V.L, x)
		}
		if t.Bool() {
			c.V = Call(pick(t, []string{"insert", "replace-region", "replace-match", "search-forward"}), c.V)
		}
	}
	if t.P(1, 50) {
		c.V = deepen(t, st, c.V)
	}
	return c
}

// deepen wraps a call in many others, with effects here and there on the way.
func deepen(t *T, st State, v Val) Val {
	n := t.R(20, 600)
	if t.P(1, 3) {
		if n = pick(t, dict().ints) + t.N(3); n < 8 || n > 2000 {
			n = 1000 + t.N(100)
		}
	}
	end := t.N(n)
	for i := 0; i < n; i++ {
		w := Call("concat", v)
		if i == end || i == n-1 || i == 0 {
			x := nestedOf(t, st, VS(""), 1, false)
			switch t.N(3) {
			case 0:
				w = Call("concat", x, v)
			case 1:
				w = Call("concat", v, x)
			}
		} else if i%7 == 3 {
			w = Call("downcase", v)
		}
		v = w
	}
	return Call("insert", v)
}

func init() {
	register(&Property{ID: "C10", Rule: "at least two instructions (or two nested calls) were executed before the program ended",
		Assumptions: []string{"Programs that grow the text beyond 2 MiB are not compared."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("whole, stepwise, split and traced", genC10, runC10).n(240000, 6000000),
				mkSpec("recorded calls", genC10, runSpy).n(160000, 4000000),
				mkSpec("nested calls", genNest, runNest).n(240000, 6000000),
				mkSpec("command line trace", genTraceCLI, runTraceCLI).n(3200, 20000),
			}
		}})
}

// ---- C11

type FailCase struct {
	Text B     `json:"text"`
	P    int   `json:"point"`
	M    int   `json:"mark"`
	Pre  []Val `json:"before"`
	Bad  Val   `json:"failing"`
	Post []Val `json:"after"`
}

func genC11(t *T) *FailCase {
	raw := t.P(1, 6)
	st := genState(t, textOpt{raw: raw, max: 600, big: 250})
	if t.Bool() {
		st.P, st.M = 1, 1
	}
	c := &FailCase{Text: B(st.Text), P: st.P, M: st.M}
	n := t.Small(8)
	if t.P(1, 300) { // far into a long program
		n = genSize(t, 1100)
		for i := 0; i < n; i++ {
			v := pick(t, []Val{Call("insert", VS("ab c\n")), Call("backward-char"), Call("forward-word"), Call("delete-char"), Call("set-mark"), Call("beginning-of-line"), Call("point"), Call("search-backward", VS("b"))})
			p := predict(st, v.Fn(), v.Args())
			if p.Err || p.Unspec {
				continue
			}
			c.Pre = append(c.Pre, v)
			st = p.St
		}
		n = 0
	}
	for ; n > 0; n-- {
		v := genCall(t, st, genFn(t, nil), raw)
		c.Pre = append(c.Pre, v)
		st = step(st, v)
	}
	if t.P(2, 3) {
		if v, ok := matchingSearch(t, st, raw); ok {
			c.Pre = append(c.Pre, v)
			st = step(st, v)
		}
	}
	if t.P(1, 4) { // a replace-match without a match, a call that happens to fail
		v := genCall(t, st, pick(t, []string{"replace-match", "search-forward", "re-search-forward", "search-backward", "re-search-backward"}), raw)
		c.Bad = v
	} else {
		c.Bad = genFailing(t, st, raw)
	}
	for k := t.N(4); k > 0; k-- {
		c.Post = append(c.Post, genCall(t, st, genFn(t, nil), raw))
	}
	return c
}

func runC11(c *FailCase, r *Rec) {
	env := edlisp.NewDefaultEnvironment()
	buf := edlisp.NewBuffer(string(c.Text))
	buf.SetPoint(c.P)
	buf.SetMark(c.M)
	var pre []Val // the instructions that succeed
	for _, v := range c.Pre {
		pre = append(pre, v)
		if _, err := edlisp.Eval(prog([]Val{v}), env, buf); err != nil {
			pre = pre[:len(pre)-1]
		}
	}
	all := append(append(append([]Val{}, pre...), c.Bad), c.Post...)
	p := prog(all)
	fresh := func() *edlisp.Buffer {
		b := edlisp.NewBuffer(string(c.Text))
		b.SetPoint(c.P)
		b.SetMark(c.M)
		return b
	}
	before := fresh()
	if _, err := edlisp.Eval(prog(pre), env, before); err != nil {
		return // failed instructions did make a difference: reported by the check of the single steps below
	}
	after := fresh()
	_, err := edlisp.Eval(p, env, after)
	if err == nil {
		return
	}
	var ee *edlisp.ExecutionError
	if !errors.As(err, &ee) {
		r.Fail("the error of %s is not an ExecutionError: %T %v", clip(c.Bad.String()), err, err)
	}
	if ee.InstructionIndex != len(pre) {
		if ee.InstructionIndex > len(pre) {
			return // the instruction meant to fail did not
		}
		r.Fail("instruction %d fails, but the error names instruction %d", len(pre), ee.InstructionIndex)
	}
	r.NonTrivial()
	if hasNested(c.Bad) {
		r.Label("nested")
	} else if c.Bad.K == "l" && len(c.Bad.L) > 0 {
		if _, ok := sigs[c.Bad.Fn()]; !ok {
			r.Label("unknown function")
		} else if !fits(c.Bad.Fn(), c.Bad.Args()) {
			r.Label("wrong arguments")
		} else {
			r.Label("failing " + c.Bad.Fn())
		}
	}
	eb, ea := end(before, edlisp.NewString(""), nil, 0), end(after, edlisp.NewString(""), nil, 0)
	if !eb.same(ea) {
		r.Fail("failing instruction %s:\nbefore: %s\nafter: %s", clip(c.Bad.String()), eb, ea)
	}
	// replace-match is what the remembered match is for
	// (on buffers no other failing instruction has seen)
	before, after = fresh(), fresh()
	edlisp.Eval(prog(pre), env, before)
	edlisp.Eval(p, env, after)
	o1, o2 := run1(before, env, Call("replace-match", VS("<R>"))), run1(after, env, Call("replace-match", VS("<R>")))
	if o1.Text != o2.Text || o1.P != o2.P || o1.M != o2.M || (o1.Err == nil) != (o2.Err == nil) {
		r.Fail("failing instruction %s changed the remembered match: replace-match gives %s instead of %s", clip(c.Bad.String()), o2.show(), o1.show())
	}
	// the report
	if !eq(fromE(ee.CurrentInstruction), c.Bad) {
		r.Fail("the error names instruction %s instead of %s", clip(fromE(ee.CurrentInstruction).String()), clip(c.Bad.String()))
	}
	if ee.Point != eb.p || ee.Mark != eb.m || ee.BufferContents != eb.text {
		r.Fail("the error reports %s; it happened at %s", showState(ee.BufferContents, ee.Point, ee.Mark), showState(eb.text, eb.p, eb.m))
	}
	if ee.LastSearchStart != eb.ms || ee.LastSearchEnd != eb.me || ee.LastSearchMatch != eb.mt {
		r.Fail("the error reports the match %q %d..%d instead of %q %d..%d", ee.LastSearchMatch, ee.LastSearchStart, ee.LastSearchEnd, eb.mt, eb.ms, eb.me)
	}
	if !eqs(fromProg(ee.Program), all) {
		r.Fail("the error carries another program")
	}
	if ee.OriginalError == nil || !errors.Is(err, ee.OriginalError) || errors.Unwrap(ee) != ee.OriginalError {
		r.Fail("the error does not carry its cause")
	}
	msg := err.Error()
	want := []string{ee.OriginalError.Error(), fmt.Sprintf("instruction %d", len(pre)), fmt.Sprintf("point=%d", eb.p), fmt.Sprintf("mark=%d", eb.m)}
	if fn := c.Bad.Fn(); fn != "" {
		want = append(want, fn)
	}
	if bad, ok := sexpText(c.Bad); ok {
		want = append(want, bad)
	}
	for _, w := range want {
		if !strings.Contains(msg, w) {
			r.Fail("the message %s does not contain %s", clip(msg), clip(w))
		}
	}
	if c.Bad.K == "l" && c.Bad.Fn() != "" {
		if _, ok := sigs[c.Bad.Fn()]; !ok && !hasNested(c.Bad) && !strings.Contains(ee.OriginalError.Error(), c.Bad.Fn()) {
			r.Fail("the cause %q of an undefined function does not name it", ee.OriginalError)
		}
	}
	// through the library
	if c.P == 1 && c.M == 1 && allParse(all) {
		for _, f := range []string{"shell", "sexp", "json"} {
			if f == "json" && !validStrings(VL(all...)) {
				continue
			}
			out, lerr := texted.ExecuteScriptWithFormat(string(c.Text), scriptOf(all, f), f)
			if lerr == nil || out != "" {
				r.Fail("ExecuteScriptWithFormat(%s) returns %s, %v for a failing script", f, clip(out), lerr)
			}
			var le *edlisp.ExecutionError
			if !errors.As(lerr, &le) || le.InstructionIndex != len(pre) || le.Point != eb.p || le.Mark != eb.m || le.BufferContents != eb.text || !strings.Contains(lerr.Error(), msg) {
				r.Fail("the library reports %v\nEval reports %v", lerr, err)
			}
		}
	}
}

// sexpText is the S-expression of a value whose strings and numbers have only one reasonable spelling.
func sexpText(v Val) (string, bool) {
	for _, x := range append([]Val{v}, v.L...) {
		switch x.K {
		case "s":
			if strings.IndexFunc(string(x.S), func(r rune) bool { return r < ' ' || r > '~' }) >= 0 {
				return "", false
			}
		case "n":
			if n := float64(x.N); n != float64(int32(n)) {
				return "", false
			}
		case "y":
			if strings.IndexFunc(string(x.S), func(r rune) bool { return r <= ' ' || r > '~' }) >= 0 {
				return "", false
			}
		}
	}
	for _, x := range v.L {
		if x.K == "l" {
			if _, ok := sexpText(x); !ok {
				return "", false
			}
		}
	}
	return v.String(), true
}

func init() {
	register(&Property{ID: "C11", Rule: "the chosen instruction failed after the instructions before it had succeeded",
		Assumptions: []string{"An instruction whose arguments are calls with effects is atomic in no language; these are checked for the report only through the state right after their arguments."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("failing instructions", genC11, runC11).n(300000, 8000000),
				mkSpec("failing scripts on the command line", genFailCLI, runFailCLI).n(2000, 20000),
			}
		}})
}

// ---- C12

type SigCase struct {
	Text B   `json:"text"`
	P    int `json:"point"`
	V    Val `json:"call"`
	Fits bool
	Ok   bool `json:"must_succeed"`
}

type docSig struct {
	min, max int
	kinds    []string
}

// docSigs reads the signatures from the documentation.
func docSigs() map[string]docSig {
	m := map[string]docSig{}
	for _, d := range edlisp.GetAllDocumentation() {
		var s docSig
		for _, p := range d.Parameters {
			k := "?"
			if strings.HasPrefix(p.Type, "string") {
				k = "s"
			} else if strings.HasPrefix(p.Type, "number") || strings.HasPrefix(p.Type, "int") {
				k = "n"
			}
			s.kinds = append(s.kinds, k)
			s.max++
			if !p.Optional {
				s.min = s.max
			}
			if strings.HasPrefix(p.Description, "Zero or more") || strings.HasSuffix(p.Name, "...") {
				s.min, s.max = 0, -1
				break
			}
		}
		m[d.Name] = s
	}
	return m
}

const sigText = "a foo bar\nfoo a bar\n12 x\n"

// plainArg is an argument that makes the function succeed.
func plainArg(fn string, i int, k string) Val {
	if k == "n" {
		return VI(1 + i)
	}
	return VS("a")
}

func enumC12(tier string, yield func(*SigCase) bool) {
	docs := docSigs()
	names := map[string]bool{}
	for n := range docs {
		names[n] = true
	}
	for n := range sigs {
		names[n] = true
	}
	kindVals := map[string][]Val{"s": {VS("a"), VS(""), VS("1")}, "n": {VI(1), VI(0)}, "y": {Call("looking-at", VS("zzz"))}}
	for _, fn := range sortedKeys(names) {
		d, documented := docs[fn]
		s, known := sigs[fn]
		if !documented || !known {
			// C23 is about functions that are not documented; here only the documented ones count
			if !documented {
				continue
			}
			s.min, s.max, s.kinds = d.min, d.max, strings.Join(d.kinds, "")
		}
		if d.min != s.min || d.max != s.max || strings.Join(d.kinds, "") != s.kinds {
			// the documentation says something else than it used to: it is what counts
			s.min, s.max, s.kinds = d.min, d.max, strings.Join(d.kinds, "")
		}
		top := s.max
		if top < 0 {
			top = 4
		}
		var rec func(args []Val, fits bool) bool
		rec = func(args []Val, good bool) bool {
			n := len(args)
			f := good && n >= s.min && (s.max < 0 || n <= s.max)
			for _, p := range []int{1, 3, len(sigText) + 1} {
				ok := f && p == 3
				for i, a := range args {
					if ok && a.K == "s" && a.S != "a" || (a.K == "n" && i == 0 && a.N == 0) {
						ok = false
					}
				}
				if !yield(&SigCase{Text: sigText, P: p, V: Call(fn, args...), Fits: f, Ok: ok}) {
					return false
				}
			}
			if n >= top+2 || n >= 6 {
				return true
			}
			for _, k := range []string{"s", "n", "y"} {
				want := ""
				if s.kinds != "" {
					want = string(s.kinds[min(n, len(s.kinds)-1)])
				}
				vals := kindVals[k]
				if n >= 2 {
					vals = vals[:1]
				}
				for _, v := range vals {
					if !rec(append(args[:n:n], v), good && k == want) {
						return false
					}
				}
			}
			return true
		}
		if !rec(nil, true) {
			return
		}
		// far too many arguments
		many := []int{10, 100, 1000}
		for n := s.min; n <= top; n++ { // which look right in few bits
			many = append(many, n+256, n+65536)
		}
		for _, n := range many {
			var a []Val
			for i := 0; i < n; i++ {
				k := "n"
				if s.kinds != "" {
					k = string(s.kinds[min(i, len(s.kinds)-1)])
				}
				a = append(a, plainArg(fn, 0, k))
			}
			if !yield(&SigCase{Text: sigText, P: 3, V: Call(fn, a...), Fits: s.max < 0, Ok: s.max < 0}) {
				return
			}
		}
	}
	// things that are no calls
	for _, v := range []Val{VL(), VL(VS("insert"), VS("x")), VL(VN(1)), VL(VN(1), VS("insert")), VL(Call("point")), VL(VL()), VL(VL(VY("insert")), VS("x")), VY("point"), VY("undefined"), Call(""), Call("insert", VY("x")), Call("insert", VL()), Call("goto-char", VL(VN(1))), Call("insert", VL(VS("x"))), Call(" "), Call("POINT"), Call("Insert", VS("x")), Call("insert ", VS("x")), Call("t"), Call("nil")} {
		if !yield(&SigCase{Text: sigText, P: 3, V: v}) {
			return
		}
	}
}

func runC12(c *SigCase, r *Rec) {
	env := edlisp.NewDefaultEnvironment()
	b := edlisp.NewBuffer(string(c.Text))
	// a remembered match for replace-match and for the searches backward
	if o := run1(b, env, Call("search-forward", VS("a"))); o.Err != nil || o.Panic != "" {
		return
	}
	if c.P != 3 {
		b.SetPoint(c.P)
	} else {
		b.SetPoint(12)
	}
	b.SetMark(4)
	pre := end(b, edlisp.NewString(""), nil, 0)
	o := run1(b, env, c.V)
	r.NonTrivial()
	if o.Panic != "" {
		r.Fail("%s: %s", c.V, o.Panic)
	}
	if !c.Fits {
		r.Label("must be refused")
		if o.Err == nil {
			r.Fail("%s is accepted, though it does not fit the documented signature", clip(c.V.String()))
		}
		post := end(b, edlisp.NewString(""), nil, 0)
		if !post.same(pre) {
			r.Fail("%s is an error, but has an effect: %s\nbefore: %s", clip(c.V.String()), post, pre)
		}
		return
	}
	r.Label("fits")
	if c.Ok && o.Err != nil {
		r.Fail("%s fits the documented signature, but is refused: %v", clip(c.V.String()), o.Err)
	}
	if o.Err != nil {
		if fn := c.V.Fn(); owner[fn] != "C05" && fn != "replace-match" {
			r.Fail("%s fits the documented signature, but is refused: %v", clip(c.V.String()), o.Err)
		}
	}
}

// random calls in random states against the same rule
type SigCase2 struct {
	Hist HistCase
	V    Val
}

func genC12(t *T) *SigCase2 {
	raw := t.P(1, 6)
	st := genState(t, textOpt{raw: raw, max: 300, big: 300})
	c := &SigCase2{Hist: HistCase{Text: B(st.Text), P: st.P, M: st.M}}
	c.Hist.Is = genHistory(t, st, nil, t.N(5), raw)
	for _, v := range c.Hist.Is {
		st = step(st, v)
	}
	switch t.W(4, 3, 2) {
	case 0:
		c.V = genCall(t, st, pick(t, allFns), raw)
	case 1:
		for {
			c.V = genFailing(t, st, raw)
			if !hasNested(c.V) {
				break
			}
		}
	case 2:
		c.V = genNested(t, st, 1, raw)
	}
	return c
}
func runC12b(c *SigCase2, r *Rec) {
	env := edlisp.NewDefaultEnvironment()
	b := edlisp.NewBuffer(string(c.Hist.Text))
	b.SetPoint(c.Hist.P)
	b.SetMark(c.Hist.M)
	for _, v := range c.Hist.Is {
		edlisp.Eval(prog([]Val{v}), env, b)
	}
	pre := end(b, edlisp.NewString(""), nil, 0)
	o := run1(b, env, c.V)
	if o.Panic != "" {
		r.Fail("%s: %s", c.V, o.Panic)
	}
	if c.V.K == "s" || c.V.K == "n" {
		return
	}
	fn := c.V.Fn()
	args := c.V.Args()
	if hasNested(c.V) { // what the call is given is what its arguments give one after the other
		b2 := edlisp.NewBuffer(string(c.Hist.Text))
		b2.SetPoint(c.Hist.P)
		b2.SetMark(c.Hist.M)
		for _, v := range c.Hist.Is {
			edlisp.Eval(prog([]Val{v}), env, b2)
		}
		given := append([]Val{}, args...)
		for i, a := range args {
			if a.K != "l" {
				continue
			}
			x, err := edlisp.Eval(prog([]Val{a}), env, b2)
			if err != nil {
				return
			}
			given[i] = fromE(x)
		}
		if !fits(fn, given) {
			r.NonTrivial()
			r.Label("nested, must be refused")
			mid := end(b2, edlisp.NewString(""), nil, 0)
			if o.Err == nil {
				r.Fail("%s is accepted, though its arguments %v do not fit the documented signature", clip(c.V.String()), given)
			}
			if post := end(b, edlisp.NewString(""), nil, 0); !post.same(mid) {
				r.Fail("%s is an error, but has an effect beyond that of its arguments: %s\nbefore: %s", clip(c.V.String()), post, mid)
			}
		}
		return
	}
	for _, a := range args {
		if a.K == "y" {
			return
		}
	}
	r.NonTrivial()
	if !fits(fn, args) {
		r.Label("must be refused")
		if o.Err == nil {
			r.Fail("%s is accepted, though it does not fit the documented signature", clip(c.V.String()))
		}
		if post := end(b, edlisp.NewString(""), nil, 0); !post.same(pre) {
			r.Fail("%s is an error, but has an effect: %s\nbefore: %s", clip(c.V.String()), post, pre)
		}
		return
	}
	r.Label("fits")
	if o.Err != nil && owner[fn] != "C05" && fn != "replace-match" && !(fn == "replace-regexp-in-string" && compileRe(string(args[0].S)) == nil) {
		r.Fail("%s fits the documented signature, but is refused: %v", clip(c.V.String()), o.Err)
	}
	if o.Err != nil && owner[fn] == "C05" {
		st := State{Text: pre.text, P: pre.p, M: pre.m}
		if p := predict(st, fn, args); !p.Err && !p.Unspec {
			r.Fail("%s fits the documented signature and has a match, but is refused: %v", clip(c.V.String()), o.Err)
		}
	}
}

func init() {
	register(&Property{ID: "C12", Rule: "a call was judged by the documented signature",
		Assumptions: []string{"concat is documented as taking zero or more strings; the values a call can be given are strings, numbers and the symbols t and nil, as no function returns a list."},
		Specs: func() []*Spec {
			return []*Spec{
				enum(mkSpec[SigCase]("every function, number and kinds of arguments", nil, runC12), enumC12),
				mkSpec("calls in random states", genC12, runC12b).n(300000, 8000000),
			}
		}})
}

// ---- C02

type AnyCase struct {
	Text B     `json:"text"`
	P    int   `json:"point"`
	M    int   `json:"mark"`
	Is   []Val `json:"instructions"`
}

var extremes = []float64{0, 1, -1, 2, 0.5, -0.5, 1.999999, 1e9, -1e9, 2147483647, -2147483648, 4294967296, 9007199254740993, 9223372036854775807, -9223372036854775808, 1e19, -1e19, 1e308, -1e308, 5e-324, nan(), inf(1), inf(-1)}

func genAnyVal(t *T, depth int) Val {
	switch t.W(4, 4, 1, 2, 1) {
	case 0:
		return VS(genStr(t, true))
	case 1:
		if t.Bool() {
			return VN(pick(t, extremes))
		}
		return VI(t.R(-5, 60))
	case 2:
		return VY(pick(t, append([]string{"", "t", "nil", "x"}, allFns...)))
	case 3:
		if depth <= 0 {
			return Call("point")
		}
		return genAnyCall(t, depth-1)
	}
	var l []Val
	for k := t.N(3); k > 0 && depth > 0; k-- {
		l = append(l, genAnyVal(t, depth-1))
	}
	return VL(l...)
}
func genAnyCall(t *T, depth int) Val {
	fn := pick(t, allFns)
	if t.P(1, 20) {
		fn = unknownName(t)
	}
	s := sigs[fn]
	v := Call(fn)
	n := s.min
	if s.max < 0 {
		n = t.N(4)
	} else if s.max > s.min {
		n = t.R(s.min, s.max)
	}
	if t.P(1, 12) {
		n = t.N(4)
	}
	for i := 0; i < n; i++ {
		k := byte('s')
		if s.kinds != "" {
			k = s.kinds[min(i, len(s.kinds)-1)]
		}
		if t.P(1, 10) {
			v.L = append(v.L, genAnyVal(t, depth))
			continue
		}
		if k == 'n' {
			if t.Bool() {
				v.L = append(v.L, VN(pick(t, extremes)))
			} else {
				v.L = append(v.L, VN(float64(t.R(-20, 200))+pick(t, []float64{0, 0, 0.5})))
			}
		} else {
			st := State{Text: "foo bar\nbaz", P: 3, M: 1}
			if t.Bool() || t.long && (strings.Contains(fn, "re") || strings.HasPrefix(fn, "looking")) {
				v.L = append(v.L, VS(genRegexp(t, st, true)))
			} else {
				v.L = append(v.L, VS(genStr(t, true)))
			}
		}
	}
	return v
}
func genC02(t *T) *AnyCase {
	o := textOpt{raw: true, max: 1000}
	if t.P(1, 50) {
		o.max = 100000
	}
	st := genState(t, o)
	c := &AnyCase{Text: B(st.Text), P: st.P, M: st.M}
	if t.P(1, 10) {
		c.P, c.M = int(genCount(t, st)), int(genCount(t, st))
	}
	for k := 1 + t.Small(10); k > 0; k-- {
		if t.P(1, 3) {
			v := genCall(t, st, genFn(t, nil), true)
			c.Is = append(c.Is, v)
			st = step(st, v)
			continue
		}
		c.Is = append(c.Is, genAnyCall(t, t.N(3)))
	}
	return c
}

// maxSmall is how long one instruction on a small text may take. None takes a tenth of it.
const maxSmall = 300 * time.Millisecond

// threadTime is the processor time that f takes, waiting not included.
func threadTime(f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	now := func() time.Duration {
		var u syscall.Rusage
		syscall.Getrusage(1, &u) // of the thread
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	t := now()
	f()
	return now() - t
}

// runAgain measures instruction i of a case again, twice.
func runAgain(c *AnyCase, i int) (took [2]time.Duration) {
	for k := range took {
		buf := edlisp.NewBuffer(string(c.Text))
		buf.SetPoint(c.P)
		buf.SetMark(c.M)
		env := edlisp.NewDefaultEnvironment()
		for _, v := range c.Is[:i] {
			run1(buf, env, v)
		}
		runtime.GC()
		took[k] = threadTime(func() { run1(buf, env, c.Is[i]) })
	}
	return took
}

func runC02(c *AnyCase, r *Rec) {
	buf := edlisp.NewBuffer(string(c.Text))
	buf.SetPoint(c.P)
	buf.SetMark(c.M)
	env := edlisp.NewDefaultEnvironment()
	p := prog(c.Is)
	ran := 0
	small := len(c.Text) <= 2000 && len(VL(c.Is...).String()) <= 4000
	for i := range p {
		size := len(buf.String())
		var o Obs
		took := threadTime(func() { o = run1(buf, env, c.Is[i]) })
		if o.Panic != "" {
			r.Fail("instruction %d %s: %s", i, clip(c.Is[i].String()), o.Panic)
		}
		if small && size <= 20000 && took > maxSmall {
			// always, or was it the machine?
			again := runAgain(c, i)
			if min(took, again[0], again[1]) > maxSmall {
				r.Fail("instruction %d %s takes %v of processor time on a text of %d bytes (%v and %v when run again)", i, clip(c.Is[i].String()), took, size, again[0], again[1])
			}
		}
		if o.Err == nil {
			ran++
		} else if len(o.Text) < 20000 {
			_ = o.Err.Error()
		}
		if len(o.Text) > 1<<21 {
			return
		}
	}
	if ran > 0 {
		r.NonTrivial()
	}
	for _, f := range []writer.Format{writer.FormatShell, writer.FormatSExp, writer.FormatJSON, "other"} {
		w, err := writer.NewWriter(f)
		if err != nil {
			continue
		}
		var sb strings.Builder
		w.Write(&sb, p)
		for _, x := range p {
			w.WriteValue(&sb, x)
		}
	}
}

// arbitrary bytes as scripts
type BytesCase struct {
	Text   B `json:"text"`
	Script B `json:"script"`
}

var tokenPieces = []string{"(", ")", "((", "))", "\"", "\"\"", "\"a\"", "\\", "\\\"", "\n", ";", " ", "\t", "insert", "goto-char", "1", "-1", "1e999", "nan", "inf", "0x10", "1_000", "[", "]", ",", "{", "}", ":", "null", "true", "false", "\"insert\"", "[\"insert\",\"x\"]", "[[\"point\"]]", "\r", "\x00", "\xff", "é", "\"\\u00e9\"", "\"\\ud800\"", "\"\\x41\"", "'", "#", "`", "/", "<", ">", "&", "-", ".", "point", "concat", "search-forward \"a\"", "(insert \"x\")", "\\u", "1e5", "\v", "\u00a0", "\u2028", "\ufeff", "[[[[", "]]]]", "(((((", ")))))"}

func genBytes(t *T) *BytesCase {
	c := &BytesCase{}
	st := genState(t, textOpt{raw: true, max: 300})
	c.Text = B(st.Text)
	switch t.W(4, 4, 3, 1) {
	case 0: // tokens
		s := ""
		for k := t.Small(30); k > 0; k-- {
			s += pick(t, tokenPieces)
			if t.Bool() {
				s += " "
			}
		}
		c.Script = B(s)
	case 1: // a damaged script
		is := genProgram(t, st, 1+t.N(5), true, t.Bool())
		for i := range is {
			if is[i].K != "l" {
				is[i] = Call("point")
			}
		}
		s := []byte(scriptOf(is, pick(t, []string{"shell", "sexp", "json", "jsonarray"})))
		for k := t.N(4); k > 0 && len(s) > 0; k-- {
			i := t.N(len(s))
			switch t.N(4) {
			case 0:
				s = append(s[:i:i], s[i+1:]...)
			case 1:
				s[i] = byte(t.N(256))
			case 2:
				s = append(s[:i:i], append([]byte(pick(t, tokenPieces)), s[i:]...)...)
			case 3:
				s = s[:i]
			}
		}
		c.Script = B(s)
	case 2: // anything
		s := make([]byte, t.Small(60))
		for i := range s {
			s[i] = byte(t.N(256))
		}
		c.Script = B(s)
	case 3: // long
		c.Script = B(strings.Repeat(pick(t, tokenPieces), genSize(t, 70000)) + pick(t, tokenPieces))
		if len(c.Script) > 300000 {
			c.Script = c.Script[:300000]
		}
	}
	return c
}

// runBytes runs the bytes as a script. A short one takes no time at all.
func runBytes(c *BytesCase, r *Rec) {
	if len(c.Script) > 3000 || len(c.Text) > 3000 {
		useBytes(c, r)
		return
	}
	took := threadTime(func() { useBytes(c, r) })
	if took <= maxSmall {
		return
	}
	for try := 0; try < 2; try++ {
		runtime.GC()
		took = min(took, threadTime(func() { useBytes(c, r) }))
	}
	if took > maxSmall {
		r.Fail("a script of %d bytes on a text of %d takes %v of processor time, three times", len(c.Script), len(c.Text), took)
	}
}

func useBytes(c *BytesCase, r *Rec) {
	s := string(c.Script)
	var progs [][]edlisp.Value
	add := func(p []edlisp.Value, err error) {
		if err == nil {
			progs = append(progs, p)
		} else {
			_ = err.Error()
		}
	}
	add(parser.ParseString(s))
	add(parser.ParseReader(strings.NewReader(s)))
	add(parser.ParseSexp(s))
	add(parser.ParseJSONString(s))
	add(parser.ParseJSONReader(strings.NewReader(s)))
	for _, f := range []string{"shell", "sexp", "json", "", "nonsense"} {
		add(parser.ParseFormat(f, s))
	}
	if growth(s) <= 3 {
		for _, f := range []string{"shell", "sexp", "json", "nonsense", ""} {
			texted.ExecuteScriptWithFormat(string(c.Text), s, f)
		}
		texted.ExecuteScript(string(c.Text), s)
		tedtesting.RunTest(&tedtesting.TestCase{Buffer: string(c.Text), Input: tedtesting.Input{Text: s}, Output: "x"}, edlisp.NewDefaultEnvironment())
	}
	tedtesting.RunTest(&tedtesting.TestCase{Buffer: string(c.Text), Input: tedtesting.Input{Text: "point"}, Result: tedtesting.Result{Text: s, Lang: "json"}}, edlisp.NewDefaultEnvironment())
	tedtesting.RunTest(&tedtesting.TestCase{Buffer: string(c.Text), Input: tedtesting.Input{Text: "point"}, Result: tedtesting.Result{Text: s}}, edlisp.NewDefaultEnvironment())
	if tc, err := tedtesting.ParseTestCase(strings.NewReader(s)); err == nil && growth(tc.Input.Text) <= 3 {
		tedtesting.RunTest(tc, edlisp.NewDefaultEnvironment())
	}
	if tc, err := tedtesting.ParseTestCase(strings.NewReader("<buffer>a</buffer><input lang=\"shell\">" + s + "</input><output>b</output><result>" + s + "</result>")); err == nil && growth(tc.Input.Text) <= 3 {
		tedtesting.RunTest(tc, edlisp.NewDefaultEnvironment())
	}
	if len(progs) > 0 {
		r.NonTrivial()
		r.Label("accepted by some parser")
	}
	for _, p := range progs {
		for _, f := range []writer.Format{writer.FormatShell, writer.FormatSExp, writer.FormatJSON} {
			w, _ := writer.NewWriter(f)
			var sb strings.Builder
			w.Write(&sb, p)
		}
	}
}

// growth counts the calls through which a script can multiply the text.
func growth(s string) int {
	return strings.Count(s, "buffer-substring") + strings.Count(s, "replace-regexp-in-string")
}

// deeply nested and otherwise huge scripts
type DeepCase struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

func (d *DeepCase) script() string {
	n := d.N
	switch d.Kind {
	case "parens":
		return strings.Repeat("(", n)
	case "closed parens":
		return strings.Repeat("(", n) + strings.Repeat(")", n)
	case "nested calls":
		return strings.Repeat("(concat ", n) + strings.Repeat(")", n)
	case "nested shell":
		return "concat " + strings.Repeat("(concat \"a\" ", n) + strings.Repeat(")", n)
	case "nested json":
		return strings.Repeat(`["concat",`, n) + `"a"` + strings.Repeat("]", n)
	case "brackets":
		return strings.Repeat("[", n)
	case "closed brackets":
		return strings.Repeat("[", n) + strings.Repeat("]", n)
	case "objects":
		return strings.Repeat(`{"a":`, n)
	case "closing":
		return strings.Repeat(")", n)
	case "long line":
		return "insert \"" + strings.Repeat("x", n) + "\""
	case "many lines":
		return strings.Repeat("forward-char\n", n)
	case "many commands":
		return strings.Repeat("end-of-buffer;", n)
	case "many arguments":
		return "concat" + strings.Repeat(" \"a\"", n)
	case "many json":
		return strings.Repeat(`["point"]`, n)
	case "json array":
		return "[" + strings.Repeat(`["point"],`, n) + `["point"]]`
	case "backslashes":
		return "insert \"" + strings.Repeat("\\\\", n) + "\""
	case "quotes":
		return strings.Repeat("\"", n)
	case "semicolons":
		return strings.Repeat(";", n)
	case "regexp groups":
		return "re-search-forward \"" + strings.Repeat("(", n) + strings.Repeat(")", n) + "\""
	case "regexp stars":
		return "re-search-forward \"" + strings.Repeat("(a*)*", n) + "$\""
	case "regexp repeat":
		return "looking-back \"" + strings.Repeat("(a?){30}", n) + "b\""
	case "long symbol":
		return strings.Repeat("x", n)
	case "digits":
		return "goto-char " + strings.Repeat("9", n)
	case "xml":
		return strings.Repeat("<a>", n)
	}
	return ""
}

var deepKinds = []string{"parens", "closed parens", "nested calls", "nested shell", "nested json", "brackets", "closed brackets", "objects", "closing", "long line", "many lines", "many commands", "many arguments", "many json", "json array", "backslashes", "quotes", "semicolons", "regexp groups", "regexp stars", "regexp repeat", "long symbol", "digits", "xml"}

func enumDeep(tier string, yield func(*DeepCase) bool) {
	sizes := []int{9000, 10, 500, 100000, 3000}
	if tier == "thorough" {
		sizes = append(sizes, 1000, 20000, 1000000)
	}
	for _, n := range sizes {
		for _, k := range deepKinds {
			m := n
			if strings.HasPrefix(k, "regexp") {
				m = min(n, 1000)
			}
			if k == "nested calls" || k == "nested shell" {
				// their time grows with the square of the depth, which is limited at 10000
				if m > 5000 && m <= 10000 {
					m = 5000
				}
			}
			if k == "many lines" || k == "many commands" || k == "many json" || k == "json array" {
				m = min(n, 20000)
			}
			if !yield(&DeepCase{Kind: k, N: m}) {
				return
			}
		}
	}
}
func runDeep(c *DeepCase, r *Rec) {
	r.NonTrivial()
	runBytes(&BytesCase{Text: B(strings.Repeat("a", 200) + "\n"), Script: B(c.script())}, &Rec{})
}

func init() {
	register(&Property{ID: "C02", Rule: "some instruction ran, or some parser accepted the bytes, or a huge script was processed",
		Assumptions: []string{"A case counts as hanging when it is stuck for 60 s or uses 25 s of processor time, and again is stuck for 150 s or uses 25 s of processor time when run on its own; one instruction or script on a text of a few thousand bytes may use 0.3 s; as running away counts what uses more than 6 GiB.",
			"Scripts that multiply the text again and again by inserting the buffer into itself do what they say; they are stopped at 2 MiB."},
		Specs: func() []*Spec {
			return []*Spec{
				enum(mkSpec[DeepCase]("huge scripts", nil, runDeep), enumDeep),
				enum(mkSpec[VastCase]("large texts", nil, runVast), enumVast),
				mkSpec("arbitrary instructions", genC02, runC02).n(200000, 10000000),
				mkSpec("arbitrary bytes", genBytes, runBytes).n(80000, 4000000),
			}
		}})
}
