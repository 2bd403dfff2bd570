package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	tt "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/edlisp/writer"
)

// ---- C22: isolation and repeatability

// Job is one use of texted: a program, a text and a way to run them.
type Job struct {
	Kind string `json:"kind"`
	Prog int    `json:"program"`
	Text int    `json:"text"`
	Arg  string `json:"arg,omitempty"`
}
type ConcCase struct {
	Progs   [][]Val `json:"programs"`
	Texts   []B     `json:"texts"`
	Threads [][]Job `json:"threads"`
	First   bool    `json:"concurrent_first"`
	Order   []int   `json:"order,omitempty"`
	Rounds  int     `json:"rounds"`
}

var jobKinds = []string{"eval", "eval", "eval", "trace", "format", "format", "script", "file", "files", "tool value", "tool text", "tool file", "doc", "doc list", "test", "convert"}

// variant changes a string such that it is easily confused with the original.
func variant(t *T, s string) string {
	switch t.N(7) {
	case 0:
		return swapCase(s)
	case 1:
		return s + pick(t, []string{" ", "x", "\n", "a", ".", "*", "?"})
	case 2:
		if len(s) > 0 {
			return s[:len(s)-1] + pick(t, []string{"x", "o", "a"})
		}
	case 3:
		if len(s) > 1 {
			return s[1:] + s[:1]
		}
	case 4:
		return "(" + s + ")"
	case 5:
		return strings.Repeat(s, 2)
	}
	return nearMiss(t, s)
}
func variantVal(t *T, v Val) Val {
	v = deepCopy(v)
	if len(v.L) > 1 {
		i := 1 + t.N(len(v.L)-1)
		switch v.L[i].K {
		case "s":
			v.L[i].S = B(strings.ToValidUTF8(variant(t, string(v.L[i].S)), "?"))
		case "n":
			v.L[i].N += F(t.N(3) - 1)
		case "l":
			v.L[i] = variantVal(t, v.L[i])
		}
	}
	return v
}

// genFamily makes programs and texts that resemble each other.
func genFamily(t *T) (ps [][]Val, ts []B) {
	st := genState(t, textOpt{max: 400, big: 150})
	ts = append(ts, B(st.Text))
	for k := t.N(4); k > 0; k-- {
		base := string(ts[t.N(len(ts))])
		switch t.N(4) {
		case 0:
			ts = append(ts, B(genText(t, textOpt{max: 400})))
		case 1:
			ts = append(ts, B(strings.ToValidUTF8(variant(t, base), "?")))
		case 2:
			ts = append(ts, B(base+base))
		case 3:
			ts = append(ts, B(swapCase(base)))
		}
	}
	st.P, st.M = 1, 1
	ps = append(ps, genScript(t, st, 1+t.N(8), true))
	for k := t.N(6); k > 0; k-- {
		base := ps[t.N(len(ps))]
		if t.P(1, 3) {
			st := State{Text: string(pick(t, ts)), P: 1, M: 1}
			ps = append(ps, genScript(t, st, 1+t.N(8), true))
			continue
		}
		var p []Val
		for _, v := range base {
			switch t.W(4, 3, 1) {
			case 0:
				p = append(p, v)
			case 1:
				p = append(p, variantVal(t, v))
			}
		}
		if t.P(1, 4) {
			p = append(p, pick(t, []Val{Call("replace-match", VS("R")), Call("search-forward", VS("o")), Call("re-search-forward", VS("[a-z]+")), Call("looking-at", VS("[a-z]")), Call("nofunction"), Call("delete-region"), Call("search-backward", VS("nowhere"))}))
		}
		if allParse(p) && validStrings(VL(p...)) && growth(shellScript(p)) <= 6 {
			ps = append(ps, p)
		}
	}
	return
}

func genJob(t *T, ps, ts int) Job {
	j := Job{Kind: pick(t, jobKinds), Prog: t.N(ps), Text: t.N(ts)}
	switch j.Kind {
	case "format", "convert":
		j.Arg = pick(t, formats)
	case "doc":
		j.Arg = pick(t, allFns)
	}
	return j
}

func genConc(t *T) *ConcCase {
	c := &ConcCase{First: t.Bool(), Rounds: 1 + t.N(2)}
	c.Progs, c.Texts = genFamily(t)
	n := t.R(2, 6)
	same := t.P(1, 4)
	for i := 0; i < n; i++ {
		var js []Job
		if same && i > 0 {
			js = c.Threads[0]
		} else {
			for k := t.R(1, 6); k > 0; k-- {
				js = append(js, genJob(t, len(c.Progs), len(c.Texts)))
			}
		}
		c.Threads = append(c.Threads, js)
	}
	return c
}

// enumConc gives each worker a first case that uses everything at once before
// anything has been initialised.
func enumConc(tier string, yield func(*ConcCase) bool) {
	for i := 0; i < 16; i++ {
		c := &ConcCase{First: true, Rounds: 1, Texts: []B{"a foo bar\nfoo a bar\n12 x\n", "", "Foo é\n\nfoo(bar)"}}
		for _, f := range allFns {
			sig := sigs[f]
			v := Call(f)
			for j := 0; j < len(sig.kinds) && (j < sig.min || i%2 == 0); j++ {
				v.L = append(v.L, plainArg(f, j, sig.kinds[j:j+1]))
			}
			c.Progs = append(c.Progs, []Val{Call("search-forward", VS("foo")), v, v})
		}
		var js []Job
		for k, f := range allFns {
			js = append(js, Job{Kind: []string{"eval", "trace", "format"}[(i+k)%3], Prog: k, Text: (k + i) % 3, Arg: formats[k%3]}, Job{Kind: "doc", Arg: f})
		}
		for k, kind := range jobKinds {
			js = append(js, Job{Kind: kind, Prog: k, Text: k % 3, Arg: "shell"})
			if kind == "doc" {
				js[len(js)-1].Arg = "insert"
			}
		}
		// the other workers start elsewhere
		at := (i * 17) % len(js)
		js = append(append([]Job{}, js[at:]...), js[:at]...)
		for k := 0; k < 4; k++ {
			c.Threads = append(c.Threads, js)
		}
		if !yield(c) {
			return
		}
	}
}

// shared is what all threads use together.
type shared struct {
	c     *ConcCase
	env   *edlisp.Environment
	progs [][]edlisp.Value
	tests [][]*tt.TestCase
	dir   string
}

func newShared(c *ConcCase, dir string) *shared {
	s := &shared{c: c, env: edlisp.NewDefaultEnvironment(), dir: dir}
	for _, p := range c.Progs {
		s.progs = append(s.progs, prog(p))
	}
	for _, p := range c.Progs {
		var l []*tt.TestCase
		for _, x := range c.Texts {
			l = append(l, &tt.TestCase{Buffer: string(x), Input: tt.Input{Lang: "shell", Text: shellScript(p)}, Output: "some text"})
		}
		s.tests = append(s.tests, l)
	}
	return s
}

// run does one job; id names the files that belong to it.
func (s *shared) run(r *Rec, j Job, id string) (out string) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(Failure); ok {
				out = "failure " + f.Msg
				return
			}
			if f, ok := x.(infraErr); ok {
				panic(f)
			}
			out = fmt.Sprintf("panic %v", x)
		}
	}()
	text := string(s.c.Texts[j.Text%len(s.c.Texts)])
	pi := j.Prog % len(s.c.Progs)
	is := s.c.Progs[pi]
	file := func(k string) string {
		p := filepath.Join(s.dir, id+k)
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			panic(infraErr{err.Error()})
		}
		return p
	}
	back := func(p string) string {
		b, err := os.ReadFile(p)
		os.Remove(p)
		return fmt.Sprintf("%q %v", b, err)
	}
	clean := func(e any) string { return strings.ReplaceAll(fmt.Sprint(e), filepath.Join(s.dir, id), "FILE") }
	switch j.Kind {
	case "eval":
		b := edlisp.NewBuffer(text)
		v, err := edlisp.Eval(s.progs[pi], s.env, b)
		return end(b, v, err, 0).String()
	case "trace":
		b := edlisp.NewBuffer(text)
		var l []string
		v, err := edlisp.EvalWithTrace(s.progs[pi], s.env, b, func(ctx *edlisp.TraceContext) {
			l = append(l, fmt.Sprintf("%d %d %v", ctx.Buffer.Point(), ctx.Buffer.Mark(), ctx.Instruction))
		})
		return end(b, v, err, 0).String() + strings.Join(l, "\n")
	case "format":
		o, err := texted.ExecuteScriptWithFormat(text, scriptOf(is, j.Arg), j.Arg)
		return fmt.Sprintf("%q %v", o, err)
	case "script":
		o, err := texted.ExecuteScript(text, shellScript(is))
		return fmt.Sprintf("%q %v", o, err)
	case "file":
		p := file("")
		err := texted.EditFile(p, shellScript(is))
		return back(p) + clean(err)
	case "files":
		p, q := file("a"), file("b")
		res, err := texted.EditFilesWithFormat([]string{p, q}, scriptOf(is, "json"), "json")
		o := clean(err)
		for _, x := range res {
			o += clean(x.Filename) + fmt.Sprint(x.Success) + clean(x.Error)
		}
		return back(p) + back(q) + o
	case "tool value", "tool text":
		o := "buffer"
		if j.Kind == "tool value" {
			o = "expression"
		}
		return handler(r, toolCall{"texted_eval", map[string]any{"input": text, "script": scriptOf(is, "sexp"), "output": o}}).String()
	case "tool file":
		p := file("t")
		return clean(handler(r, toolCall{"edit_file", map[string]any{"files": []any{p}, "script": shellScript(is)}}).text) + back(p)
	case "doc":
		return handler(r, toolCall{"texted_doc", map[string]any{"function_name": j.Arg}}).String()
	case "doc list":
		return handler(r, toolCall{"texted_doc", map[string]any{"verbose": true}}).text + fmt.Sprint(edlisp.GetCategories(), edlisp.GetRegisteredFunctionCount(), len(edlisp.GetDocumentationByCategory("search")))
	case "test":
		tr := tt.RunTest(s.tests[pi][j.Text%len(s.c.Texts)], s.env)
		return fmt.Sprintf("%v %v %q %q", tr.Passed, tr.Error, tr.Expected, tr.Actual)
	case "convert":
		p, err := parser.ParseFormat(j.Arg, scriptOf(is, j.Arg))
		if j.Arg == "json" {
			p, err = parser.ParseJSONScript(strings.NewReader(scriptOf(is, j.Arg)))
		}
		o := fmt.Sprint(p, err)
		for _, f := range formats {
			w, err := writer.NewWriter(writer.Format(f))
			if err != nil {
				return err.Error()
			}
			var sb strings.Builder
			err = w.Write(&sb, s.progs[pi])
			o += fmt.Sprint(sb.String(), err)
		}
		return o
	}
	panic(infraErr{"job kind " + j.Kind})
}

func (s *shared) unaltered(r *Rec, when string, fns []string) {
	for i, p := range s.progs {
		if got := fromProg(p); !eqs(got, s.c.Progs[i]) {
			r.Fail("%s altered the program %s to %s", when, clip(VL(s.c.Progs[i]...).String()), clip(VL(got...).String()))
		}
	}
	if got := sortedKeys(s.env.Functions); !sameList(got, fns) {
		r.Fail("%s altered the environment: %q instead of %q", when, got, fns)
	}
}

func runConc(c *ConcCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	s := newShared(c, dir)
	fns := sortedKeys(s.env.Functions)
	type res struct{ out []string }
	concurrent := func(round int) []res {
		all := make([]res, len(c.Threads))
		var wg sync.WaitGroup
		start := make(chan struct{})
		var infra any
		var mu sync.Mutex
		for i := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						mu.Lock()
						infra = x
						mu.Unlock()
					}
				}()
				<-start
				for k, j := range c.Threads[i] {
					all[i].out = append(all[i].out, s.run(r, j, fmt.Sprintf("c%d-%d-%d", round, i, k)))
					runtime.Gosched()
				}
			}()
		}
		close(start)
		wg.Wait()
		if infra != nil {
			panic(infra)
		}
		return all
	}
	sequential := func(what string) []res {
		all := make([]res, len(c.Threads))
		for i := range c.Threads {
			for k, j := range c.Threads[i] {
				all[i].out = append(all[i].out, s.run(r, j, fmt.Sprintf("s%s-%d-%d", what, i, k)))
			}
		}
		return all
	}
	compare := func(how string, a, b []res) {
		for i := range a {
			for k := range a[i].out {
				if a[i].out[k] != b[i].out[k] {
					j := c.Threads[i][k]
					r.Fail("%s: job %d of thread %d, %s %s of %s on %s, gives %s and %s", how, k, i, j.Kind, j.Arg, clip(VL(c.Progs[j.Prog%len(c.Progs)]...).String()), clip(string(c.Texts[j.Text%len(c.Texts)])), clip(a[i].out[k]), clip(b[i].out[k]))
				}
			}
		}
	}
	var base []res
	if !c.First {
		base = sequential("a")
		s.unaltered(r, "running them one after the other", fns)
	}
	for k := 0; k < c.Rounds; k++ {
		x := concurrent(k)
		s.unaltered(r, "running them at the same time", fns)
		if base == nil {
			base = sequential("b")
		}
		compare("alone and at the same time as others", base, x)
	}
	compare("running the jobs twice", base, sequential("c"))
	s.unaltered(r, "running them again", fns)
	jobs := 0
	for _, th := range c.Threads {
		jobs += len(th)
		for _, j := range th {
			r.Label(j.Kind)
		}
	}
	if len(c.Threads) > 1 && jobs > 2 {
		r.NonTrivial()
	}
}

// ---- two buffers, instruction by instruction

func genInter(t *T) *ConcCase {
	c := &ConcCase{First: t.Bool()}
	c.Progs, c.Texts = genFamily(t)
	n := 0
	for _, p := range c.Progs {
		n += len(p)
	}
	for i := 0; i < n; i++ {
		c.Order = append(c.Order, t.N(len(c.Progs)))
	}
	return c
}

func runInter(c *ConcCase, r *Rec) {
	type st struct {
		buf  *edlisp.Buffer
		env  *edlisp.Environment
		next int
		err  string
		val  []Val
		mid  []string
	}
	fresh := func() []*st {
		var l []*st
		for i := range c.Progs {
			l = append(l, &st{buf: edlisp.NewBuffer(string(c.Texts[i%len(c.Texts)])), env: edlisp.NewDefaultEnvironment()})
			if c.First {
				l[i].env = l[0].env
			}
		}
		return l
	}
	step := func(s *st, i int) {
		if s.err != "" || s.next >= len(c.Progs[i]) {
			return
		}
		v, err := edlisp.Eval([]edlisp.Value{c.Progs[i][s.next].E()}, s.env, s.buf)
		s.next++
		if err != nil {
			s.err = cause(err)
		} else {
			s.val = append(s.val, fromE(v))
		}
		s.mid = append(s.mid, showState(s.buf.String(), s.buf.Point(), s.buf.Mark()))
	}
	mixed := fresh()
	for _, i := range c.Order {
		step(mixed[i], i)
	}
	for i := range mixed {
		for range c.Progs[i] {
			step(mixed[i], i)
		}
	}
	alone := fresh()
	for i := range alone {
		for range c.Progs[i] {
			step(alone[i], i)
		}
	}
	for i := range mixed {
		a, b := alone[i], mixed[i]
		if a.err != b.err || !eqs(a.val, b.val) || !sameList(a.mid, b.mid) {
			r.Fail("program %d, %s, alone gives error %q, values %s, states %s\nwith others in between error %q, values %s, states %s", i, clip(VL(c.Progs[i]...).String()),
				a.err, clip(VL(a.val...).String()), strings.Join(a.mid, "; "), b.err, clip(VL(b.val...).String()), strings.Join(b.mid, "; "))
		}
	}
	if len(c.Progs) > 1 {
		r.NonTrivial()
	}
}

// ---- one process, two orders

func genOrders(t *T) *ConcCase {
	c := &ConcCase{}
	c.Progs, c.Texts = genFamily(t)
	var js []Job
	for k := t.R(2, 14); k > 0; k-- {
		j := genJob(t, len(c.Progs), len(c.Texts))
		j.Kind = pick(t, []string{"tool value", "tool text", "tool text"})
		j.Arg = pick(t, []string{"shell", "sexp", "jsonarray"})
		js = append(js, j)
	}
	c.Threads = [][]Job{js}
	for i := range js {
		c.Order = append(c.Order, i)
	}
	for i := len(js) - 1; i > 0; i-- {
		k := t.N(i + 1)
		c.Order[i], c.Order[k] = c.Order[k], c.Order[i]
	}
	return c
}

func runOrders(c *ConcCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	js := c.Threads[0]
	call := func(j Job) toolCall {
		a := map[string]any{"input": string(c.Texts[j.Text%len(c.Texts)]), "script": scriptOf(c.Progs[j.Prog%len(c.Progs)], j.Arg)}
		if j.Kind == "tool value" {
			a["output"] = "expression"
		}
		return toolCall{"texted_eval", a}
	}
	var fwd, perm []toolCall
	for _, j := range js {
		fwd = append(fwd, call(j))
	}
	for _, i := range c.Order {
		perm = append(perm, call(js[i]))
	}
	// … and backwards, so that each comes before and after each other
	var rev []toolCall
	for i := len(js) - 1; i >= 0; i-- {
		rev = append(rev, call(js[i]))
	}
	a, b, d := server(r, nil, dir, "", fwd, false, nil), server(r, nil, dir, "", append(perm, perm...), true, nil), server(r, nil, dir, "", rev, false, nil)
	for k, i := range c.Order {
		for _, x := range []toolReply{b[k], b[k+len(js)], d[len(js)-1-i]} {
			if a[i] != x {
				r.Fail("in a different order, texted_eval of %s on %s gives %s instead of %s", clip(fmt.Sprint(fwd[i].args["script"])), clip(fmt.Sprint(fwd[i].args["input"])), x, a[i])
			}
		}
	}
	if len(js) > 2 {
		r.NonTrivial()
	}
}

// ---- environments

type EnvCase struct {
	Name string `json:"name"`
	Drop string `json:"drop"`
	Is   []Val  `json:"instructions"`
	Text B      `json:"text"`
	Tool bool   `json:"tool"`
}

func genEnv(t *T) *EnvCase {
	st := genState(t, textOpt{max: 200})
	st.P, st.M = 1, 1
	c := &EnvCase{Name: pick(t, append([]string{"my-function"}, allFns...)), Drop: pick(t, allFns), Text: B(st.Text), Tool: t.Bool()}
	c.Is = append(genScript(t, st, 1+t.N(5), true), genCall(t, st, c.Drop, false))
	if t.Bool() && c.Name != "my-function" {
		c.Is = append(c.Is, genCall(t, st, c.Name, false))
	}
	return c
}

func runEnv(c *EnvCase, r *Rec) {
	go1 := func() string {
		b := edlisp.NewBuffer(string(c.Text))
		v, err := edlisp.Eval(prog(c.Is), edlisp.NewDefaultEnvironment(), b)
		return end(b, v, err, 0).String()
	}
	before := go1()
	mine := edlisp.NewDefaultEnvironment()
	mine.Functions[c.Name] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
		b.Insert("MINE")
		return edlisp.NewString("mine"), nil
	}
	if c.Drop != c.Name {
		delete(mine.Functions, c.Drop)
	}
	b := edlisp.NewBuffer(string(c.Text))
	v, err := edlisp.Eval([]edlisp.Value{edlisp.NewList(edlisp.NewSymbol(c.Name))}, mine, b)
	if err != nil || !eq(fromE(v), VS("mine")) || b.String() != "MINE"+string(c.Text) {
		r.Fail("a function added to an environment as %q is not used: %v %v %s", c.Name, v, err, clip(b.String()))
	}
	if after := go1(); after != before {
		r.Fail("changing one environment (%q added, %q removed) changes what %s gives in another: %s instead of %s", c.Name, c.Drop, clip(VL(c.Is...).String()), after, before)
	}
	r.NonTrivial()
}

func init() {
	register(&Property{ID: "C22", Race: true, Rule: "several jobs ran on several threads, buffers or servers and every result was compared with another run of the same job",
		Assumptions: []string{"Schedules are those the Go scheduler produces under the race detector, which reports unsynchronised accesses also where they did no harm in this run."},
		Specs: func() []*Spec {
			return []*Spec{
				enum(mkSpec("concurrent", genConc, runConc).n(4000, 200000), enumConc),
				mkSpec("interleaved buffers", genInter, runInter).n(20000, 1500000),
				mkSpec("order of requests", genOrders, runOrders).n(900, 30000),
				mkSpec("environments", genEnv, runEnv).n(15000, 1000000),
				mkSpec("long histories", genLong, runLong).n(250, 20000),
			}
		}})
}
