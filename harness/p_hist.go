package main

import (
	"fmt"
	"math"
	"runtime/debug"
	"strings"

	"github.com/dhamidi/texted/edlisp"
)

// HistCase is a history of instructions over one buffer.
type HistCase struct {
	Text B     `json:"text"`
	P    int   `json:"point"`
	M    int   `json:"mark"`
	Is   []Val `json:"instructions"`
	// environment variables that are set while the instructions run
	Env []string `json:"env,omitempty"`
}

// Obs is what an instruction left behind.
type Obs struct {
	Text  string
	P, M  int
	Val   Val
	Err   error
	Panic string
}

func run1(buf *edlisp.Buffer, env *edlisp.Environment, vs ...Val) (o Obs) {
	p := prog(vs)
	func() {
		defer func() {
			if x := recover(); x != nil {
				o.Panic = fmt.Sprintf("panic: %v\n%s", x, trimStack(string(debug.Stack())))
			}
		}()
		v, err := edlisp.Eval(p, env, buf)
		o.Err = err
		if err == nil {
			o.Val = fromE(v)
		}
	}()
	if o.Panic == "" {
		o.Text, o.P, o.M = buf.String(), buf.Point(), buf.Mark()
	}
	return o
}

func (o Obs) inBounds() bool {
	n := len(o.Text)
	return o.P >= 1 && o.P <= n+1 && o.M >= 1 && o.M <= n+1
}
func showState(text string, p, m int) string {
	return fmt.Sprintf("text %s, point %d, mark %d", clip(text), p, m)
}

// diff compares what happened with what was predicted; it returns the state to go on
// with, a description of the difference and whether the difference is the alternative value.
func diff(pre State, pred Pred, fn string, o Obs) (State, string, bool) {
	post := State{Text: o.Text, P: o.P, M: o.M, Searched: pre.Searched, Known: pre.Known, Dirty: pre.Dirty, MS: pre.MS, ME: pre.ME}
	if o.Text != pre.Text {
		post.Dirty = true
	}
	lose := func() State {
		if owner[fn] == "C05" || fn == "replace-match" {
			if o.Err == nil {
				post.Searched = true
			}
			post.Known = false
		}
		return post
	}
	same := func(s State) bool { return s.Text == o.Text && s.P == o.P && s.M == o.M }
	if pred.Unspec {
		for _, c := range pred.Cands {
			if o.Err == nil && same(c) {
				return c, "", false
			}
		}
		if len(pred.Cands) > 0 {
			if o.Err != nil && pred.MayErr && same(pre) {
				return pre, "", false
			}
			return lose(), "none of the possible outcomes happened: " + o.show(), false
		}
		return lose(), "", false
	}
	if pred.Err {
		if o.Err == nil {
			return lose(), "succeeded where an error is due: " + o.show(), false
		}
		if !same(pre) {
			return lose(), "failed, but changed the state to " + o.show(), false
		}
		return pre, "", false
	}
	if o.Err != nil {
		return lose(), "failed: " + o.Err.Error() + "; expected " + showState(pred.St.Text, pred.St.P, pred.St.M), false
	}
	if !same(pred.St) {
		return lose(), "expected " + showState(pred.St.Text, pred.St.P, pred.St.M) + ", got " + o.show(), false
	}
	if pred.Val != nil && !eq(o.Val, *pred.Val) {
		return pred.St, fmt.Sprintf("expected value %s, got %s", clip(pred.Val.String()), clip(o.Val.String())), pred.Alt != nil && eq(o.Val, *pred.Alt)
	}
	return pred.St, "", false
}
func (o Obs) show() string {
	if o.Err != nil {
		return fmt.Sprintf("error %q, %s", o.Err, showState(o.Text, o.P, o.M))
	}
	return showState(o.Text, o.P, o.M)
}

func outOfRange(fn string, args []Val, st State) bool {
	if len(args) != 1 || args[0].K != "n" {
		return false
	}
	a, n := float64(args[0].N), float64(len(st.Text))
	switch fn {
	case "goto-char", "set-mark-command":
		return a < 1 || a > n+1
	case "forward-char":
		return float64(st.P)+a < 1 || float64(st.P)+a > n+1
	case "backward-char":
		return float64(st.P)-a < 1 || float64(st.P)-a > n+1
	case "goto-line":
		return a < 1 || a > float64(1+strings.Count(st.Text, "\n"))
	}
	return false
}
func wholeArgs(args []Val) bool {
	for _, a := range args {
		if a.K == "n" && float64(a.N) != math.Trunc(float64(a.N)) {
			return false
		}
	}
	return true
}

// runHist runs a history one instruction at a time against the model and
// reports differences that concern the property.
func runHist(prop string, c *HistCase, r *Rec) {
	buf := edlisp.NewBuffer(string(c.Text))
	buf.SetPoint(c.P)
	buf.SetMark(c.M)
	n := len(c.Text)
	st := State{Text: string(c.Text), P: buf.Point(), M: buf.Mark()}
	if prop == "C01" && (st.P != clamp(c.P, n) || st.M != clamp(c.M, n)) {
		r.Fail("setting point %d and mark %d in a buffer of %d bytes gives point %d and mark %d", c.P, c.M, n, st.P, st.M)
	}
	if st.P < 1 || st.P > n+1 || st.M < 1 || st.M > n+1 {
		return
	}
	env := edlisp.NewDefaultEnvironment()
	// what happened since the last successful search, and where that was
	since := map[string]bool{}
	searchAt := -1
	var searchPre State
	for i, v := range c.Is {
		fn, args := v.Fn(), v.Args()
		if !wholeArgs(args) {
			return
		}
		pre := st
		pred := predict(pre, fn, args)
		o := run1(buf, env, v)
		where := func() string {
			return fmt.Sprintf("instruction %d %s on %s:\n ", i, clip(v.String()), showState(pre.Text, pre.P, pre.M))
		}
		own := owner[fn] == prop
		if o.Panic != "" {
			if own || prop == "C01" {
				r.Fail("%s%s", where(), o.Panic)
			}
			return
		}
		if !o.inBounds() {
			if own || prop == "C01" {
				r.Fail("%sleft the buffer: %s (%d bytes)", where(), o.show(), len(o.Text))
			}
			return
		}
		var msg string
		var alt bool
		st, msg, alt = diff(pre, pred, fn, o)
		if msg != "" && own {
			if alt {
				key := fn
				if knownKeys[prop+"/"+key] {
					r.Known(key, where()+msg)
					msg = ""
				}
			}
			if msg != "" {
				r.Fail("%s%s", where(), msg)
			}
		}
		switch prop {
		case "C01":
			if outOfRange(fn, args, pre) {
				r.NonTrivial()
				if msg != "" {
					r.Fail("%s%s", where(), msg)
				}
			}
			if len(o.Text) < len(pre.Text) && (pre.P > len(o.Text)+1 || pre.M > len(o.Text)+1) {
				r.NonTrivial()
			}
		case "C06":
			if fn == "replace-match" && !pred.Unspec {
				r.NonTrivial()
				if pred.Err {
					r.Label("without match")
				} else {
					r.Label(fmt.Sprintf("after %d kinds of other commands", len(since)))
				}
			}
		default:
			if own && !pred.Unspec {
				if len(pre.Text) > 0 || prop == "C09" {
					r.NonTrivial()
				}
				if pred.Err {
					r.Label("error due")
				} else {
					r.Label(fn)
				}
			}
		}
		// the remembered match
		if fn == "replace-match" {
			if msg != "" && len(since) == 1 && since[prop] && prop != "C06" && searchAt >= 0 {
				// is it the fault of what came between?
				if b2 := upTo(c, searchAt); b2 != nil {
					o2 := run1(b2, env, v)
					if o2.Panic == "" && o2.Err == nil && o2.Text == pred.St.Text {
						r.Fail("%sthe remembered match was lost by an instruction since the search at %d: %s", where(), searchAt, msg)
					}
				}
			} else if len(since) == 1 && since[prop] && !pred.Unspec && !pred.Err && searchAt >= 0 {
				r.NonTrivial()
				r.Label("match kept")
			}
			since = map[string]bool{}
			searchAt = -1
		} else if owner[fn] == "C05" && o.Err == nil {
			since = map[string]bool{}
			searchAt = i
			searchPre = st
		} else {
			since[owner[fn]] = true
		}
		_ = searchPre
		if len(st.Text) > 1<<22 {
			return
		}
	}
}

// upTo runs the first instructions of a history again.
func upTo(c *HistCase, last int) *edlisp.Buffer {
	buf := edlisp.NewBuffer(string(c.Text))
	buf.SetPoint(c.P)
	buf.SetMark(c.M)
	env := edlisp.NewDefaultEnvironment()
	for _, v := range c.Is[:last+1] {
		if run1(buf, env, v).Panic != "" {
			return nil
		}
	}
	return buf
}

// ---- generation

func isEdit(fn string) bool {
	return owner[fn] == "C03" || fn == "replace-match" || fn == "delete-region" || fn == "replace-region"
}

// matchingSearch is a search that succeeds in the state, if there is one.
func matchingSearch(t *T, st State, raw bool) (Val, bool) {
	for k := 0; k < 4; k++ {
		v := genCall(t, st, pick(t, fnGroups["C05"]), raw)
		if p := predict(st, v.Fn(), v.Args()); !p.Err && !p.Unspec && p.St.ME > p.St.MS {
			return v, true
		}
	}
	n := len(st.Text)
	if st.P-1 < n {
		b := min(n, st.P-1+t.R(1, 5))
		if !raw {
			for b < n && st.Text[b]&0xc0 == 0x80 {
				b++
			}
		}
		s := st.Text[st.P-1 : b]
		if raw || isValid(s) {
			return Call("search-forward", VS(s)), true
		}
	}
	return Val{}, false
}

func genHistCase(t *T, prop string) *HistCase {
	raw := t.P(1, 6)
	o := textOpt{raw: raw}
	switch t.W(60, 3, 1) {
	case 1:
		o.max = 20000
	case 2:
		o.max = 150000
	}
	st := genState(t, o)
	if o.max > 3000 && t.Bool() { // a really long text
		n := genSize(t, o.max)
		if t.Bool() {
			n = o.max - t.N(o.max/2)
		}
		u := pick(t, []string{"a", "word ", "line of text\n", "\n", "ab\n"})
		st.Text = st.Text + strings.Repeat(u, n/len(u)) + st.Text
		st.P, st.M = t.R(1, len(st.Text)+1), t.R(1, len(st.Text)+1)
	}
	c := &HistCase{Text: B(st.Text), P: st.P, M: st.M}
	if prop == "C01" && t.P(1, 8) {
		c.P = int(genCount(t, st))
		c.M = int(genCount(t, st))
		st.P, st.M = clamp(c.P, len(st.Text)), clamp(c.M, len(st.Text))
	}
	focus := fnGroups[prop]
	switch prop {
	case "C01":
		focus = []string{"goto-char", "set-mark-command", "forward-char", "backward-char", "goto-line", "delete-region", "delete-line", "kill-line", "kill-word", "backward-kill-word", "delete-char", "delete-backward-char", "exchange-point-and-mark", "mark-line", "mark-word", "replace-match", "replace-region"}
	case "C06":
		focus = []string{"replace-match", "search-forward", "search-backward", "re-search-forward", "re-search-backward"}
	}
	add := func(v Val) {
		c.Is = append(c.Is, v)
		st = step(st, v)
	}
	max := 14
	if t.P(1, 20) {
		max = 60
	}
	if len(st.Text) > 10000 {
		max = 4
	}
	switch t.W(5, 4, 2, 2) {
	case 3: // the same again after edits that leave the size, and maybe point and mark, as they were
		for k := t.N(3); k > 0; k-- {
			add(genCall(t, st, genFn(t, focus), raw))
		}
		again := genCall(t, st, pick(t, focus), raw)
		p, m := st.P, st.M
		add(again)
		if owner[again.Fn()] == "C04" || t.P(1, 4) {
			add(Call("goto-char", VI(p)))
		}
		for k := t.R(1, 3); k > 0; k-- {
			q := st.P
			if t.Bool() {
				q = clamp(t.R(1, len(st.Text)+1), len(st.Text))
				add(Call("goto-char", VI(q)))
			}
			n := min(len(st.Text)+1-q, t.R(1, 3))
			if n <= 0 {
				continue
			}
			add(Call("delete-char", VI(n)))
			add(Call("insert", VS(pick(t, []string{"a", "b", "\n", " ", ".", "1"})+strings.Repeat(pick(t, []string{"a", "\n", " "}), n-1))))
		}
		if t.P(3, 4) {
			add(Call("set-mark-command", VI(m)))
			add(Call("goto-char", VI(p)))
		}
		add(again)
		return c
	case 1: // a search, things that must not matter, replace-match
		for k := t.N(4); k > 0; k-- {
			add(genCall(t, st, genFn(t, focus), raw))
		}
		if v, ok := matchingSearch(t, st, raw); ok {
			add(v)
			for k := t.N(6); k > 0; k-- {
				fn := ""
				if prop == "C01" || prop == "C06" || prop == "C03" {
					fn = pick(t, fnGroups[pick(t, []string{"C04", "C05", "C07", "C08", "C09"})])
				} else {
					fn = pick(t, fnGroups[prop])
				}
				if isEdit(fn) && prop != "C03" {
					continue
				}
				v := genCall(t, st, fn, raw)
				if owner[fn] == "C05" {
					if p := predict(st, fn, v.Args()); !p.Err {
						continue
					}
				}
				add(v)
			}
			add(genCall(t, st, "replace-match", raw))
		}
		if t.Bool() {
			max = 3
			break
		}
		return c
	case 2: // placed by hand before every instruction
		for k := t.R(1, 4); k > 0; k-- {
			add(Call("goto-char", VN(genPos(t, st))))
			if t.Bool() {
				add(Call("set-mark-command", VN(genPos(t, st))))
			}
			add(genCall(t, st, pick(t, focus), raw))
		}
		return c
	}
	n := 1 + t.Small(max)
	c.Is = append(c.Is, genHistory(t, st, focus, n, raw)...)
	return c
}

// ---- small-scope enumeration

func allTexts(alphabet []string, max int, f func(string) bool) bool {
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if !f(s) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, a := range alphabet {
			if !rec(s+a, k-1) {
				return false
			}
		}
		return true
	}
	return rec("", max)
}

func smallCounts(n int) []Val {
	var v []Val
	for i := -2; i <= n+3; i++ {
		v = append(v, VI(i))
	}
	return append(v, VN(1e10), VN(-1e10))
}

// variants of calls worth trying exhaustively
func cannedCalls(fn string, text string) []Val {
	s := sigs[fn]
	var out []Val
	nums := smallCounts(len(text))
	switch {
	case fn == "buffer-substring":
		for _, a := range nums {
			for _, b := range nums {
				out = append(out, Call(fn, a, b))
			}
		}
	case fn == "substring":
		for _, x := range []string{"", "a", "abc", text, "é"} {
			for _, a := range nums {
				out = append(out, Call(fn, VS(x), a))
				for _, b := range nums {
					out = append(out, Call(fn, VS(x), a, b))
				}
			}
		}
	case fn == "search-forward" || fn == "search-backward":
		allTexts([]string{"a", " ", "\n"}, 2, func(p string) bool { out = append(out, Call(fn, VS(p))); return true })
		out = append(out, Call(fn, VS("A")), Call(fn, VS("b")), Call(fn, VS("a a")))
	case fn == "re-search-forward" || fn == "re-search-backward" || fn == "looking-at" || fn == "looking-back":
		for _, p := range []string{"a", "a+", "a*", ".", ".*", "a.", "aa?", " ", "\\n", "[^a]", "a|", "(a)( )", "b", "^a", "a$", "(?m)^a", "(?m)a$", "\\b", "", "(", "[", "a{2}", ".a", "\\s+", "\\w+", "(?s).+", "a+?", "a|aa", "aa|a"} {
			out = append(out, Call(fn, VS(p)))
		}
	case fn == "string-match":
		for _, p := range []string{"a", "a+", "(", ".", "^", "$", "b", ""} {
			for _, x := range []string{"", "a", "ba", "(", text} {
				out = append(out, Call(fn, VS(p), VS(x)))
			}
		}
	case fn == "replace-regexp-in-string":
		for _, p := range []string{"a", "a+", "(", ".", "^", "$", "b*", "(a)(b)?"} {
			for _, rp := range []string{"", "x", "$1y", "$0$0", "\\1"} {
				for _, x := range []string{"", "a", "ba", text} {
					out = append(out, Call(fn, VS(p), VS(rp), VS(x)))
				}
			}
		}
	case s.min == 0 && s.max == 0:
		out = append(out, Call(fn))
	case s.kinds == "n":
		if s.min == 0 {
			out = append(out, Call(fn))
		}
		for _, a := range nums {
			out = append(out, Call(fn, a))
		}
	case fn == "concat":
		out = append(out, Call(fn), Call(fn, VS("")), Call(fn, VS("a")), Call(fn, VS("a"), VS("b")), Call(fn, VS("x"), VS("y"), VS("z")))
	default:
		for _, x := range []string{"", "x", "xy", "\n", "é", "ÀB c", "ǆx"} {
			out = append(out, Call(fn, VS(x)))
		}
	}
	return out
}

func enumHist(prop string) func(tier string, yield func(*HistCase) bool) {
	return func(tier string, yield func(*HistCase) bool) {
		fns := fnGroups[prop]
		max := 4
		alphabet := []string{"a", " ", "\n"}
		if prop == "C05" || prop == "C08" {
			max = 3
		}
		if tier == "thorough" {
			max++
			if prop == "C03" || prop == "C04" || prop == "C07" {
				alphabet = append(alphabet, "é")
			}
		}
		if prop == "C01" {
			fns = allFns
			max--
			if tier != "thorough" {
				max--
			}
		}
		if prop == "C06" {
			fns = []string{"replace-match"}
		}
		ok := allTexts(alphabet, max, func(text string) bool {
			n := len(text)
			for p := 1; p <= n+1; p++ {
				marks := []int{1, n + 1}
				if prop == "C07" || prop == "C01" {
					marks = nil
					for m := 1; m <= n+1; m++ {
						marks = append(marks, m)
					}
				}
				if prop == "C06" || prop == "C09" || prop == "C04" || prop == "C05" || prop == "C08" || n == 0 {
					marks = []int{(p*7+n)%(n+1) + 1}
				}
				if prop == "C09" && p > 1 {
					break
				}
				for _, m := range marks {
					for _, fn := range fns {
						if prop == "C01" && (owner[fn] == "C08" || owner[fn] == "C09") {
							continue
						}
						for _, call := range cannedCalls(fn, text) {
							var is []Val
							if fn == "replace-match" {
								for _, s := range []Val{Call("search-forward", VS("a")), Call("search-backward", VS(" ")), Call("re-search-forward", VS("a+")), Call("re-search-backward", VS("."))} {
									if !yield(&HistCase{Text: B(text), P: p, M: m, Is: []Val{s, call}}) {
										return false
									}
								}
							}
							is = append(is, call)
							if !yield(&HistCase{Text: B(text), P: p, M: m, Is: is}) {
								return false
							}
						}
					}
				}
			}
			return true
		})
		if !ok {
			return
		}
		// pairs: any command followed by one of ours
		if prop == "C01" || prop == "C09" {
			return
		}
		texts := []string{"a b\na\n", "\n\na", "foo, bar\nfoo baz\n", "aéb  c"}
		for _, text := range texts {
			for _, first := range allFns {
				if owner[first] == "C09" {
					continue
				}
				for i, c1 := range cannedCalls(first, "ab") {
					if len(c1.Args()) > 1 || i > 8 {
						continue
					}
					for _, fn := range fns {
						for j, c2 := range cannedCalls(fn, "a") {
							if j > 40 {
								break
							}
							p := 1 + (i*3+j*5)%(len(text)+1)
							is := []Val{c1, c2}
							if fn == "replace-match" {
								is = []Val{Call("search-forward", VS("a")), c1, c2}
							}
							if !yield(&HistCase{Text: B(text), P: p, M: 1 + (i+j*3)%(len(text)+1), Is: is}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func histSpec(prop string, quick, thorough int) *Spec {
	gen := func(t *T) *HistCase {
		c := genHistCase(t, prop)
		for t.P(1, 20) {
			c.Env = append(c.Env, oddVar(t.N))
		}
		if prop == "C09" && c.Env == nil && t.P(1, 8) {
			c.Env = []string{oddVar(t.N)}
		}
		return c
	}
	check := func(c *HistCase, r *Rec) { underEnv(c.Env, func() { runHist(prop, c, r) }) }
	return enum(mkSpec("histories", gen, check), enumHist(prop)).n(quick, thorough)
}

func init() {
	rules := map[string]string{
		"C01": "some instruction names a position or count outside the buffer, or shrinks the text to before point or mark",
		"C03": "an insert, delete or kill command ran on a non-empty text and its documented effect was compared",
		"C04": "a motion ran on a non-empty text and its documented target was compared, or a remembered match was checked after motions",
		"C05": "a search ran on a non-empty text and was compared with the model (match or failure)",
		"C06": "replace-match ran where its outcome is specified (after an unedited non-empty match, or without any search)",
		"C07": "a mark or region command ran on a non-empty text and its documented effect was compared",
		"C08": "a query ran on a non-empty text and its documented value was compared",
		"C09": "a string function was called with arguments whose value is documented",
	}
	for _, p := range []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09"} {
		register(&Property{ID: p, Rule: rules[p], Specs: func() []*Spec { return histSpecs(p) },
			Assumptions: []string{"Positions, lengths and word characters are counted in bytes (ASCII letters and digits form words), as the code and its tests have it.",
				"Outcomes the documentation leaves open (anchors and word boundaries at the cut between searched and unsearched text, empty matches at the very ends, stale matches after edits, fractional counts) are only checked for staying inside the buffer."}})
	}
}

func histSpecs(p string) []*Spec {
	q := 700000
	specs := []*Spec{histSpec(p, q, q*30)}
	if p != "C01" {
		specs = append(specs, farSpec(p, 40000, 1500000), hugeSpec(p))
	}
	return specs
}
