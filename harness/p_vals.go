package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
)

// ---- C25: values and lists

// genTree makes a value of any kind.
func genTree(t *T, depth int, plain bool) Val {
	switch t.W(4, 4, 3, 4) {
	case 0:
		if t.P(1, 12) {
			return VS(strings.Repeat(genPiece(t, true)+".", genSize(t, 5000)))
		}
		return VS(genStr(t, true))
	case 1:
		if !plain && t.P(1, 6) {
			return VN(pick(t, []float64{inf(1), inf(-1), math.Copysign(0, -1), 0}))
		}
		return VN(genNumber(t))
	case 2:
		if plain {
			return VY(genName(t))
		}
		return VY(pick(t, append([]string{"", "1", "a b", "x", "X", "nil", "t", "é", "\"s\"", "()"}, allFns...)))
	}
	if depth <= 0 {
		return VL()
	}
	var l []Val
	n := t.N(5)
	if t.P(1, 20) {
		n = genSize(t, 300)
		for i := 0; i < n; i++ {
			l = append(l, pick(t, []Val{VI(i), VS("e"), VY("y"), VL()}))
		}
		return VL(l...)
	}
	for i := 0; i < n; i++ {
		l = append(l, genTree(t, depth-1, plain))
	}
	return VL(l...)
}

// deepCopy shares nothing with v.
func deepCopy(v Val) Val {
	c := v
	c.L = make([]Val, len(v.L))
	for i := range v.L {
		c.L[i] = deepCopy(v.L[i])
	}
	if v.L == nil {
		c.L = nil
	}
	return c
}

// alter changes one place of a value slightly (it may end up the same).
func alter(t *T, v Val) Val {
	v = deepCopy(v)
	if v.K == "l" && len(v.L) > 0 && t.P(3, 4) {
		i := t.N(len(v.L))
		if t.P(1, 3) {
			i = len(v.L) - 1
		}
		switch t.W(6, 1, 1, 1, 1) {
		case 0:
			v.L[i] = alter(t, v.L[i])
		case 1:
			v.L = append(v.L[:i], v.L[i+1:]...)
		case 2:
			j := t.N(len(v.L))
			v.L[i], v.L[j] = v.L[j], v.L[i]
		case 3:
			v.L = append(v.L, deepCopy(v.L[i]))
		case 4:
			v.L[i] = VL(v.L[i])
		}
		return v
	}
	text := func() string {
		switch v.K {
		case "s", "y":
			return string(v.S)
		case "n":
			return fnum(float64(v.N))
		}
		return "()"
	}()
	switch t.W(3, 2, 2, 2, 1, 1) {
	case 0: // the same text in another kind
		switch t.N(3) {
		case 0:
			return VS(text)
		case 1:
			return VY(text)
		}
		return VN(float64(len(text)))
	case 1:
		if v.K == "s" || v.K == "y" {
			v.S = B(nearMiss(t, text))
			return v
		}
		if v.K == "n" {
			if t.Bool() {
				return VN(math.Nextafter(float64(v.N), inf(1)))
			}
			return VN(-float64(v.N))
		}
		return VL(v)
	case 2:
		return VL(v)
	case 3:
		return pick(t, []Val{VL(), VS(""), VY(""), VN(0), VY("nil"), VS("nil"), VS("()"), VL(VL())})
	case 4:
		if v.K == "s" {
			return VY(text)
		}
		return VS(text)
	}
	if v.K == "n" {
		return VN(float64(v.N) + 1)
	}
	return genTree(t, 1, false)
}

type EqualCase struct {
	A Val `json:"a"`
	B Val `json:"b"`
	C Val `json:"c"`
}

func genEqual(t *T) *EqualCase {
	c := &EqualCase{A: genTree(t, t.R(0, 4), false)}
	if t.P(1, 25) { // deep
		n := genSize(t, 2000)
		for i := 0; i < n; i++ {
			c.A = VL(c.A)
			if t.P(1, 8) {
				c.A.L = append(c.A.L, VI(i))
			}
		}
	}
	next := func(v Val) Val {
		switch t.W(2, 6, 1) {
		case 0:
			return deepCopy(v)
		case 1:
			return alter(t, v)
		}
		return genTree(t, 2, false)
	}
	c.B = next(c.A)
	c.C = next(c.B)
	if t.P(1, 25) { // the difference is far down
		for n := genSize(t, 2000); n > 0; n-- {
			i, extra := 0, Val{}
			if t.P(1, 8) {
				i, extra = t.R(1, 2), VI(n)
			}
			for _, v := range []*Val{&c.A, &c.B, &c.C} {
				switch *v = VL(*v); i {
				case 1:
					v.L = append(v.L, extra)
				case 2:
					v.L = []Val{extra, v.L[0]}
				}
			}
		}
	}
	return c
}

// smallVals are all values built from a few atoms.
func smallVals(depth int) []Val {
	atoms := []Val{VS(""), VS("a"), VS("A"), VS("1"), VN(0), VN(1), VN(1.5), VY(""), VY("a"), VY("1"), VY("nil")}
	all := append([]Val{}, atoms...)
	for d := 0; d < depth; d++ {
		prev := all
		if len(prev) > 16 {
			prev = append(append([]Val{}, prev[:6]...), prev[len(prev)-8:]...)
		}
		all = append([]Val{}, atoms...)
		all = append(all, VL())
		for _, a := range prev {
			all = append(all, VL(a))
		}
		for _, a := range prev {
			for _, b := range prev {
				all = append(all, VL(a, b))
			}
		}
	}
	return all
}

func enumEqual(tier string, yield func(*EqualCase) bool) {
	vs := smallVals(2)
	if tier != "thorough" && len(vs) > 260 {
		vs = vs[:260]
	}
	for i := range vs {
		for j := range vs {
			if !yield(&EqualCase{vs[i], vs[j], vs[(i+j)%len(vs)]}) {
				return
			}
		}
	}
}

func runEqual(c *EqualCase, r *Rec) {
	v := []Val{c.A, c.B, c.C}
	e := []edlisp.Value{c.A.E(), c.B.E(), c.C.E()}
	again := []edlisp.Value{c.A.E(), c.B.E(), c.C.E()}
	for i := range v {
		if !edlisp.Equal(e[i], e[i]) {
			r.Fail("%s is not equal to itself", clip(v[i].String()))
		}
		if !edlisp.Equal(e[i], again[i]) {
			r.Fail("%s is not equal to a copy of itself", clip(v[i].String()))
		}
		for j := range v {
			want := eq(v[i], v[j])
			if got := edlisp.Equal(e[i], e[j]); got != want {
				r.Fail("Equal(%s, %s) is %v", clip(v[i].String()), clip(v[j].String()), got)
			}
			if i < j {
				if want {
					r.Label("equal pairs")
				} else {
					r.Label("unequal pairs")
				}
			}
		}
		if !eq(fromE(e[i]), v[i]) {
			r.Fail("comparing altered %s to %s", clip(v[i].String()), clip(fromE(e[i]).String()))
		}
	}
	r.NonTrivial()
}

// ---- list histories

type ListOp struct {
	Op  string `json:"op"`
	On  int    `json:"on"`
	Arg Val    `json:"arg"`
	Sub int    `json:"sub"` // a list of the pool as the argument, or -1
	N   int    `json:"n"`
}
type ListCase struct {
	Ops []ListOp `json:"ops"`
}

func genLists(t *T) *ListCase {
	c := &ListCase{}
	n := 2 + t.Small(25)
	for i := 0; i < n; i++ {
		o := ListOp{Op: pick(t, []string{"new", "append", "rest", "append", "rest", "append", "first", "get", "get", "empty", "read", "spare", "equal", "print"}), On: t.N(64), Sub: -1, N: t.R(-2, 8)}
		if i == 0 {
			o.Op = pick(t, []string{"new", "read", "empty", "spare"})
		}
		switch o.Op {
		case "new", "read", "spare":
			k := t.N(5)
			if t.P(1, 20) {
				k = genSize(t, 300)
			}
			for j := 0; j < k; j++ {
				if t.P(1, 6) {
					o.Arg.L = append(o.Arg.L, genTree(t, 1, true))
				} else {
					o.Arg.L = append(o.Arg.L, pick(t, []Val{VI(j), VS("s"), VY("y")}))
				}
			}
			o.Arg.K = "l"
		case "append":
			if t.P(1, 4) {
				o.Sub = t.N(64)
			}
			o.Arg = genTree(t, 1, true)
		case "get":
			o.N = t.R(-3, 10)
			if t.P(1, 5) {
				o.N = genSize(t, 400)
			}
			if t.P(1, 30) {
				o.N = pick(t, []int{math.MaxInt, math.MinInt})
			}
			o.Arg = VI(0)
		default:
			o.Arg = VI(0)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func size(v Val) int {
	n := 1
	for _, x := range v.L {
		n += size(x)
	}
	return n
}

func runLists(c *ListCase, r *Rec) {
	var pool []*edlisp.List
	var model []Val
	for step, o := range c.Ops {
		if len(pool) == 0 && o.Op != "new" && o.Op != "read" && o.Op != "spare" && o.Op != "empty" {
			continue
		}
		on := 0
		if len(pool) > 0 {
			on = o.On % len(pool)
		}
		where := func() string { return fmt.Sprintf("step %d, %s of list %d", step, o.Op, on) }
		switch o.Op {
		case "new":
			var es []edlisp.Value
			for _, x := range o.Arg.L {
				es = append(es, x.E())
			}
			pool = append(pool, edlisp.NewList(es...))
			model = append(model, deepCopy(o.Arg))
		case "spare":
			es := make([]edlisp.Value, 0, len(o.Arg.L)+3)
			for _, x := range o.Arg.L {
				es = append(es, x.E())
			}
			pool = append(pool, &edlisp.List{Elements: es})
			model = append(model, deepCopy(o.Arg))
		case "read":
			p, err := parser.ParseSexp(renderSexp(VL(append([]Val{VY("x")}, o.Arg.L...)...), 0, nil))
			if err != nil || len(p) != 1 {
				r.Fail("%s: cannot read %s: %v", where(), o.Arg, err)
			}
			pool = append(pool, p[0].(*edlisp.List))
			model = append(model, VL(append([]Val{VY("x")}, deepCopy(o.Arg).L...)...))
		case "empty":
			pool = append(pool, edlisp.NewEmptyList())
			model = append(model, VL())
		case "append":
			x, mx := o.Arg.E(), o.Arg
			if o.Sub >= 0 {
				x, mx = pool[o.Sub%len(pool)], model[o.Sub%len(pool)]
			}
			if size(mx)+size(model[on]) > 3000 {
				continue
			}
			pool = append(pool, pool[on].Append(x))
			model = append(model, VL(append(append([]Val{}, model[on].L...), mx)...))
		case "rest":
			pool = append(pool, pool[on].Rest())
			m := VL()
			if len(model[on].L) > 1 {
				m = VL(append([]Val{}, model[on].L[1:]...)...)
			}
			model = append(model, m)
		case "first":
			want := Val{K: "0"}
			if len(model[on].L) > 0 {
				want = model[on].L[0]
			}
			if got := fromE(pool[on].First()); !eq(got, want) {
				r.Fail("%s: %s instead of %s", where(), clip(got.String()), clip(want.String()))
			}
		case "get":
			want := Val{K: "0"}
			if o.N >= 0 && o.N < len(model[on].L) {
				want = model[on].L[o.N]
			}
			if got := fromE(pool[on].Get(o.N)); !eq(got, want) {
				r.Fail("%s, element %d: %s instead of %s", where(), o.N, clip(got.String()), clip(want.String()))
			}
		case "equal":
			j := (o.N + 64) % len(pool)
			if got, want := edlisp.Equal(pool[on], pool[j]), eq(model[on], model[j]); got != want {
				r.Fail("%s to list %d: %v", where(), j, got)
			}
		case "print":
			_ = pool[on].String()
		}
		for i := range pool {
			if pool[i] == nil {
				r.Fail("%s gave no list", where())
			}
			if got := fromE(pool[i]); !eq(got, model[i]) {
				r.Fail("after %s, list %d is %s instead of %s", where(), i, clip(got.String()), clip(model[i].String()))
			}
			if n := len(model[i].L); pool[i].Len() != n || pool[i].IsEmpty() != (n == 0) {
				r.Fail("after %s, list %d of %d elements has length %d, empty %v", where(), i, n, pool[i].Len(), pool[i].IsEmpty())
			}
		}
	}
	if len(pool) > 2 {
		r.NonTrivial()
	}
}

// ---- long lists

type LongListCase struct {
	N    int    `json:"elements"`
	Mod  int    `json:"modulus"` // element i is i modulo this
	Kind string `json:"kind"`
	At   int    `json:"at"`
	Make string `json:"made"`
}

func genLongList(t *T) *LongListCase {
	c := &LongListCase{Mod: pick(t, []int{7, 100, 1 << 30}), Kind: pick(t, []string{"n", "s", "y", "l"}), Make: pick(t, []string{"new", "read", "append", "rest"})}
	c.N = pick(t, []int{255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 65536 + t.N(70000), t.N(70000), pick(t, dict().ints), genSize(t, 140000)}) + t.R(-2, 2)
	c.N = max(0, min(c.N, 140000))
	c.At = t.N(c.N + 1)
	if t.P(1, 3) {
		c.At = max(0, c.N-1-t.N(3))
	}
	return c
}

func runLongList(c *LongListCase, r *Rec) {
	elem := func(i int) edlisp.Value {
		i %= c.Mod
		switch c.Kind {
		case "s":
			return edlisp.NewString(fmt.Sprintf("e%d", i))
		case "y":
			return edlisp.NewSymbol(fmt.Sprintf("y%d", i))
		case "l":
			return edlisp.NewList(edlisp.NewNumber(float64(i)))
		}
		return edlisp.NewNumber(float64(i))
	}
	mk := func() *edlisp.List {
		es := make([]edlisp.Value, c.N)
		for i := range es {
			es[i] = elem(i)
		}
		switch c.Make {
		case "append":
			if c.N > 0 {
				return edlisp.NewList(es[:c.N-1]...).Append(es[c.N-1])
			}
		case "rest":
			return edlisp.NewList(append([]edlisp.Value{edlisp.NewString("first")}, es...)...).Rest()
		case "read":
			var sb strings.Builder
			sb.WriteString("(x (")
			for _, e := range es {
				fmt.Fprintf(&sb, "%v ", e)
			}
			sb.WriteString("))")
			p, err := parser.ParseSexp(sb.String())
			if err != nil || len(p) != 1 {
				r.Fail("a list of %d elements is not read: %v", c.N, err)
			}
			if l, ok := p[0].(*edlisp.List); ok && l.Len() == 2 {
				if l, ok := l.Get(1).(*edlisp.List); ok {
					return l
				}
			}
			r.Fail("a list of %d elements is read as something else", c.N)
		}
		return edlisp.NewList(es...)
	}
	same := func(what string, l *edlisp.List, n, off int) {
		if l.Len() != n || l.IsEmpty() != (n == 0) {
			r.Fail("%s of %d elements has length %d, empty %v", what, n, l.Len(), l.IsEmpty())
		}
		for i := 0; i < n; i++ {
			if want, got := elem(i+off), l.Get(i); !eq(fromE(got), fromE(want)) {
				r.Fail("%s of %d elements: element %d is %v instead of %v", what, n, i, got, want)
			}
		}
		for _, i := range []int{-1, n, n + 1, n + 65536, n + 1<<32} {
			if got := l.Get(i); got != nil {
				r.Fail("%s of %d elements: element %d is %v", what, n, i, got)
			}
		}
	}
	l := mk()
	same("a list", l, c.N, 0)
	longer := l.Append(elem(c.N))
	same("a list with one more", longer, c.N+1, 0)
	same("the rest", longer.Rest(), c.N, 1)
	same("a list after making others from it", l, c.N, 0)
	if c.N > 0 && !eq(fromE(l.First()), fromE(elem(0))) {
		r.Fail("the first of %d elements is %v", c.N, l.First())
	}
	other := mk()
	if !edlisp.Equal(l, other) {
		r.Fail("two lists of the same %d elements are not equal", c.N)
	}
	if edlisp.Equal(l, longer) || edlisp.Equal(longer, l) {
		r.Fail("a list of %d elements is equal to one with one more", c.N)
	}
	if c.At < c.N {
		es := make([]edlisp.Value, c.N)
		for i := range es {
			es[i] = elem(i)
		}
		es[c.At] = edlisp.NewString("another")
		if x := edlisp.NewList(es...); edlisp.Equal(l, x) || edlisp.Equal(x, l) {
			r.Fail("two lists of %d elements that differ in element %d are equal", c.N, c.At)
		}
	}
	if p, err := parser.ParseSexp("(x " + l.String() + ")"); err != nil || len(p) != 1 || !edlisp.Equal(p[0], edlisp.NewList(edlisp.NewSymbol("x"), l)) {
		r.Fail("a list of %d elements is not read back as printed: %v", c.N, err)
	}
	r.NonTrivial()
}

// ---- printing

type PrintCase struct {
	V Val `json:"value"`
}

func genPrint(t *T) *PrintCase { return &PrintCase{genTree(t, t.R(0, 4), true)} }

func enumPrint(tier string, yield func(*PrintCase) bool) {
	n := 4000
	if tier == "thorough" {
		n = 70000
	}
	for i := -n; i <= n; i++ {
		if !yield(&PrintCase{VI(i)}) || !yield(&PrintCase{VN(float64(i) / 8)}) {
			return
		}
	}
	for e := -320; e <= 308; e++ {
		for _, m := range []float64{1, -1, 1.5, 9.999999999999999, 3.0000000000000004} {
			if !yield(&PrintCase{VN(m * math.Pow(10, float64(e)))}) {
				return
			}
		}
	}
	for e := 0; e < 64; e++ {
		for _, d := range []float64{-1, 0, 1} {
			if !yield(&PrintCase{VN(math.Ldexp(1, e) + d)}) || !yield(&PrintCase{VN(-math.Ldexp(1, e) + d)}) {
				return
			}
		}
	}
	for b := 0; b < 256; b++ {
		if !yield(&PrintCase{VS(string([]byte{byte(b)}))}) || !yield(&PrintCase{VS("x" + string([]byte{byte(b)}) + "1")}) {
			return
		}
	}
	top := 0x3000
	if tier == "thorough" {
		top = 0x10ffff
	}
	for c := 0; c <= top; c++ {
		if !yield(&PrintCase{VS(string(rune(c)))}) {
			return
		}
	}
}

func runPrint(c *PrintCase, r *Rec) {
	e := c.V.E()
	s := fmt.Sprintf("%v", e)
	if st, ok := e.(fmt.Stringer); ok && st.String() != s {
		r.Fail("%s prints as %s and as %s", clip(c.V.String()), clip(s), clip(st.String()))
	}
	for i, script := range []string{s, "(x " + s + ")", "(x \"before\" " + s + " 7 " + s + ")"} {
		want := c.V
		switch i {
		case 0:
			if c.V.K != "l" || len(c.V.L) == 0 {
				continue
			}
		case 1:
			want = VL(VY("x"), c.V)
		case 2:
			want = VL(VY("x"), VS("before"), c.V, VI(7), c.V)
		}
		p, err := parser.ParseSexp(script)
		if err != nil {
			r.Fail("%s prints as %s, and %s is not read: %v", clip(c.V.String()), clip(s), clip(script), err)
		}
		if len(p) != 1 || !eq(fromE(p[0]), want) {
			r.Fail("%s prints as %s, but %s is read as %s", clip(c.V.String()), clip(s), clip(script), clip(VL(fromProg(p)...).String()))
		}
		if !edlisp.Equal(p[0], want.E()) {
			r.Fail("%s is printed and read back as a value that is not Equal to it", clip(want.String()))
		}
	}
	if !eq(fromE(e), c.V) || !reflect.DeepEqual(fromE(e), fromE(c.V.E())) {
		r.Fail("printing altered %s", clip(c.V.String()))
	}
	r.NonTrivial()
}

func init() {
	register(&Property{ID: "C25", Rule: "values were compared, printed and read back, or at least three lists were derived from each other",
		Assumptions: []string{"NaN, which no script can denote as a plain value, is left out; symbols that no script can spell are left out of printing."},
		Specs: func() []*Spec {
			return []*Spec{
				enum(mkSpec("equality", genEqual, runEqual).n(1000000, 20000000), enumEqual),
				mkSpec("list histories", genLists, runLists).n(800000, 16000000),
				mkSpec("long lists", genLongList, runLongList).n(300, 20000),
				enum(mkSpec("printing", genPrint, runPrint).n(400000, 8000000), enumPrint),
			}
		}})
}
