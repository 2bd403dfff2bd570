package main

import (
	"regexp"
	"strings"
)

// Long texts that are all filler except for one place of interest, which is at a
// chosen distance: code that looks at a text in pieces, or only so far, differs
// from code that does not only when something lies across the end of a piece.

type far struct {
	pre, fill, needle, post string
	st                      State
}

func genFarDist(t *T, max int) int {
	c := pick(t, []int{64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536})
	if t.Bool() {
		c = pick(t, dict().ints)
		for try := 0; try < 20 && (c < 32 || c > max); try++ {
			c = pick(t, dict().ints)
		}
		if c < 32 || c > max {
			c = 4096
		}
	}
	d := c * pick(t, []int{1, 1, 1, 2, 3})
	for d > max {
		d -= c
	}
	return max2(d, 0)
}
func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func genFarText(t *T) far {
	unit := pick(t, []string{"-", "-", ". ", "-\n", "- -\n", "=====\n", "\n", "word ", "w", "é ", "the quick\n", " "})
	needle := pick(t, []string{"X", "XY", "XYZZY", "X Y", "X\nY", "X12345678", "one", "é中", "XX"})
	if t.P(1, 3) { // a long one
		needle = "X" + strings.Repeat(pick(t, []string{"y", "yz", "1", "\n", "X"}), genFarDist(t, 9000)/pick(t, []int{1, 1, 2, 16})) + "Z"
	}
	filler := func(n int) string {
		n = max2(n, 0)
		return strings.Repeat(unit, n/len(unit)+1)[:n/len(unit)*len(unit)] + strings.Repeat("-", n%len(unit))
	}
	var f far
	f.needle = needle
	d := genFarDist(t, 70000)
	if t.P(3, 4) {
		d -= pick(t, []int{0, 1, len(needle) / 2, len(needle) - 1, len(needle), t.N(len(needle) + 1)})
	}
	d += pick(t, []int{0, 0, 0, 1, -1, 2, -2})
	f.fill = filler(d)
	d = len(f.fill)
	switch t.N(4) {
	case 0: // a decoy that is cut off
		if p := needle[:len(needle)-1]; len(p) > 0 && isValid(p) && len(p) < d {
			k := d - len(p)
			if t.Bool() {
				k = t.N(k + 1)
			}
			if isValid(f.fill[:k]) && isValid(f.fill[k+len(p):]) {
				f.fill = f.fill[:k] + p + f.fill[k+len(p):]
			}
		}
	}
	if t.Bool() {
		f.pre = filler(pick(t, []int{1, 3, 10, 100, genFarDist(t, 20000)}))
	}
	if t.Bool() {
		f.pre += pick(t, []string{"\n", "first line\n", "a", needle, needle + "\n"})
	}
	if t.Bool() {
		f.post = pick(t, []string{"\n", " ", "last\n", "\n\nend"}) + filler(pick(t, []int{0, 1, 10, 5000}))
	}
	backward := t.P(2, 5)
	text := f.pre + f.fill + f.needle + f.post
	at := len(f.pre)
	if backward { // the needle first, the filler behind it
		text = f.pre + f.needle + f.fill + f.post
		at = len(f.pre) + len(f.needle) + len(f.fill)
	}
	f.st = State{Text: text, P: at + 1, M: 1 + pick(t, []int{0, len(text), len(f.pre), at})}
	return f
}

// spots are the positions of interest.
func (f *far) spots(t *T, st State) int {
	n := len(st.Text)
	i := strings.LastIndex(st.Text, f.needle)
	if i < 0 {
		i = n
	}
	p := pick(t, []int{0, len(f.pre), len(f.pre) + len(f.fill), len(f.pre) + len(f.needle), i, i + len(f.needle), n, st.P - 1}) + pick(t, []int{0, 0, 0, 0, 1, -1})
	return clamp(p+1, n)
}

func (f *far) pattern(t *T) string {
	q := regexp.QuoteMeta(f.needle)
	if len(q) > 900 {
		q = "X" + pick(t, []string{"[^ ]*", "(?s).*", "(?s).+?"}) + "Z"
	}
	switch t.N(9) {
	case 0:
		return "(" + q + ")"
	case 1:
		return pick(t, []string{"X.*", "X\\w*", "[^-=]+", "[A-Z]+", "X|o", "(?s)X.*", "(?i)x", "[0-9]+", "\\n", "\\s+", "-+", "(?s).*", ".+", "\\w+"})
	case 2:
		return q + "|nosuch"
	case 3:
		return "nosuch"
	case 4:
		return q + "?"
	}
	return q
}

func (f *far) call(t *T, st State, fn string) Val {
	kinds := sigs[fn].kinds
	var args []Val
	count := func() Val {
		switch t.N(5) {
		case 0:
			return VI(pick(t, []int{1, 2, 3, -1, 0}))
		case 1:
			return VI(genFarDist(t, 70000) + t.N(3) - 1)
		case 2:
			return VI(strings.Count(st.Text, "\n") + t.N(4) - 1)
		case 3:
			return VI(len(f.fill) + t.N(3) - 1)
		}
		return VI(f.spots(t, st) - st.P)
	}
	str := func() string {
		switch t.N(6) {
		case 0:
			return st.Text
		case 1:
			return f.fill
		case 2:
			return f.fill + f.needle
		case 3:
			return f.needle + f.fill
		case 4:
			return f.needle
		}
		return f.pre + f.fill + f.needle + f.post
	}
	switch fn {
	case "search-forward", "search-backward":
		return Call(fn, VS(pick(t, []string{f.needle, f.needle, f.needle, "nosuch", f.needle + "q", f.needle + f.post})))
	case "re-search-forward", "re-search-backward", "looking-at", "looking-back":
		return Call(fn, VS(f.pattern(t)))
	case "replace-match", "insert", "replace-region":
		return Call(fn, VS(pick(t, []string{"", "r", "\\1", "$0", f.needle, "-\n-", strings.Repeat("ins", genFarDist(t, 9000)/3)})))
	case "string-match":
		return Call(fn, VS(f.pattern(t)), VS(str()))
	case "replace-regexp-in-string":
		return Call(fn, VS(f.pattern(t)), VS(pick(t, []string{"", "r", "$0", "$1", "<$0>"})), VS(str()))
	case "substring":
		s := str()
		a := pick(t, []int{1, len(s) / 2, len(s) - 1, genFarDist(t, 70000)})
		return Call(fn, VS(s), VI(a), VI(a+pick(t, []int{0, 1, len(s), genFarDist(t, 70000)})))
	case "concat":
		for k := t.R(1, 4); k > 0; k-- {
			args = append(args, VS(str()))
		}
		return Call(fn, args...)
	case "goto-char", "buffer-substring":
		for range kinds {
			args = append(args, VI(f.spots(t, st)))
		}
		return Call(fn, args...)
	case "goto-line":
		return Call(fn, VI(pick(t, []int{1, 2, strings.Count(st.Text, "\n") + t.N(4) - 1, 1 + strings.Count(st.Text[:f.spots(t, st)-1], "\n")})))
	case "set-mark-command":
		if t.Bool() {
			return Call(fn, VI(f.spots(t, st)))
		}
	}
	switch kinds {
	case "n":
		if sigs[fn].min > 0 || t.P(2, 3) {
			args = append(args, count())
		}
	case "s":
		args = append(args, VS(str()))
	}
	return Call(fn, args...)
}

func genFarCase(t *T, prop string) *HistCase {
	f := genFarText(t)
	st := f.st
	c := &HistCase{Text: B(st.Text), P: st.P, M: st.M}
	add := func(v Val) {
		c.Is = append(c.Is, v)
		st = step(st, v)
	}
	for k := t.R(1, 3); k > 0; k-- {
		if t.P(1, 3) {
			add(Call("goto-char", VI(f.spots(t, st))))
		}
		if (prop == "C07" || prop == "C03") && t.P(1, 3) {
			add(Call("set-mark-command", VI(f.spots(t, st))))
		}
		if prop == "C06" {
			add(f.call(t, st, pick(t, fnGroups["C05"])))
			if t.P(1, 4) {
				add(f.call(t, st, pick(t, fnGroups[pick(t, []string{"C04", "C07", "C08"})])))
			}
			add(f.call(t, st, "replace-match"))
			continue
		}
		add(f.call(t, st, pick(t, fnGroups[prop])))
		if len(st.Text) > 300000 {
			break
		}
	}
	return c
}

func farSpec(prop string, quick, thorough int) *Spec {
	return mkSpec("far apart", func(t *T) *HistCase { return genFarCase(t, prop) }, func(c *HistCase, r *Rec) { runHist(prop, c, r) }).n(quick, thorough)
}
