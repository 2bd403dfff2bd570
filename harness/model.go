package main

import (
	"math"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"
)

// State is the state of a buffer as the documentation describes it.
type State struct {
	Text string
	P, M int // 1-based
	// the remembered match
	Searched bool // some search has succeeded
	Known    bool // we know which text it matched
	Dirty    bool // the text has been edited since
	MS, ME   int  // 0-based bounds
}

// Pred is what the documentation says about one call.
type Pred struct {
	Unspec bool // nothing is said
	Err    bool // an error, nothing changes
	St     State
	Cands  []State // if nothing definite is said: what may come out, when not empty
	MayErr bool    // … or an error
	Val    *Val    // value, if documented
	Alt    *Val    // another value that would do
}

const hugeInt = math.MaxInt32

func toInt(n float64) int {
	switch {
	case n != n:
		return 0
	case n >= hugeInt:
		return hugeInt
	case n <= -hugeInt:
		return -hugeInt
	}
	return int(n)
}

func wordByte(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}
func clamp(p, n int) int { return max(1, min(p, n+1)) }

func (s State) clampAll() State {
	s.P = clamp(s.P, len(s.Text))
	s.M = clamp(s.M, len(s.Text))
	return s
}

// cut removes [a,b) (0-based) and inserts ins.
func (s State) cut(a, b int, ins string) State {
	s.Text = s.Text[:a] + ins + s.Text[b:]
	if a != b || ins != "" {
		s.Dirty = true
	}
	return s.clampAll()
}

func fwdWord(t string, pos, count int) int {
	for i := 0; i < count && pos < len(t); i++ {
		for pos < len(t) && !wordByte(t[pos]) {
			pos++
		}
		for pos < len(t) && wordByte(t[pos]) {
			pos++
		}
	}
	return pos
}
func bwdWord(t string, pos, count int) int {
	for i := 0; i < count && pos > 0; i++ {
		for pos > 0 && !wordByte(t[pos-1]) {
			pos--
		}
		for pos > 0 && wordByte(t[pos-1]) {
			pos--
		}
	}
	return pos
}
func lineStart(t string, pos int) int { return strings.LastIndexByte(t[:pos], '\n') + 1 }
func afterLines(t string, pos, count int) int {
	for i := 0; i < count && pos < len(t); i++ {
		k := strings.IndexByte(t[pos:], '\n')
		if k < 0 {
			return len(t)
		}
		pos += k + 1
	}
	return pos
}

var reCache = map[string]*regexp.Regexp{}

func compileRe(p string) *regexp.Regexp {
	if r, ok := reCache[p]; ok {
		return r
	}
	r, err := regexp.Compile(p)
	if err != nil {
		r = nil
	}
	if len(reCache) > 5000 {
		reCache = map[string]*regexp.Regexp{}
	}
	reCache[p] = r
	return r
}

// looksAround tells whether the result of a regular expression may depend on
// the text outside of the part that is searched.
func looksAround(p string) bool {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return false
	}
	var walk func(r *syntax.Regexp) bool
	walk = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
			return true
		}
		for _, s := range r.Sub {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(re)
}

// splitsRune: searching from the middle of a multi-byte character.
func splitsRune(t string, pos int) bool {
	return pos > 0 && pos < len(t) && !utf8.RuneStart(t[pos])
}

var sigs = map[string]struct {
	min, max int
	kinds    string // kind per argument, the last one repeats when max is -1
}{
	"point": {0, 0, ""}, "mark": {0, 0, ""}, "point-min": {0, 0, ""}, "point-max": {0, 0, ""}, "buffer-size": {0, 0, ""},
	"line-number-at-pos": {0, 0, ""}, "current-column": {0, 0, ""}, "buffer-substring": {2, 2, "nn"}, "looking-at": {1, 1, "s"}, "looking-back": {1, 1, "s"},
	"goto-char": {1, 1, "n"}, "goto-line": {1, 1, "n"}, "forward-char": {0, 1, "n"}, "backward-char": {0, 1, "n"}, "forward-word": {0, 1, "n"}, "backward-word": {0, 1, "n"},
	"beginning-of-line": {0, 0, ""}, "end-of-line": {0, 0, ""}, "beginning-of-buffer": {0, 0, ""}, "end-of-buffer": {0, 0, ""},
	"insert": {1, 1, "s"}, "delete-char": {0, 1, "n"}, "delete-backward-char": {0, 1, "n"}, "delete-line": {0, 1, "n"}, "kill-line": {0, 1, "n"}, "kill-word": {0, 1, "n"}, "backward-kill-word": {0, 1, "n"},
	"search-forward": {1, 1, "s"}, "search-backward": {1, 1, "s"}, "re-search-forward": {1, 1, "s"}, "re-search-backward": {1, 1, "s"}, "replace-match": {1, 1, "s"},
	"set-mark": {0, 0, ""}, "set-mark-command": {0, 1, "n"}, "exchange-point-and-mark": {0, 0, ""}, "mark-word": {0, 0, ""}, "mark-line": {0, 1, "n"}, "mark-whole-buffer": {0, 0, ""},
	"delete-region": {0, 0, ""}, "replace-region": {1, 1, "s"}, "region-beginning": {0, 0, ""}, "region-end": {0, 0, ""},
	"length": {1, 1, "s"}, "substring": {2, 3, "snn"}, "concat": {0, -1, "s"}, "upcase": {1, 1, "s"}, "downcase": {1, 1, "s"}, "capitalize": {1, 1, "s"},
	"string-match": {2, 2, "ss"}, "replace-regexp-in-string": {3, 3, "sss"},
}
var allFns = sortedKeys(sigs)

func fits(fn string, args []Val) bool {
	s, ok := sigs[fn]
	if !ok || len(args) < s.min || (s.max >= 0 && len(args) > s.max) {
		return false
	}
	for i, a := range args {
		k := s.kinds[min(i, len(s.kinds)-1)]
		if a.K != string(k) {
			return false
		}
	}
	return true
}

var tSym, nilSym = VY("t"), VY("nil")

func boolSym(b bool) *Val {
	if b {
		return &tSym
	}
	return &nilSym
}

// predict says what a call with evaluated arguments does.
func predict(st State, fn string, args []Val) Pred {
	if !fits(fn, args) {
		return Pred{Err: true, St: st}
	}
	t, n := st.Text, len(st.Text)
	pos := st.P - 1
	num := func(i, def int) int {
		if i < len(args) {
			return toInt(float64(args[i].N))
		}
		return def
	}
	str := func(i int) string { return string(args[i].S) }
	ok := func(s State) Pred { return Pred{St: s} }
	val := func(v Val) Pred { return Pred{St: st, Val: &v} }
	fail := Pred{Err: true, St: st}
	moveTo := func(p int) Pred { s := st; s.P = clamp(p, n); return ok(s) }
	found := func(a, b int) Pred {
		s := st
		s.P = b + 1
		s.Searched, s.Known, s.Dirty, s.MS, s.ME = true, true, false, a, b
		return ok(s)
	}
	empty := VS("")
	_ = empty
	switch fn {
	// queries
	case "point":
		return val(VI(st.P))
	case "mark":
		return val(VI(st.M))
	case "point-min":
		return val(VI(1))
	case "point-max":
		return val(VI(n + 1))
	case "buffer-size":
		return val(VI(n))
	case "line-number-at-pos":
		return val(VI(1 + strings.Count(t[:pos], "\n")))
	case "current-column":
		v := val(VI(pos - lineStart(t, pos)))
		// what the code returns instead, see known_findings.txt
		asis := 0
		p := min(pos, n-1)
		for i := p; i >= 0 && t[i] != '\n'; i-- {
			asis++
		}
		a := VI(asis)
		v.Alt = &a
		return v
	case "buffer-substring":
		a, b := num(0, 0), num(1, 0)
		if b == -1 {
			b = n + 1
		}
		a, b = max(a, 1), min(b, n+1)
		if a >= b {
			return val(VS(""))
		}
		return val(VS(t[a-1 : b-1]))
	case "region-beginning":
		return val(VI(min(st.P, st.M)))
	case "region-end":
		return val(VI(max(st.P, st.M)))
	case "looking-at":
		re := compileRe(str(0))
		if re == nil {
			return Pred{St: st, Val: boolSym(strings.HasPrefix(t[pos:], str(0)))}
		}
		loc := re.FindStringIndex(t[pos:])
		m := loc != nil && loc[0] == 0
		if (m && pos >= n) || ((looksAround(str(0)) || splitsRune(t, pos)) && pos > 0) {
			return Pred{St: st}
		}
		return Pred{St: st, Val: boolSym(m)}
	case "looking-back":
		re := compileRe(str(0))
		if re == nil {
			return Pred{St: st, Val: boolSym(strings.HasSuffix(t[:pos], str(0)))}
		}
		if pos == 0 {
			if re.MatchString("") {
				return Pred{St: st} // an empty match at the beginning
			}
			return Pred{St: st, Val: &nilSym}
		}
		if (looksAround(str(0)) && pos < n) || splitsRune(t, pos) {
			return Pred{St: st}
		}
		return Pred{St: st, Val: boolSym(endsWithMatch(str(0), t[:pos]))}
	// string functions
	case "length":
		return val(VI(len(str(0))))
	case "substring":
		s := str(0)
		a, b := max(num(1, 1), 1), min(num(2, len(s)+1), len(s)+1)
		if a >= b {
			return val(VS(""))
		}
		return val(VS(s[a-1 : b-1]))
	case "concat":
		r := ""
		for i := range args {
			r += str(i)
		}
		return val(VS(r))
	case "upcase", "downcase", "capitalize":
		if !utf8.ValidString(str(0)) {
			return Pred{St: st}
		}
		switch fn {
		case "upcase":
			return val(VS(strings.ToUpper(str(0))))
		case "downcase":
			return val(VS(strings.ToLower(str(0))))
		}
		_, k := utf8.DecodeRuneInString(str(0))
		return val(VS(strings.ToUpper(str(0)[:k]) + strings.ToLower(str(0)[k:])))
	case "string-match":
		i := -1
		if re := compileRe(str(0)); re == nil {
			i = strings.Index(str(1), str(0))
		} else if loc := re.FindStringIndex(str(1)); loc != nil {
			i = loc[0]
		}
		if i < 0 {
			return Pred{St: st, Val: &nilSym}
		}
		return val(VI(i))
	case "replace-regexp-in-string":
		re := compileRe(str(0))
		if re == nil {
			return fail
		}
		return val(VS(re.ReplaceAllString(str(2), str(1))))
	// movement
	case "goto-char":
		return moveTo(num(0, 0))
	case "goto-line":
		k := max(1, min(num(0, 0), 1+strings.Count(t, "\n")))
		return moveTo(1 + afterLines(t, 0, k-1))
	case "forward-char":
		return moveTo(st.P + num(0, 1))
	case "backward-char":
		return moveTo(st.P - num(0, 1))
	case "forward-word":
		return moveTo(fwdWord(t, pos, num(0, 1)) + 1)
	case "backward-word":
		return moveTo(bwdWord(t, pos, num(0, 1)) + 1)
	case "beginning-of-line":
		return moveTo(lineStart(t, pos) + 1)
	case "end-of-line":
		if k := strings.IndexByte(t[pos:], '\n'); k >= 0 {
			return moveTo(st.P + k)
		}
		return moveTo(n + 1)
	case "beginning-of-buffer":
		return moveTo(1)
	case "end-of-buffer":
		return moveTo(n + 1)
	// editing
	case "insert":
		s := st.cut(pos, pos, str(0))
		s.P = st.P + len(str(0))
		return ok(s)
	case "delete-char":
		k := max(0, min(num(0, 1), n-pos))
		return ok(st.cut(pos, pos+k, ""))
	case "delete-backward-char":
		k := max(0, min(num(0, 1), pos))
		s := st
		s.P -= k
		return ok(s.cut(pos-k, pos, ""))
	case "delete-line":
		if num(0, 1) < 1 {
			return ok(st)
		}
		a := lineStart(t, pos)
		s := st
		s.P = a + 1
		return ok(s.cut(a, afterLines(t, pos, num(0, 1)), ""))
	case "kill-line":
		k := num(0, 1)
		if k < 1 || pos >= n {
			return ok(st)
		}
		if k == 1 {
			if t[pos] == '\n' {
				return ok(st)
			}
			e := strings.IndexByte(t[pos:], '\n')
			if e < 0 {
				e = n - pos
			}
			return ok(st.cut(pos+1, pos+e, ""))
		}
		return ok(st.cut(pos, afterLines(t, pos, k), ""))
	case "kill-word":
		return ok(st.cut(pos, fwdWord(t, pos, num(0, 1)), ""))
	case "backward-kill-word":
		if num(0, 1) < 1 {
			return ok(st)
		}
		a := bwdWord(t, pos, num(0, 1))
		s := st
		s.P = a + 1
		return ok(s.cut(a, min(pos+1, n), ""))
	// searches
	case "search-forward":
		k := strings.Index(t[pos:], str(0))
		if k < 0 {
			return fail
		}
		if str(0) == "" && pos >= n {
			return Pred{Unspec: true, St: st, MayErr: true, Cands: []State{found(n, n).St}}
		}
		return found(pos+k, pos+k+len(str(0)))
	case "search-backward":
		k := strings.LastIndex(t[:pos], str(0))
		if k < 0 {
			return fail
		}
		return found(k, k+len(str(0)))
	case "re-search-forward":
		re := compileRe(str(0))
		if re == nil {
			return fail
		}
		loc := re.FindStringIndex(t[pos:])
		if (looksAround(str(0)) || splitsRune(t, pos)) && pos > 0 {
			// either the rest of the text or the whole text is what counts
			p := Pred{Unspec: true, St: st, MayErr: pos >= n || loc == nil}
			if loc != nil {
				p.Cands = append(p.Cands, found(pos+loc[0], pos+loc[1]).St)
			}
			if w := firstFrom(re, t, pos); w != nil {
				p.Cands = append(p.Cands, found(w[0], w[1]).St)
			} else {
				p.MayErr = true
			}
			if len(p.Cands) == 0 {
				return fail
			}
			return p
		}
		if loc == nil {
			return fail
		}
		if pos >= n {
			return Pred{Unspec: true, St: st, MayErr: true, Cands: []State{found(n, n).St}}
		}
		return found(pos+loc[0], pos+loc[1])
	case "re-search-backward":
		re := compileRe(str(0))
		if re == nil {
			return fail
		}
		locs := re.FindAllStringIndex(t[:pos], -1)
		if (looksAround(str(0)) && pos < n) || splitsRune(t, pos) {
			p := Pred{Unspec: true, St: st, MayErr: true}
			if len(locs) > 0 {
				l := locs[len(locs)-1]
				p.Cands = append(p.Cands, found(l[0], l[1]).St)
			}
			all := re.FindAllStringIndex(t, -1)
			for i := len(all) - 1; i >= 0; i-- {
				if all[i][1] <= pos {
					p.Cands = append(p.Cands, found(all[i][0], all[i][1]).St)
					break
				}
			}
			if len(p.Cands) == 0 {
				return fail
			}
			return p
		}
		if len(locs) == 0 {
			return fail
		}
		l := locs[len(locs)-1]
		return found(l[0], l[1])
	case "replace-match":
		if !st.Searched {
			return fail
		}
		if !st.Known || st.Dirty || st.MS == st.ME {
			return Pred{Unspec: true, St: st}
		}
		s := st
		s = s.cut(st.MS, st.ME, str(0))
		s.P = st.MS + len(str(0)) + 1
		s.Dirty = true
		return ok(s)
	// mark and region
	case "set-mark":
		s := st
		s.M = st.P
		return ok(s)
	case "set-mark-command":
		s := st
		s.M = clamp(num(0, st.P), n)
		return ok(s)
	case "exchange-point-and-mark":
		s := st
		s.P, s.M = st.M, st.P
		return ok(s)
	case "mark-word":
		a, b := pos, pos
		for a > 0 && wordByte(t[a-1]) {
			a--
		}
		for b < n && wordByte(t[b]) {
			b++
		}
		if a == b {
			e := fwdWord(t, pos, 1)
			w := e
			for w > pos && wordByte(t[w-1]) {
				w--
			}
			if w < e {
				a, b = w, e
			}
		}
		s := st
		s.M, s.P = a+1, b+1
		return ok(s)
	case "mark-line":
		if num(0, 1) < 1 {
			return Pred{Unspec: true, St: st}
		}
		s := st
		s.M, s.P = lineStart(t, pos)+1, afterLines(t, pos, num(0, 1))+1
		return ok(s)
	case "mark-whole-buffer":
		s := st
		s.M, s.P = 1, n+1
		return ok(s)
	case "delete-region", "replace-region":
		a, b := min(st.P, st.M)-1, max(st.P, st.M)-1
		ins := ""
		if fn == "replace-region" {
			ins = str(0)
		}
		if fn == "delete-region" && a == b {
			return ok(st)
		}
		s := st.cut(a, b, ins)
		s.P = a + 1 + len(ins)
		return ok(s)
	}
	panic("no model for " + fn)
}

// firstFrom is the first match in the whole text that starts at pos or later.
func firstFrom(re *regexp.Regexp, t string, pos int) []int {
	for _, l := range re.FindAllStringIndex(t, -1) {
		if l[0] >= pos {
			return l
		}
	}
	return nil
}

// endsWithMatch: some match of the pattern ends at the end of the text.
func endsWithMatch(pattern, text string) bool {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return false
	}
	end := &syntax.Regexp{Op: syntax.OpEndText}
	both := &syntax.Regexp{Op: syntax.OpConcat, Sub: []*syntax.Regexp{re, end}}
	r := compileRe(both.String())
	return r != nil && r.MatchString(text)
}

// owner says which property is about a function.
var owner = map[string]string{}

func init() {
	for p, fns := range map[string]string{
		"C03": "insert delete-char delete-backward-char delete-line kill-line kill-word backward-kill-word",
		"C04": "goto-char goto-line forward-char backward-char forward-word backward-word beginning-of-line end-of-line beginning-of-buffer end-of-buffer",
		"C05": "search-forward search-backward re-search-forward re-search-backward",
		"C06": "replace-match",
		"C07": "set-mark set-mark-command exchange-point-and-mark mark-word mark-line mark-whole-buffer delete-region replace-region region-beginning region-end",
		"C08": "point mark point-min point-max buffer-size buffer-substring line-number-at-pos current-column looking-at looking-back",
		"C09": "length substring concat upcase downcase capitalize string-match replace-regexp-in-string",
	} {
		for _, f := range strings.Fields(fns) {
			owner[f] = p
		}
	}
	for _, f := range allFns {
		fnGroups[owner[f]] = append(fnGroups[owner[f]], f)
	}
}
