package main

import (
	"strings"
	"time"

	"github.com/dhamidi/texted/edlisp"
)

// ---- C02, large texts: the time an instruction takes grows with the size of the
// text, not with its square

// VastCase is one instruction on a large text of one pattern.
type VastCase struct {
	Unit  string `json:"unit"`
	Size  int    `json:"size"`
	Pre   []Val  `json:"before"`
	V     Val    `json:"instruction"`
	Arg   string `json:"argument,omitempty"` // a string argument that is as large, made of this
	Where int    `json:"where"`              // of that argument
}

// maxVast is how long it may take. The slowest one takes a tenth of it.
const maxVast = 3 * time.Second

func (c *VastCase) text() string {
	return strings.Repeat(c.Unit, c.Size/len(c.Unit)+1)[:c.Size]
}

func runVast(c *VastCase, r *Rec) {
	if c.Unit == "" || c.Size <= 0 {
		return
	}
	v := c.V
	if c.Arg != "" {
		v.L = append([]Val{}, v.L...)
		v.L[c.Where] = VS(strings.Repeat(c.Arg, c.Size/len(c.Arg)))
	}
	text := c.text()
	p := prog([]Val{v})
	env := edlisp.NewDefaultEnvironment()
	measure := func() time.Duration {
		buf := edlisp.NewBuffer(text)
		for _, x := range c.Pre {
			if o := run1(buf, env, x); o.Panic != "" || o.Err != nil {
				return 0
			}
		}
		return threadTime(func() {
			if _, err := edlisp.Eval(p, env, buf); err == nil {
				r.NonTrivial()
			}
		})
	}
	took := measure()
	for try := 0; took > maxVast && try < 1; try++ {
		took = min(took, measure())
	}
	if took > maxVast {
		r.Fail("%s on %d bytes of %q takes %v of processor time, twice", clip(c.V.String()), c.Size, c.Unit, took)
	}
}

func enumVast(tier string, yield func(*VastCase) bool) {
	size := 400000
	if tier == "thorough" {
		size = 1200000
	}
	half := VI(size / 2)
	places := [][]Val{
		nil,
		{Call("goto-char", half)},
		{Call("end-of-buffer")},
		{Call("goto-char", half), Call("set-mark"), Call("end-of-buffer")},
	}
	numbers := []Val{VI(1), VI(-1), half, VI(1 << 40), VI(size / 50)}
	plain := []string{"a", "b", "zz", "aab", "a\n", "\n", " ", ""}
	patterns := []string{"b", "a*b", "a+", "\\s+$", "(a|b)*c", "(?m)^a", "a$", "", "[^\\n]*\\n", "(?s).*b"}
	for _, unit := range []string{"a", "a\n", " ", "\n", "word ", "aab", "é", "."} {
		for _, fn := range allFns {
			kinds := sigs[fn].kinds
			var calls []Val
			is := func(args ...Val) { calls = append(calls, Call(fn, args...)) }
			re := strings.Contains(fn, "re-search") || strings.HasPrefix(fn, "looking") || fn == "string-match" || strings.Contains(fn, "regexp")
			strs := plain
			if re {
				strs = patterns
			}
			switch {
			case fn == "concat":
				is(VS("a"), VS("b"))
			case kinds == "":
				is()
			case kinds == "n":
				if sigs[fn].min == 0 {
					is()
				}
				for _, n := range numbers {
					is(n)
				}
			case kinds == "nn":
				is(VI(1), VI(-1))
				is(half, VI(size))
			case kinds == "s":
				for _, s := range strs {
					is(VS(s))
				}
			case kinds == "ss":
				for _, s := range strs {
					is(VS(s), VS(""))
				}
			case kinds == "sss":
				for _, s := range strs {
					is(VS(s), VS("-"), VS(""))
				}
			case kinds == "snn":
				is(VS(""), VI(2), VI(size-2))
				is(VS(""), half)
			}
			for _, v := range calls {
				c := &VastCase{Unit: unit, Size: size, V: v}
				switch kinds { // string functions: the argument is large, the text does not matter
				case "ss":
					c.Arg, c.Where, c.Unit = unit, 2, "t"
				case "sss":
					c.Arg, c.Where, c.Unit = unit, 3, "t"
				case "snn":
					c.Arg, c.Where, c.Unit = unit, 1, "t"
				}
				if fn == "concat" || fn == "upcase" || fn == "downcase" || fn == "capitalize" || fn == "length" {
					c.Arg, c.Where, c.Unit = unit, 1, "t"
				}
				if fn == "insert" || fn == "replace-region" || fn == "search-forward" || fn == "search-backward" {
					d := *c
					d.Arg, d.Where = unit, 1
					if !yield(&d) {
						return
					}
				}
				for i, pre := range places {
					c.Pre = pre
					if fn == "replace-match" {
						c.Pre = append(append([]Val{}, pre...), Call("search-backward", VS(unit)))
					}
					d := *c
					if !yield(&d) {
						return
					}
					if c.Unit == "t" && i == 0 {
						break
					}
				}
			}
		}
	}
}
