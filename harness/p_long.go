package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	tt "github.com/dhamidi/texted/edlisp/testing"
)

// ---- C22, long histories: many different small scripts in one process, and
// then all of them again

// LongCase names N scripts, made by its templates from the numbers Start, …,
// that are run in some order, some ways, and run again in another order.
type LongCase struct {
	Make  []string `json:"templates"`
	N     int      `json:"scripts"`
	Start int      `json:"start"`
	Pad   int      `json:"padding"`
	Via   []string `json:"via"`
	Again []string `json:"again"` // orders of the further rounds
}

// longItem is a script with what it must give.
type longItem struct {
	is   []Val
	text string
	out  string // the text
	val  Val    // of the last instruction, if it is known beforehand
	err  string // part of the error
}

// longTemplates make an item from its number and a word of that number.
var longTemplates = map[string]func(i int, w string) longItem{
	"string-match": func(i int, w string) longItem {
		return longItem{is: []Val{Call("string-match", VS(w+"[xy]"), VS(strings.Repeat("-", i%7)+w+"y"))}, text: "t", out: "t", val: VI(i % 7)}
	},
	"replace-regexp-in-string": func(i int, w string) longItem {
		return longItem{is: []Val{Call("replace-regexp-in-string", VS(w+"b*"), VS("<"+w+">"), VS("a"+w+"bb"))}, text: "t", out: "t", val: VS("a<" + w + ">")}
	},
	"same pattern": func(i int, w string) longItem {
		return longItem{is: []Val{Call("replace-regexp-in-string", VS("[0-9]+"), VS("#"), VS(w+"."))}, text: "t", out: "t", val: VS(strings.TrimRight(w, "0123456789") + "#.")}
	},
	"re-search-forward": func(i int, w string) longItem {
		return longItem{is: []Val{Call("re-search-forward", VS(w+"x*")), Call("replace-match", VS("R"))}, text: "k " + w + "xx.", out: "k R."}
	},
	"re-search-backward": func(i int, w string) longItem {
		return longItem{is: []Val{Call("end-of-buffer"), Call("re-search-backward", VS(w+"[yz]")), Call("replace-match", VS("I"))}, text: "k " + w + "z.", out: "k I."}
	},
	"search-forward": func(i int, w string) longItem {
		return longItem{is: []Val{Call("search-forward", VS(w)), Call("delete-char")}, text: "k " + w + "xx.", out: "k " + w + "x."}
	},
	"search-backward": func(i int, w string) longItem {
		return longItem{is: []Val{Call("end-of-buffer"), Call("search-backward", VS(w)), Call("delete-char")}, text: "k +" + w + "xx.", out: "k +" + w + "x."}
	},
	"looking-at": func(i int, w string) longItem {
		return longItem{is: []Val{Call("looking-at", VS(w+"."))}, text: w + "!", out: w + "!", val: Val{K: "y", S: "t"}}
	},
	"looking-back": func(i int, w string) longItem {
		return longItem{is: []Val{Call("end-of-buffer"), Call("looking-back", VS(w+"[?!]"))}, text: w + "!", out: w + "!", val: Val{K: "y", S: "t"}}
	},
	"no match": func(i int, w string) longItem {
		return longItem{is: []Val{Call("insert", VS(w)), Call("search-forward", VS(w+"?"))}, text: w, err: "search-forward"}
	},
	"undefined": func(i int, w string) longItem {
		return longItem{is: []Val{Call("f" + w)}, text: w, err: "f" + w}
	},
	"concat": func(i int, w string) longItem {
		return longItem{is: []Val{Call("insert", Call("concat", VS(w), VS("-"), Call("upcase", VS(w))))}, text: w, out: w + "-" + strings.ToUpper(w) + w}
	},
	"substring": func(i int, w string) longItem {
		return longItem{is: []Val{Call("substring", VS(w+"..."), VI(1), VI(len(w)+1))}, text: "t", out: "t", val: VS(w)}
	},
	"capitalize": func(i int, w string) longItem {
		return longItem{is: []Val{Call("insert", Call("capitalize", VS("q"+w)))}, text: "", out: "Q" + w}
	},
	"numbers": func(i int, w string) longItem {
		return longItem{is: []Val{Call("goto-char", VI(i)), Call("insert", VS(w))}, text: strings.Repeat("n", i-1), out: strings.Repeat("n", i-1) + w}
	},
	"lines": func(i int, w string) longItem {
		return longItem{is: []Val{Call("goto-line", VI(2)), Call("kill-line"), Call("line-number-at-pos")}, text: w + "\n" + w + "y\nz", out: w + "\nw\nz", val: VI(2)}
	},
	"words": func(i int, w string) longItem {
		return longItem{is: []Val{Call("forward-word"), Call("insert", VS("|")), Call("forward-word", VI(1)), Call("point")}, text: w + " " + w + "b.", out: w + "| " + w + "b.", val: VI(2*len(w) + 4)}
	},
	"regions": func(i int, w string) longItem {
		return longItem{is: []Val{Call("forward-char", VI(2)), Call("set-mark"), Call("end-of-buffer"), Call("replace-region", VS(w))}, text: "ab" + w + "z", out: "ab" + w}
	},
}

var longVias = []string{"eval", "eval", "shared environment", "trace", "format sexp", "format json", "format shell", "tool text", "tool value", "test", "file"}

func genLong(t *T) *LongCase {
	c := &LongCase{Start: 1 + t.N(50), Pad: t.N(4)}
	names := sortedKeys(longTemplates)
	for k := t.R(1, 3); k > 0; k-- {
		c.Make = append(c.Make, pick(t, names))
	}
	if t.P(1, 6) {
		c.Make = names
	}
	switch t.W(6, 4, 2, 2) {
	case 0:
		c.N = 30 + t.N(600)
	case 1:
		c.N = 260 + t.N(1000)
	case 2:
		c.N = 1024 + t.N(4000)
	case 3:
		c.N = min(6000, 1+t.N(8)+pick(t, dict().ints))
	}
	for k := t.R(1, 3); k > 0; k-- {
		c.Via = append(c.Via, pick(t, longVias))
	}
	for k := t.R(1, 2); k > 0; k-- {
		c.Again = append(c.Again, pick(t, []string{"same", "reverse", "stride", "halves"}))
	}
	return c
}

func runLong(c *LongCase, r *Rec) {
	if len(c.Make) == 0 || len(c.Via) == 0 || c.N <= 0 {
		return
	}
	dir, done := scratch(r)
	defer done()
	items := make([]longItem, c.N)
	progs := make([][]edlisp.Value, c.N)
	for k := range items {
		i := c.Start + k
		items[k] = longTemplates[c.Make[k%len(c.Make)]](i%3000+1, fmt.Sprintf("w%0*d", c.Pad, i))
		progs[k] = prog(items[k].is)
	}
	shared := edlisp.NewDefaultEnvironment()
	type vkey struct {
		k    int
		tool bool
	}
	values := map[vkey]string{} // of the scripts, when they were first run
	run := func(k int, via string) string {
		it := items[k]
		text := func(out string, err error) string {
			if err != nil {
				if it.err == "" || !strings.Contains(err.Error(), it.err) {
					return "error " + err.Error()
				}
				return ""
			}
			if it.err != "" || out != it.out {
				return "the text " + clip(out)
			}
			return ""
		}
		value := func(v, want string) string {
			key := vkey{k, via == "tool value"}
			if old, is := values[key]; is && old != v {
				return "the value " + clip(v) + ", which was " + clip(old) + " before,"
			}
			values[key] = v
			if want != "" && it.val.K != "" && v != want {
				return "the value " + clip(v)
			}
			return ""
		}
		switch via {
		case "eval", "shared environment", "trace":
			env := shared
			if via != "shared environment" {
				env = edlisp.NewDefaultEnvironment()
			}
			b := edlisp.NewBuffer(it.text)
			var v edlisp.Value
			var err error
			if via == "trace" {
				n := 0
				v, err = edlisp.EvalWithTrace(progs[k], env, b, func(*edlisp.TraceContext) { n++ })
				if err == nil && n != len(it.is) {
					return fmt.Sprintf("%d steps of a trace", n)
				}
			} else {
				v, err = edlisp.Eval(progs[k], env, b)
			}
			if bad := text(b.String(), err); bad != "" {
				return bad
			}
			if err == nil {
				return value(fromE(v).String(), it.val.String())
			}
			return ""
		case "format sexp", "format json", "format shell":
			f := strings.TrimPrefix(via, "format ")
			return text(texted.ExecuteScriptWithFormat(it.text, scriptOf(it.is, f), f))
		case "tool text":
			p := handler(r, toolCall{"texted_eval", map[string]any{"input": it.text, "script": scriptOf(it.is, "shell"), "output": "buffer"}})
			if p.failed() {
				return text("", fmt.Errorf("%s%s", p.text, p.rpcErr))
			}
			return text(p.text, nil)
		case "tool value":
			p := handler(r, toolCall{"texted_eval", map[string]any{"input": it.text, "script": scriptOf(it.is, "sexp"), "output": "expression"}})
			if p.failed() {
				return text("", fmt.Errorf("%s%s", p.text, p.rpcErr))
			}
			if it.err != "" {
				return "the value " + p.text
			}
			return value(p.text, "")
		case "test":
			tr := tt.RunTest(&tt.TestCase{Buffer: it.text, Input: tt.Input{Lang: "shell", Text: scriptOf(it.is, "shell")}, Output: it.out}, shared)
			if it.err != "" {
				if tr.Passed {
					return "a passed test"
				}
				return ""
			}
			if !tr.Passed {
				return fmt.Sprintf("a failed test: %q instead of %q (%v)", tr.Actual, tr.Expected, tr.Error)
			}
			return ""
		case "file":
			p := filepath.Join(dir, "f")
			put(r, p, it.text)
			err := texted.EditFile(p, scriptOf(it.is, "shell"))
			b, rerr := os.ReadFile(p)
			if rerr != nil {
				r.Infra("%v", rerr)
			}
			if err != nil && string(b) != it.text {
				return "an error and the file " + clip(string(b))
			}
			return text(string(b), err)
		}
		r.Infra("no way to run %q", via)
		return ""
	}
	round := func(when, order string, shift int) {
		n := c.N
		for j := 0; j < n; j++ {
			k := j
			switch order {
			case "reverse":
				k = n - 1 - j
			case "halves":
				k = (j + n/2) % n
			case "stride":
				k = j / 2
				if j%2 == 1 {
					k = n - 1 - j/2
				}
			}
			via := c.Via[(k+shift)%len(c.Via)]
			if via == "file" && j >= 200 { // writing takes its time
				via = "eval"
			}
			if bad := run(k, via); bad != "" {
				it := items[k]
				want := fmt.Sprintf("the text %s, value %s", clip(it.out), it.val)
				if it.err != "" {
					want = "an error that tells of " + it.err
				}
				r.Fail("%s, script %d of %d (%s), run as %s on %s, gives %s instead of %s", when, k+1, n, clip(VL(it.is...).String()), via, clip(it.text), bad, want)
			}
		}
	}
	round("at first", "same", 0)
	for i, o := range c.Again {
		round(fmt.Sprintf("in round %d, order %s", i+2, o), o, i+1)
	}
	if c.N > 2 && len(c.Again) > 0 {
		r.NonTrivial()
	}
	r.Label(fmt.Sprintf("%d thousand scripts", c.N/1000))
}
