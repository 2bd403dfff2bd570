package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	tedtesting "github.com/dhamidi/texted/edlisp/testing"
)

// ---- C24: test cases written as XML

// xmlText: every character can be written in an XML document.
func xmlText(s string) bool {
	if !isValid(s) {
		return false
	}
	for _, r := range s {
		if r < 0x20 && r != '\n' && r != '\t' && r != '\r' || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return true
}
func xmlSafe(v Val) bool {
	if (v.K == "s" || v.K == "y") && !xmlText(string(v.S)) {
		return false
	}
	for _, x := range v.L {
		if !xmlSafe(x) {
			return false
		}
	}
	return true
}

type xcase struct {
	Buffer, Input, Lang string
	Output              string
	Result, ResultLang  string
	Error               string
	Style               int
}

func xmlEsc(s string, style int) string {
	switch style % 4 {
	case 1: // CDATA; carriage returns would be normalized
		if !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
			return "<![CDATA[" + s + "]]>"
		}
	case 2: // raw line ends
		return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(s)
	case 3: // a comment in the middle does not end the text
		if k := len(s) / 2; k > 0 && isValid(s[:k]) {
			return xmlEsc(s[:k], 0) + xmlEsc(s[k:], 1)
		}
	}
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func xmlCase(x xcase) string {
	var b strings.Builder
	el := func(name, lang, text string) {
		if lang != "" {
			lang = fmt.Sprintf(" lang=%q", lang)
		}
		fmt.Fprintf(&b, "<%s%s>%s</%s>\n", name, lang, xmlEsc(text, x.Style), name)
	}
	el("buffer", "", x.Buffer)
	lang := x.Lang
	if lang == "" {
		lang = "shell"
	} else if lang == "none" {
		lang = ""
	}
	el("input", lang, x.Input)
	if x.Output != "" {
		el("output", "", x.Output)
	}
	if x.Result != "" {
		el("result", x.ResultLang, x.Result)
	}
	if x.Error != "" {
		el("error", "", x.Error)
	}
	return b.String()
}

type VerdictCase struct {
	Text   B      `json:"text"`
	Is     []Val  `json:"instructions"`
	Sexp   bool   `json:"sexp"`
	Json   string `json:"json,omitempty"` // "json": a sequence of commands, "jsonarray": an array of them
	Bad    string `json:"malformed,omitempty"`
	Output B      `json:"output"`
	Result *Val   `json:"result,omitempty"`
	Spell  int    `json:"spelling"`
	Lang   string `json:"result_lang"`
	Error  B      `json:"error"`
	Style  int    `json:"style"`
	Broken string `json:"broken,omitempty"` // broken XML, missing file
}

// nearMiss changes a text a little.
func nearMiss(t *T, s string) string {
	if s == "" {
		return pick(t, []string{" ", "x", "\n"})
	}
	rs := []rune(s)
	i := t.N(len(rs))
	switch t.N(12) {
	case 9: // the same after what programs like to do to texts
		return strings.NewReplacer(pick(t, [][]string{{"\n", "\r\n"}, {"\r\n", "\n"}, {"\r", "\n"}, {"\t", "    "}, {"\t", " "}, {"\u00a0", " "}, {"é", "e\u0301"}, {"e\u0301", "é"}, {"  ", " "}, {" \n", "\n"}, {"\n\n", "\n"}, {"\u2028", "\n"}, {"\u200b", ""}, {"\ufeff", ""}, {"\\", "\\\\"}, {"\"", "'"}, {"&", "&amp;"}, {"<", "&lt;"}, {"ﬁ", "fi"}, {"ß", "ss"}, {"ς", "σ"}, {"-", "_"}})...).Replace(s)
	case 10:
		return pick(t, []string{"\ufeff", "\u00a0", "\r\n", "\t"}) + s
	case 11:
		return s + pick(t, []string{"\u00a0", "\r\n", "\r", "\u200b", "\n\n"})
	case 0:
		return s + pick(t, []string{"\n", " ", "x", "\t"})
	case 1:
		return pick(t, []string{"\n", " ", "x"}) + s
	case 2:
		return string(rs[:i]) + string(rs[i+1:])
	case 3:
		return string(rs[:len(rs)-1])
	case 4:
		return string(rs[1:])
	case 5:
		return swapCase(s)
	case 6:
		return strings.TrimSpace(s)
	case 7:
		return string(rs[:i]) + pick(t, []string{" ", "x", "\n", "é"}) + string(rs[i:])
	}
	rs[i] = 'q'
	return string(rs)
}

func genVerdict(t *T) *VerdictCase {
	c := &VerdictCase{Style: t.N(4), Sexp: t.Bool(), Spell: t.N(4)}
	if t.P(1, 4) {
		c.Json = pick(t, []string{"json", "jsonarray"})
	}
	long := t.P(1, 12)
	for {
		st := State{Text: genText(t, textOpt{max: 500, big: 200}), P: 1, M: 1}
		if long {
			st.Text = bigText(t, textOpt{})
			if len(st.Text) > 30000 {
				st.Text = st.Text[:30000]
			}
		}
		c.Text = B(st.Text)
		if t.P(1, 4) {
			c.Is = genConditional(t, pick(t, []string{"KEY", "a"}))
		} else {
			c.Is = genScript(t, st, t.N(6), false)
			if t.P(1, 2) {
				c.Is = append(c.Is, genCall(t, st, pick(t, append(append([]string{}, fnGroups["C08"]...), fnGroups["C09"]...)), false))
			}
			if t.P(1, 4) {
				c.Is = append(c.Is, genFailing(t, st, false))
			}
		}
		if xmlText(st.Text) && allParse(c.Is) && xmlText(c.script()) && growth(c.script()) <= 4 {
			break
		}
	}
	if t.P(1, 16) {
		c.Bad = pick(t, malformed[map[bool]string{true: "json", false: "shell"}[c.Json != ""]])
	}
	if t.P(1, 30) {
		c.Broken = pick(t, []string{"unclosed", "stray", "missing", "entity"})
	}
	out, val, err := reference(c.Is, string(c.Text))
	if err != nil {
		out, val = string(c.Text), VS("")
	}
	what := t.W(4, 3, 3, 1, 4)
	if err != nil && t.P(2, 3) {
		what = 4
	} else if err == nil && what == 4 && t.P(2, 3) {
		what = 2
	}
	if what == 0 || what == 2 {
		c.Output = B(out)
		if t.P(2, 5) {
			c.Output = B(nearMiss(t, out))
		}
		if !isValid(out) && t.P(2, 3) { // a text cannot be told; it is not this one
			c.Output = B(pick(t, []string{strings.ToValidUTF8(out, "\ufffd"), string([]rune(out)), strings.ToValidUTF8(out, ""), strings.ToValidUTF8(out, "?")}))
		}
	}
	if what == 1 || what == 2 {
		v := val
		if t.P(2, 5) {
			switch t.N(6) {
			case 0:
				v = VS(val.String())
			case 1:
				v = VL(val)
			case 2:
				v = pick(t, []Val{VY("t"), VY("nil"), VN(0), VS("")})
			case 3:
				if val.K == "n" {
					v = VN(float64(val.N) + float64(pick(t, []int{1, -1})))
				} else {
					v = Val{K: val.K, S: B(nearMiss(t, string(val.S)))}
				}
			case 4:
				v = VY(string(val.S))
				if val.K == "n" {
					v = VS(val.String())
				}
			case 5:
				v = VN(float64(val.N) + 0.5)
			}
		}
		c.Result = &v
		c.Lang = pick(t, []string{"", "sexp", "sexp"})
		if !xmlSafe(v) || v.K == "y" && !plainCall(VL(VY(string(v.S)))) {
			c.Result = nil
		}
	}
	if what == 4 {
		msg := "search failed: x not found"
		if err != nil {
			msg = err.Error()
		}
		switch t.N(5) {
		case 0:
			c.Error = B(msg)
		case 1, 2:
			rs := []rune(msg)
			i := t.N(len(rs))
			j := i + 1 + t.N(len(rs)-i)
			c.Error = B(rs[i:j])
		case 3:
			rs := []rune(msg)
			i := t.N(len(rs))
			j := i + 1 + t.N(len(rs)-i)
			c.Error = B(nearMiss(t, string(rs[i:j])))
		case 4:
			if i := strings.Index(msg, " (at"); i > 0 {
				msg = msg[:i]
			}
			c.Error = B("(" + msg + ")")
		}
		if t.P(1, 4) {
			c.Output = B(nearMiss(t, out))
		}
	}
	if !xmlText(string(c.Output)) {
		c.Output = ""
	}
	if !xmlText(string(c.Error)) {
		c.Error = "x"
	}
	return c
}

func (c *VerdictCase) script() string {
	if c.Bad != "" {
		return c.Bad
	}
	if c.Json != "" {
		return scriptOf(c.Is, c.Json)
	}
	if c.Sexp {
		return scriptOf(c.Is, "sexp")
	}
	return shellScript(c.Is)
}
func (c *VerdictCase) xml() string {
	x := xcase{Buffer: string(c.Text), Input: c.script(), Output: string(c.Output), Error: string(c.Error), Style: c.Style}
	if c.Sexp {
		x.Lang = "sexp"
	}
	if c.Spell == 3 { // without the attribute
		x.Lang = "none"
	}
	if c.Json != "" {
		x.Lang = "json"
	}
	if c.Result != nil {
		x.Result = renderSexp(*c.Result, []int{0, 1, 2, 0}[c.Spell%4], nil)
		if c.Result.K == "n" {
			x.Result = numStr(float64(c.Result.N), c.Spell%3)
		}
		x.ResultLang = c.Lang
		if c.Spell%2 == 1 {
			x.Result = "\n  " + x.Result + " \n"
		}
	}
	s := xmlCase(x)
	switch c.Broken {
	case "unclosed":
		s = strings.Replace(s, "</input>", "", 1)
	case "stray":
		s += "</output>"
	case "entity":
		s += "<a>&nosuch;</a>"
	}
	return s
}

// expectedAsLines is the verdict if the script is read in the line-based syntaxes
// whatever the case says.
func (c *VerdictCase) expectedAsLines() (pass, open bool) {
	if c.Broken != "" {
		return false, false
	}
	is, err := refLines(strings.TrimSpace(c.script()))
	if err == errOpen {
		return false, true
	}
	if err != nil {
		return false, false
	}
	d := *c
	d.Is, d.Bad, d.Json = is, "", ""
	return d.expected()
}

// expected tells whether the case should pass; open is set when that is not determined.
func (c *VerdictCase) expected() (pass, open bool) {
	if c.Broken != "" || c.Bad != "" {
		return false, c.Bad != "" && c.Error != ""
	}
	if v := c.Result; v != nil && v.K == "y" && strings.TrimSpace(string(v.S)) != string(v.S) {
		return false, true // a name with a blank of another script at its end
	}
	out, val, err := reference(c.Is, string(c.Text))
	if want := strings.TrimSpace(string(c.Error)); want != "" {
		if err == nil {
			return false, false
		}
		inner := strings.Trim(want, "()") // an error may be written as an expression
		if strings.Contains(err.Error(), want) && inner != "" {
			return true, false
		}
		return false, strings.Contains(err.Error(), inner)
	}
	if err != nil || c.Output == "" && c.Result == nil {
		return false, false
	}
	if c.Output != "" && string(c.Output) != out {
		return false, false
	}
	if c.Result != nil && !eq(*c.Result, val) {
		return false, false
	}
	return true, false
}

func (c *VerdictCase) label() string {
	pass, _ := c.expected()
	s := "fails"
	if pass {
		s = "passes"
	}
	if c.Error != "" {
		s += ", error"
	}
	if c.Output != "" {
		s += ", output"
	}
	if c.Result != nil {
		s += ", result"
	}
	return s
}

func runVerdict(c *VerdictCase, r *Rec) {
	pass, open := c.expected()
	if open {
		return
	}
	if growth(c.script()) > 4 {
		return
	}
	src := c.xml()
	dir, done := scratch(r)
	defer done()
	f := filepath.Join(dir, "case.xml")
	if c.Broken != "missing" {
		put(r, f, src)
	}
	env := edlisp.NewDefaultEnvironment()
	// Known finding: the language of the input is ignored, so JSON is read as lines.
	excuse := false
	if c.Json != "" && knownKeys["C24/json-input"] {
		linePass, lineOpen := c.expectedAsLines()
		excuse = lineOpen || linePass != pass
	}
	check := func(how string, res *tedtesting.TestResult) {
		if res.Passed != pass && excuse {
			r.Known("json-input", fmt.Sprintf("%s: passed is %v, but should be %v: the script is not read as JSON in the case %s", how, res.Passed, pass, src))
			return
		}
		if res.Passed != pass {
			out, val, err := reference(c.Is, string(c.Text))
			r.Fail("%s: passed is %v (%v), but should be %v: the script gives text %s, value %s, error %v\nthe case is\n%s", how, res.Passed, res.Error, pass, clip(out), clip(val.String()), err, src)
		}
		if !pass && res.Error == nil {
			r.Fail("%s: the failed case has no error", how)
		}
		if pass && res.Error != nil {
			r.Fail("%s: the passed case has the error %v", how, res.Error)
		}
	}
	check("RunTestFile", tedtesting.RunTestFile(f, env))
	check("RunTestFileWithTrace", tedtesting.RunTestFileWithTrace(f, env, func(*edlisp.TraceContext) {}))
	if c.Broken == "" {
		tc, err := tedtesting.ParseTestCase(strings.NewReader(src))
		if err != nil {
			r.Fail("ParseTestCase: %v\n%s", err, src)
		}
		if tc.Buffer != string(c.Text) || tc.Output != string(c.Output) || tc.Input.Text != c.script() {
			r.Fail("read from the XML: buffer %s, output %s, input %s\nfrom\n%s", clip(tc.Buffer), clip(tc.Output), clip(tc.Input.Text), src)
		}
		check("RunTest", tedtesting.RunTest(tc, tedtesting.NewDefaultEnvironment()))
		check("RunTest again", tedtesting.RunTest(tc, env))
	}
	r.NonTrivial()
	r.Label(c.label())
}

// genCaseName makes a file name for a case, now and then from what the code mentions.
func genCaseName(t *T) string {
	w := pick(t, []string{"_", "-", "~", "#", ".", "+", "@", "%d", "skip", "todo", "test", "A", "0", " ", "xfail", "wip", "lib", "draft", "00", "tmp", "--", "=", "!", "fail", "pass"})
	if t.Bool() {
		w = pick(t, dict().strs)
	}
	for _, r := range w {
		if r < ' ' || r == '/' || r == 0x7f || r == 0xfffd || r == 0x2028 || r == 0x85 {
			w = "w"
			break
		}
	}
	b := pick(t, []string{"", "a", "case", "x1"})
	sep := pick(t, []string{"", "", "-", "_", "."})
	switch t.N(3) {
	case 0:
		return b + sep + w + ".xml"
	case 1:
		return "b" + w + b + ".xml"
	}
	return w + sep + b + ".xml"
}

// the runner on the command line
type SuiteCase struct {
	Cases   []*VerdictCase `json:"cases"`
	Names   []string       `json:"names"`
	Dirs    []string       `json:"directories,omitempty"` // tests if empty
	Again   []int          `json:"again,omitempty"`       // cases named a second time
	Default bool           `json:"default_directory"`     // tests/*.xml without naming files
	Flags   []string       `json:"flags"`
	Include []string       `json:"include"`
	// what kind of file or path the cases are: "" (a file named as it is), symlink,
	// hardlink, absolute, dotted or read-only
	Kinds []string `json:"kinds,omitempty"`
}

var caseNames = []string{"one.xml", "two.xml", "insert-a.xml", "insert-b.xml", "goto-char.xml", "one more.xml", "x1.xml", "x22.xml", "z.xml", "[PASS].xml", "é.xml", "b.xml.xml"}

func genSuite(t *T) *SuiteCase {
	c := &SuiteCase{Default: t.P(1, 3)}
	n := t.R(1, 6)
	k := t.N(len(caseNames))
	for i := 0; i < n; i++ {
		var v *VerdictCase
		for try := 0; ; try++ {
			for v = genVerdict(t); v.Json != ""; v = genVerdict(t) { // a known finding would blur the counts
			}
			p, open := v.expected()
			if !open && (p || try > 3 || t.Bool()) {
				break
			}
		}
		if c.Default && v.Broken == "missing" {
			v.Broken = ""
		}
		c.Cases = append(c.Cases, v)
		name := caseNames[(k+i)%len(caseNames)]
		if t.P(1, 4) {
			name = genCaseName(t)
			if c.Default && strings.HasPrefix(name, ".") { // whether * stands for these is not said
				name = "n" + name
			}
		}
		if slices.Contains(c.Names, name) {
			name = fmt.Sprintf("again%d-%s", i, name)
		}
		c.Names = append(c.Names, name)
	}
	if !c.Default && t.P(1, 3) {
		for i := range c.Names {
			c.Dirs = append(c.Dirs, pick(t, []string{"tests", "more", "more/tests", "a b", "."}))
			if i > 0 && c.Dirs[i] != c.Dirs[i-1] && t.Bool() { // the same name as the one before
				c.Names[i] = c.Names[i-1]
			}
		}
		seen := map[string]bool{}
		for i, n := range c.Names {
			if strings.HasPrefix(n, "-") { // would be an option
				n = "n" + n
				c.Names[i] = n
			}
			if seen[c.Dirs[i]+"/"+n] {
				c.Names[i] = fmt.Sprintf("%d-%s", i, n)
			}
			seen[c.Dirs[i]+"/"+c.Names[i]] = true
		}
	}
	if !c.Default && t.P(1, 6) {
		c.Again = append(c.Again, t.N(n))
	}
	for _, f := range []string{"-q", "--fail-only", "--trace", "-v"} {
		if t.P(1, 4) {
			c.Flags = append(c.Flags, f)
		}
	}
	if t.P(1, 3) {
		for range c.Cases {
			c.Kinds = append(c.Kinds, pick(t, []string{"", "symlink", "hardlink", "absolute", "dotted", "read-only", "link to link"}))
		}
	}
	if t.P(1, 30) {
		c.Include = []string{pick(t, []string{"[", "(", "a)", "*", "x**", "[[:nope:]]", "(?z)", "\\", "a{2001}"})}
	}
	if t.P(1, 3) {
		c.Include = append(c.Include, pick(t, []string{"insert", "^x", "one", "[.]xml$", "z", ".", "nothing", "^one[.]xml$", "x1|x2", "tests/", "\\d"}))
		if t.P(1, 3) {
			c.Include = append(c.Include, pick(t, []string{"goto", "x2+", "^b"}))
		}
	}
	return c
}

// genCrowd makes many small cases, of which a number fails that does not fit in
// an exit status or just does.
func genCrowd(t *T) *SuiteCase {
	c := &SuiteCase{Default: t.Bool()}
	n := genCrowdSize(t)
	good, bad := &VerdictCase{Is: []Val{Call("insert", VS("a"))}, Output: B("a")}, &VerdictCase{Is: []Val{Call("insert", VS("a"))}, Output: B("b")}
	if t.Bool() {
		bad = &VerdictCase{Bad: "insert \"", Output: B("a")}
	}
	for i := 0; i < n; i++ {
		c.Cases = append(c.Cases, bad)
	}
	for i := pick(t, []int{0, 0, 1, 3, 128, 256}); i > 0; i-- {
		k := t.N(len(c.Cases) + 1)
		c.Cases = append(c.Cases[:k:k], append([]*VerdictCase{good}, c.Cases[k:]...)...)
	}
	for i := range c.Cases {
		c.Names = append(c.Names, fmt.Sprintf("c%03d.xml", i))
	}
	for _, f := range []string{"-q", "--fail-only"} {
		if t.P(1, 3) {
			c.Flags = append(c.Flags, f)
		}
	}
	return c
}

func runSuite(c *SuiteCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	args := []string{"test"}
	args = append(args, c.Flags...)
	flag := func(f string) bool {
		for _, x := range c.Flags {
			if x == f {
				return true
			}
		}
		return false
	}
	for _, p := range c.Include {
		args = append(args, "--include", p)
	}
	if err := mkdir(filepath.Join(dir, "tests")); err != nil {
		r.Infra("%v", err)
	}
	// a filter that is no pattern is an error; one behind a valid pattern may not be looked at
	badPattern := false
	if len(c.Include) > 0 {
		_, err := regexp.Compile(c.Include[0])
		badPattern = err != nil
	}
	want := map[string]*[2]int{} // name: passed, failed
	passed, total := 0, 0
	order := make([]int, len(c.Cases))
	for i := range order {
		order[i] = i
	}
	for k, i := range append(order, c.Again...) {
		v := c.Cases[i]
		pass, open := v.expected()
		if open || growth(v.script()) > 4 {
			return
		}
		n, d := c.Names[i], "tests"
		if len(c.Dirs) > 0 {
			d = c.Dirs[i]
			if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
				r.Infra("%v", err)
			}
		}
		kind := ""
		if i < len(c.Kinds) {
			kind = c.Kinds[i]
		}
		if v.Broken != "missing" && k == i {
			p := filepath.Join(dir, d, n)
			real := filepath.Join(dir, fmt.Sprintf("real%d", i))
			var err error
			switch kind {
			case "symlink":
				put(r, real, v.xml())
				err = os.Symlink(real, p)
			case "link to link":
				put(r, real, v.xml())
				err = errors.Join(os.Symlink(filepath.Base(real), real+"l"), os.Symlink(real+"l", p))
			case "hardlink":
				put(r, real, v.xml())
				err = os.Link(real, p)
			default:
				put(r, p, v.xml())
				if kind == "read-only" {
					err = os.Chmod(p, 0444)
				}
			}
			if err != nil {
				r.Infra("%v", err)
			}
		}
		if !c.Default {
			p := filepath.Join(d, n)
			switch kind {
			case "absolute":
				p = filepath.Join(dir, d, n)
			case "dotted":
				p = "./" + d + "/.//./" + n
				if d == "." {
					p = "./" + n
				}
			}
			args = append(args, p)
		}
		in := len(c.Include) == 0
		for _, p := range c.Include {
			if badPattern {
				break
			}
			in = in || regexp.MustCompile(p).MatchString(n)
		}
		if in {
			if want[n] == nil {
				want[n] = new([2]int)
			}
			total++
			if pass {
				passed++
				want[n][0]++
			} else {
				want[n][1]++
			}
		}
	}
	before := tree(r, dir)
	o := cli(r, dir, "", args...)
	what := "texted " + strings.Join(args, " ") + " (" + o.String() + ")"
	sameTree(r, what, tree(r, dir), before)
	if badPattern {
		if o.code == 0 {
			r.Fail("the filter %q is no pattern, but exit status 0: %s", c.Include[0], what)
		}
		r.NonTrivial()
		r.Label("a filter that is no pattern")
		return
	}
	if total == 0 {
		if o.code != 0 {
			r.Fail("no case failed, but exit status %d: %s", o.code, what)
		}
		return
	}
	if (o.code == 0) != (passed == total) {
		r.Fail("%d of %d cases should pass, but exit status %d: %s", passed, total, o.code, what)
	}
	if sum := fmt.Sprintf("Tests: %d passed, %d failed, %d total\n", passed, total-passed, total); !strings.HasSuffix(o.stdout, sum) {
		r.Fail("the summary should be %s: %s", strconv.Quote(sum), what)
	}
	lines := strings.Split(o.stdout, "\n")
	count := func(l string) int {
		k := 0
		for _, x := range lines {
			if x == l {
				k++
			}
		}
		return k
	}
	for n, w := range want {
		wp, wf := w[0], w[1]
		if flag("-q") {
			wp, wf = 0, 0
		} else if flag("--fail-only") {
			wp = 0
		}
		if gp, gf := count("[PASS] "+n), count("[FAIL] "+n); gp != wp || gf != wf {
			r.Fail("%s should be reported as passed %d times and as failed %d times, but is %d and %d times: %s", n, wp, wf, gp, gf, what)
		}
	}
	for _, n := range c.Names {
		if _, ok := want[n]; !ok && count("[PASS] "+n)+count("[FAIL] "+n) > 0 {
			r.Fail("%s is reported although it is not included: %s", n, what)
		}
	}
	r.NonTrivial()
	switch {
	case passed == total:
		r.Label("all pass")
	case passed == 0:
		r.Label("none passes")
	default:
		r.Label("some pass")
	}
}

func init() {
	register(&Property{ID: "C24", Rule: "a case had a determined verdict that was compared with the runner's",
		Assumptions: []string{"An empty <output> element counts as absent, an expected error may be wrapped in parentheses."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("verdicts", genVerdict, runVerdict).n(60000, 1500000),
				mkSpec("command line", genSuite, runSuite).n(5000, 100000),
				mkSpec("many cases", genCrowd, runSuite).n(60, 1500),
			}
		}})
}
