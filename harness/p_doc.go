package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/dhamidi/texted/edlisp"
)

// ---- C23: documentation

type DocCase struct {
	Via      string   `json:"via"` // library, command line, tool, server
	Name     string   `json:"name,omitempty"`
	Category string   `json:"category,omitempty"`
	Verbose  bool     `json:"verbose,omitempty"`
	More     []string `json:"more,omitempty"` // further names on the command line
	Repeat   int      `json:"repeat"`
	Before   []string `json:"before,omitempty"` // scripts run in between
}

// docIndex is what the library documents, read once.
type docIndex struct {
	byName map[string]edlisp.FunctionDoc
	names  []string
	cats   []string
}

var docOnce sync.Once
var theDocs docIndex

func docs() *docIndex {
	docOnce.Do(func() {
		theDocs.byName = map[string]edlisp.FunctionDoc{}
		cs := map[string]bool{}
		for _, d := range edlisp.GetAllDocumentation() {
			theDocs.byName[d.Name] = d
			if d.Category != "" {
				cs[d.Category] = true
			}
		}
		theDocs.names = sortedKeys(theDocs.byName)
		theDocs.cats = sortedKeys(cs)
	})
	return &theDocs
}
func (x *docIndex) in(cat string) []string {
	var l []string
	for _, n := range x.names {
		if x.byName[n].Category == cat {
			l = append(l, n)
		}
	}
	return l
}

func genDocName(t *T, known []string) string {
	k := pick(t, known)
	switch t.W(5, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		return k
	case 1:
		i := t.N(len(k))
		return k[i : i+1+t.N(len(k)-i)]
	case 2:
		return strings.ToUpper(k)
	case 3:
		return k + pick(t, []string{" ", "s", "-", "x", "\n", "-forward", ")", "(", "?"})
	case 4:
		return pick(t, []string{" ", "*", "%", ".", "nil", "t", "help", "é", "%s", "$HOME", "../x", "x\ny", "forward", "char", "line", "all", "other", "Uncategorized"})
	case 5:
		return strings.Replace(k, "-", pick(t, []string{"_", "", "--", " "}), 1)
	case 6:
		return pick(t, known) + k
	}
	return strings.TrimSpace(strings.ToValidUTF8(genStr(t, false), "")) + "q"
}

func genDoc(t *T) *DocCase {
	d := docs()
	c := &DocCase{Via: []string{"library", "tool", "command line", "server"}[t.W(8, 8, 1, 1)], Repeat: 1 + t.N(6)}
	switch t.W(5, 4, 2, 1) {
	case 0:
		c.Name = genDocName(t, d.names)
	case 1:
		c.Category = genDocName(t, d.cats)
		if t.P(1, 6) {
			c.Category = pick(t, d.names)
		}
	case 3:
		c.Name, c.Category = pick(t, d.names), pick(t, d.cats)
		if c.Via == "command line" || c.Via == "library" {
			c.Category = ""
		}
		if c.Via == "command line" {
			c.More = []string{pick(t, d.names)}
		}
	}
	for _, s := range []*string{&c.Name, &c.Category} {
		*s = strings.ReplaceAll(*s, "\x00", "")
		if strings.HasPrefix(*s, "-") {
			*s = "x" + *s
		}
	}
	c.Verbose = t.Bool()
	for k := t.N(3); k > 0; k-- {
		c.Before = append(c.Before, pick(t, []string{"insert \"x\"", "nofunction", "search-forward \"x\"", "goto-char 1"}))
	}
	return c
}

func enumDoc(tier string, yield func(*DocCase) bool) {
	d := docs()
	names := append(append([]string{}, d.names...), allFns...)
	sort.Strings(names)
	for _, via := range []string{"library", "command line", "tool", "server"} {
		for i, n := range names {
			if i > 0 && n == names[i-1] {
				continue
			}
			if !yield(&DocCase{Via: via, Name: n, Repeat: 2}) {
				return
			}
		}
		for _, v := range []bool{false, true} {
			if !yield(&DocCase{Via: via, Verbose: v, Repeat: 8}) {
				return
			}
			for _, cat := range d.cats {
				if !yield(&DocCase{Via: via, Category: cat, Verbose: v, Repeat: 4}) {
					return
				}
			}
		}
	}
}

// ask puts the question and says whether it was refused.
func (c *DocCase) ask(r *Rec, dir string) (text string, refused bool, detail string) {
	switch c.Via {
	case "command line":
		args := []string{"doc"}
		if c.Verbose {
			args = append(args, "--verbose")
		}
		if c.Category != "" {
			args = append(args, "--category", c.Category)
		}
		args = append(args, "--")
		if c.Name != "" {
			args = append(args, c.Name)
		}
		args = append(args, c.More...)
		o := cli(r, dir, "", args...)
		if o.code != 0 {
			return o.stderr + o.stdout, true, o.String()
		}
		return o.stdout, false, o.String()
	}
	a := map[string]any{}
	if c.Name != "" {
		a["function_name"] = c.Name
	}
	if c.Category != "" {
		a["category"] = c.Category
	}
	if c.Verbose {
		a["verbose"] = true
	}
	call := toolCall{"texted_doc", a}
	var p toolReply
	if c.Via == "server" {
		p = server(r, nil, dir, "", []toolCall{call}, false, nil)[0]
	} else {
		p = handler(r, call)
	}
	return p.text + p.rpcErr, p.failed(), p.String()
}

var (
	plainItem   = regexp.MustCompile(`(?m)^(?:  |- )(\S+)$`)
	verboseItem = regexp.MustCompile(`(?m)^- \*\*(.+?)\*\*(?:: (.*))?$`)
	suggested   = regexp.MustCompile(`Did you mean:? (.*?)\??$`)
	categories  = regexp.MustCompile(`Available categories: (.*)$`)
)

func sameList(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

func runDoc(c *DocCase, r *Rec) {
	d := docs()
	if c.Via == "library" {
		runDocLib(c, r)
		return
	}
	dir, done := scratch(r)
	defer done()
	var first string
	for k := 0; k < c.Repeat; k++ {
		text, refused, detail := c.ask(r, dir)
		what := func() string {
			return fmt.Sprintf("documentation of function %q, category %q, verbose %v, by %s: %s", c.Name, c.Category, c.Verbose, c.Via, detail)
		}
		if k == 0 {
			first = text
		} else if text != first {
			r.Fail("the same question is answered differently: %s\nbefore: %s", what(), first)
		}
		_, isFn := d.byName[c.Name]
		isCat := len(d.in(c.Category)) > 0
		bad := (c.Name != "" && !isFn) || (c.Category != "" && !isCat && c.Name == "") || (c.Name != "" && c.Category != "") || len(c.More) > 0
		if refused != bad {
			r.Fail("this should be refused: %v, but %s", bad, what())
		}
		if bad {
			r.Label("refused")
			if strings.TrimSpace(text) == "" {
				r.Fail("refused without an explanation: %s", what())
			}
			l := strings.TrimSpace(text)
			if m := suggested.FindStringSubmatch(l); m != nil && c.Name != "" {
				for _, s := range strings.Split(m[1], ", ") {
					if _, ok := d.byName[s]; !ok {
						r.Fail("%q is suggested, which does not exist: %s", s, what())
					}
				}
			}
			if m := categories.FindStringSubmatch(l); m != nil && c.Name == "" {
				if got := strings.Split(m[1], ", "); !sameList(got, d.cats) {
					r.Fail("the available categories are %q instead of %q: %s", got, d.cats, what())
				}
			}
			continue
		}
		if strings.Contains(text, "%!") {
			r.Fail("the answer is garbled: %s", what())
		}
		if c.Name != "" {
			r.Label("one function")
			checkOne(c, r, text, what)
		} else {
			r.Label("listing")
			checkListing(c, r, text, what)
		}
		r.NonTrivial()
	}
	for _, s := range c.Before {
		edlisp.Eval([]edlisp.Value{edlisp.NewList(edlisp.NewSymbol(s))}, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(""))
	}
}

func checkOne(c *DocCase, r *Rec, text string, what func() string) {
	doc := docs().byName[c.Name]
	if l, _, _ := strings.Cut(text, "\n"); strings.TrimLeft(l, "# ") != c.Name {
		r.Fail("not headed by the name: %s", what())
	}
	has := func(part, s string) {
		if s != "" && !strings.Contains(text, strings.TrimSpace(s)) {
			r.Fail("%s %q is missing: %s", part, s, what())
		}
	}
	has("the summary", doc.Summary)
	has("the description", doc.Description)
	has("the category", doc.Category)
	at := 0
	for _, p := range doc.Parameters {
		has("the description of a parameter", p.Description)
		i := strings.Index(text[at:], fmt.Sprintf("**%s** (%s)", p.Name, p.Type))
		if i < 0 {
			r.Fail("parameter %s (%s) is missing or out of order: %s", p.Name, p.Type, what())
		}
		at += i + 1
		if c.Via == "command line" {
			l, _, _ := strings.Cut(text[at:], "\n")
			if strings.Contains(l, "(optional)") != p.Optional && !strings.Contains(p.Description, "(optional)") {
				r.Fail("parameter %s is optional: %v, but %s", p.Name, p.Optional, what())
			}
		}
	}
	for _, e := range doc.Examples {
		has("an example", e.Input)
		if c.Via == "command line" {
			has("the result of an example", e.Output)
		}
	}
	for _, s := range doc.SeeAlso {
		has("a related function", s)
	}
}

func checkListing(c *DocCase, r *Rec, text string, what func() string) {
	d := docs()
	want := d.names
	if c.Category != "" {
		want = d.in(c.Category)
	}
	head, _, _ := strings.Cut(strings.TrimSpace(text), "\n\nFound")
	if c.Via == "command line" {
		head, _, _ = strings.Cut(strings.TrimSpace(text), "\n")
	}
	if c.Category != "" && !strings.Contains(head, c.Category) {
		r.Fail("the category is not named: %s", what())
	}
	if m := regexp.MustCompile(`\((\d+) total\)|Found (\d+) `).FindStringSubmatch(text); m != nil && m[1]+m[2] != fmt.Sprint(len(want)) {
		r.Fail("%d functions are counted as %s: %s", len(want), m[1]+m[2], what())
	}
	if !c.Verbose {
		var got []string
		for _, m := range plainItem.FindAllStringSubmatch(text, -1) {
			got = append(got, m[1])
		}
		if !sameList(got, want) {
			r.Fail("listed are %q instead of %q: %s", got, want, what())
		}
		return
	}
	groups := map[string][]string{}
	var heads []string
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		if h, ok := strings.CutPrefix(l, "## "); ok {
			cur = strings.ToLower(h)
			heads = append(heads, cur)
			continue
		}
		m := verboseItem.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		doc, ok := d.byName[m[1]]
		if !ok {
			r.Fail("%q is listed, which does not exist: %s", m[1], what())
		}
		if m[2] != strings.SplitN(doc.Summary, "\n", 2)[0] {
			r.Fail("%s is summarised as %q instead of %q: %s", m[1], m[2], doc.Summary, what())
		}
		if doc.Category != "" && strings.ToLower(doc.Category) != cur {
			r.Fail("%s of category %q is listed below %q: %s", m[1], doc.Category, cur, what())
		}
		groups[cur] = append(groups[cur], m[1])
	}
	var all []string
	for _, h := range heads {
		if !sort.StringsAreSorted(groups[h]) {
			r.Fail("functions of category %q are not sorted: %s", h, what())
		}
		all = append(all, groups[h]...)
	}
	if !sort.StringsAreSorted(heads) {
		r.Fail("the categories %q are not sorted: %s", heads, what())
	}
	sort.Strings(all)
	if !sameList(all, want) {
		r.Fail("listed are %q instead of %q: %s", all, want, what())
	}
}

// runDocLib compares the functions of the library with each other and with what can be called.
func runDocLib(c *DocCase, r *Rec) {
	env := edlisp.NewDefaultEnvironment()
	all := edlisp.GetAllDocumentation()
	var names []string
	seen := map[string]edlisp.FunctionDoc{}
	for _, d := range all {
		names = append(names, d.Name)
		seen[d.Name] = d
	}
	if !sort.StringsAreSorted(names) || len(seen) != len(names) {
		r.Fail("the listing is not sorted or names a function twice: %q", names)
	}
	if n := edlisp.GetRegisteredFunctionCount(); n != len(all) {
		r.Fail("%d functions are listed and %d counted", len(all), n)
	}
	for _, f := range allFns {
		if _, ok := seen[f]; !ok {
			r.Fail("%s is not documented", f)
		}
	}
	if got := sortedKeys(env.Functions); !sameList(got, names) {
		r.Fail("callable are %q, documented are %q", got, names)
	}
	inCats := 0
	cats := edlisp.GetCategories()
	if !sort.StringsAreSorted(cats) {
		r.Fail("the categories are not sorted: %q", cats)
	}
	for i, cat := range cats {
		if i > 0 && cat == cats[i-1] {
			r.Fail("category %q is listed twice", cat)
		}
		l := edlisp.GetDocumentationByCategory(cat)
		if len(l) == 0 {
			r.Fail("category %q is listed but empty", cat)
		}
		inCats += len(l)
		for j, d := range l {
			if d.Category != cat || (j > 0 && l[j-1].Name >= d.Name) {
				r.Fail("the listing of category %q is wrong or not sorted at %s", cat, d.Name)
			}
		}
	}
	for _, d := range all {
		if d.Category == "" {
			inCats++
		}
	}
	if inCats != len(all) {
		r.Fail("%d functions are documented, but %d by category", len(all), inCats)
	}
	if c.Name != "" {
		d, ok := edlisp.GetDocumentation(c.Name)
		want, exists := seen[c.Name]
		if ok != exists || fmt.Sprintf("%#v", d) != fmt.Sprintf("%#v", want) {
			r.Fail("asking for %q gives %v %#v, the listing has %v %#v", c.Name, ok, d, exists, want)
		}
		// callable exactly if documented
		_, _, err := reference([]Val{Call(c.Name)}, "text")
		unknown := err != nil && strings.Contains(err.Error(), "undefined-function")
		if unknown == exists {
			r.Fail("%q is documented: %v, but calling it gives %v", c.Name, exists, err)
		}
		if exists {
			if strings.TrimSpace(d.Summary) == "" || strings.TrimSpace(d.Category) == "" {
				r.Fail("%s has no summary or no category", c.Name)
			}
		}
	}
	if c.Category != "" {
		l := edlisp.GetDocumentationByCategory(c.Category)
		if (len(l) > 0) != (len(docs().in(c.Category)) > 0) {
			r.Fail("category %q holds %d functions", c.Category, len(l))
		}
	}
	r.NonTrivial()
}

func init() {
	register(&Property{ID: "C23", Rule: "the question was answered, not refused, and the answer compared with the library's listing and with what can be called",
		Specs: func() []*Spec {
			return []*Spec{enum(mkSpec("documentation", genDoc, runDoc).n(24000, 400000), enumDoc)}
		}})
}
