package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
)

// reference runs a program on a text without any parser or file in between.
func reference(is []Val, text string) (out string, val Val, err error) {
	b := edlisp.NewBuffer(text)
	v, err := edlisp.Eval(prog(is), edlisp.NewDefaultEnvironment(), b)
	if err != nil {
		return "", Val{}, err
	}
	return b.String(), fromE(v), nil
}

// genScript makes a program that survives being written as a script.
func genScript(t *T, st State, n int, json bool) []Val {
	for try := 0; ; try++ {
		raw := !json && t.P(1, 8)
		is := genProgram(t, st, n, raw, false)
		for i := range is {
			if is[i].K != "l" {
				is[i] = Call("point")
			}
		}
		if allParse(is) && (!json || validStrings(VL(is...))) && growth(shellScript(is)) <= 4 {
			return is
		}
		if try > 20 {
			return []Val{Call("end-of-buffer"), Call("insert", VS("x"))}
		}
	}
}

var formats = []string{"shell", "sexp", "json"}

// genConditional makes a program that succeeds on some texts only.
func genConditional(t *T, key string) []Val {
	var is []Val
	for k := t.N(3); k > 0; k-- {
		is = append(is, pick(t, []Val{Call("insert", VS("<pre>")), Call("end-of-line"), Call("delete-char"), Call("set-mark")}))
	}
	is = append(is, Call("beginning-of-buffer"))
	is = append(is, pick(t, []Val{Call("search-forward", VS(key)), Call("re-search-forward", VS(key))}))
	for k := t.N(4); k > 0; k-- {
		is = append(is, pick(t, []Val{Call("replace-match", VS("done")), Call("insert", VS(" é;\"(x)\n")), Call("delete-line"), Call("search-backward", VS("a")), Call("kill-word"), Call("end-of-buffer"), Call("forward-char", VN(3))}))
	}
	return is
}

// ---- C17 (and the files part of C21)

type FileIn struct {
	Name string `json:"name"`
	Text B      `json:"text"`
	// file, missing, dir, symlink, readonly or unreadable (for the user texted runs as),
	// walled (that user may write it but can make no other file beside it)
	Kind    string `json:"kind"`
	Mode    int    `json:"mode,omitempty"`
	Blocked bool   `json:"backup_blocked,omitempty"` // a directory has the backup's name
	Way     string `json:"way,omitempty"`            // how the file is named: "", ./, dir/../ or link/../
}

// arg is the name the file is given by.
func (f *FileIn) arg() string {
	switch f.Way {
	case "dot":
		return "./" + f.Name
	case "slashes":
		return ".//" + strings.ReplaceAll(f.Name, "/", "///")
	case "up":
		return "zfar/sub/../../" + f.Name
	case "link": // zlink leads to zfar/sub
		return "zlink/../" + strings.TrimPrefix(f.Name, "zfar/")
	}
	return f.Name
}

// NearFile is a file nothing tells texted to touch, unless as an older backup that it
// replaces.
type NearFile struct {
	Name string `json:"name"`
	Text B      `json:"text"`
}

// nearNames are names that programs like to give to files they make beside a file.
func nearNames(n string) []string {
	d, b := filepath.Split(n)
	l := []string{d + "." + b + ".tmp", d + "." + b + ".swp", d + "#" + b + "#", d + ".#" + b, d + "." + b, d + "tmp", d + "texted.tmp", d + ".texted", d + b[1:], d + "tmp-" + b, d + "." + b + ".new"}
	for _, x := range []string{"~", ".tmp", ".temp", ".bak", ".orig", ".new", ".old", ".swp", ".lock", ".texted", ".part", ".1", ".backup", ".edited", "-", " "} {
		l = append(l, n+x)
	}
	return l
}

// genNear puts neighbours beside the files.
func genNear(t *T, c *FilesCase) {
	taken := map[string]bool{}
	for _, f := range c.Files {
		for _, x := range []string{"", ".target", c.Backup} {
			taken[f.Name+x] = true
		}
	}
	add := func(f *FileIn, n string) {
		if b := filepath.Base(n); filepath.Clean(n) != n || b == "." || b == ".." || len(b) > 255 || !isValid(n) {
			return
		}
		if !taken[n] || n == f.Name+c.Backup && c.Backup != "" && !f.Blocked {
			for _, x := range c.Near {
				if x.Name == n {
					return
				}
			}
			text := "near " + n
			switch t.N(5) {
			case 0:
				text = ""
			case 1:
				text = string(f.Text)
			case 2:
				text += strings.Repeat("\nKEY", 1+t.N(300))
			}
			c.Near = append(c.Near, NearFile{n, B(text)})
		}
	}
	for k := t.R(1, 4); k > 0; k-- {
		f := &c.Files[t.N(len(c.Files))]
		if len(filepath.Base(f.Name)) < 2 || f.Kind == "readonly" || f.Kind == "unreadable" || f.Kind == "walled" {
			continue
		}
		if c.Backup != "" && t.Bool() {
			add(f, f.Name+c.Backup)
		} else {
			add(f, pick(t, nearNames(f.Name)))
		}
	}
}

type FilesCase struct {
	Files  []FileIn `json:"files"`
	Args   []int    `json:"args"` // indexes into Files, in the order given
	Is     []Val    `json:"instructions"`
	Bad    string   `json:"bad,omitempty"` // a malformed script instead
	Format string   `json:"format"`
	Via    string   `json:"via"` // how the script reaches the command line
	Quiet  bool     `json:"quiet,omitempty"`
	Backup string   `json:"backup,omitempty"`
	Abs    bool     `json:"absolute"`
	Loop   bool     `json:"loop,omitempty"`

	Verbose bool `json:"verbose,omitempty"`
	Dry     bool `json:"dry_run,omitempty"`

	Limit int `json:"write_limit,omitempty"` // writing a file beyond this size fails

	Near []NearFile `json:"neighbours,omitempty"`

	as      *syscall.Credential
	unknown map[string]bool // files that a failed write leaves in any state
	open    bool            // it is open whether something is written at all
}

var fileNames = []string{"f0.txt", "f1 with space.txt", "f2é.md", "dir/f3.go", "f4", ".f5", "f6.tar.gz", "f7'q.txt", "f8%s.txt", "dir/sub/f9", "-f10", "f11,x.txt"}

// oddNames are names of files that programs are wont to read as something else.
var oddNames = []string{"-", "~", "~/a", "~a", "$HOME", "$A", "${A}", "$HOME/x", "%A%", "*.txt", "f?", "[a]", "{a,b}", "@f", "@", "file:f", "a:b", "http:", "=", "a=b", "!x", "&", "|x", "f;g", "\\x", "#f", "\"q\"", "'", "`id`", "$(id)", "x.", " lead", "trail ", "e\u0301", "NUL", "con", "stdin", "...", "..x", "a,b", "+", "0", "1", "true", "nil", "x\ty", ".gitignore", "f.xml", "f.json", "f.gz", "f.bak.bak"}

// genOddName makes one that is not taken.
func genOddName(t *T, taken func(string) bool) string {
	for {
		n := pick(t, oddNames)
		if t.P(1, 4) {
			n = pick(t, dict().strs)
		}
		if t.P(1, 10) {
			n = "-"
		}
		for _, r := range n {
			if r < ' ' && r != '\t' || r == '/' && n != "~/a" || r >= 0x7f && r != 0x301 {
				n = ""
			}
		}
		if len(n) > 1 && n[0] == '-' || n == "." || n == ".." {
			n = ""
		}
		if n != "" && !taken(n) {
			return n
		}
	}
}

var malformed = map[string][]string{
	"shell": {"insert \"x", "insert \"\\q\"", "insert \"a\" )", "insert (concat \"a\"", "(insert \"x\"", "insert \"x\"; (", "(insert \"x\") y", "insert \"x\"\n\ninsert \"", "insert \"x\"; )"},
	"sexp":  {"(insert \"x\"", "(insert \"x\"))", "(insert \"\\q\")", "(insert \"x", "(insert \"x\") (insert \"y\")", "(insert \"x\")\n(", "(insert \"x\") trailing"},
	"json":  {"[\"insert\",\"x\"", "{\"insert\":\"x\"}", "[\"insert\",null]", "[\"insert\",true]", "\"insert\"", "[[\"insert\",\"x\"],5]", "[\"insert\",\"x\"] junk", "[[\"insert\",\"x\"],[1]]", "[\"insert\",{\"a\":1}]", "null", "5", "[\"insert\",[1]]", "[\"insert\",\"x\"] [\"insert\",\"\\x\"]"},
}

func genFiles(t *T) *FilesCase {
	c := &FilesCase{Format: pick(t, formats), Via: pick(t, []string{"-s", "-f"}), Abs: t.Bool(), Quiet: t.P(1, 6)}
	n := t.R(1, 6)
	many := t.P(1, 100)
	if many {
		n = 7 + t.N(1+genSize(t, 150))
	}
	perm := t.N(len(fileNames))
	st := State{P: 1, M: 1}
	odd := map[string]bool{}
	for i := 0; i < n; i++ {
		f := FileIn{Name: fileNames[(perm+i)%len(fileNames)], Kind: []string{"file", "missing", "dir", "symlink"}[t.W(14, 2, 1, 1)]}
		if i >= len(fileNames) {
			f.Name = fmt.Sprintf("m%03d.txt", i)
		}
		if t.P(1, 12) {
			f.Name = genOddName(t, func(n string) bool {
				for o := range odd {
					for _, x := range []string{"", "~", ".bak", ".orig é", ".0", ".target"} {
						if n+x == o || n == o+x {
							return true
						}
					}
				}
				return odd[n] || n == "dir" || n == "zfar" || n == "zlink" || strings.HasPrefix(n, "locked") || strings.HasPrefix(n, "f") && n != "f?" || strings.HasPrefix(n, "m0") || n == "~" && odd["~/a"] || n == "~/a" && odd["~"]
			})
			odd[f.Name] = true
		}
		if many && t.P(9, 10) {
			f.Kind = "file"
		}
		text := genText(t, textOpt{raw: t.P(1, 4), max: 800, big: 60, huge: 1000})
		if !many && t.P(1, 60) {
			text = strings.Repeat(text+"padding\n", 1+genSize(t, 100000)/(len(text)+8))
		}
		if t.P(2, 3) {
			k := t.N(len(text) + 1)
			for k < len(text) && text[k]&0xc0 == 0x80 {
				k++
			}
			text = text[:k] + "KEY" + text[k:]
		}
		f.Text = B(text)
		if i == 0 {
			st.Text = text
		}
		c.Files = append(c.Files, f)
		c.Args = append(c.Args, i)
	}
	if t.P(1, 12) { // the same file twice
		c.Args = append(c.Args, t.N(n))
	}
	if t.P(1, 5) {
		c.Backup = pick(t, []string{".bak", "~", ".orig é", ".0"})
	}
	if t.P(2, 3) {
		c.Is = genConditional(t, "KEY")
	} else {
		c.Is = genScript(t, st, 1+t.N(5), c.Format == "json")
	}
	if t.P(1, 12) {
		c.Bad = pick(t, malformed[c.Format])
	}
	c.Verbose, c.Dry = t.P(1, 8), t.P(1, 25)
	for i := range c.Files {
		f := &c.Files[i]
		if t.P(1, 4) {
			f.Mode = pick(t, []int{0600, 0640, 0664, 0755, 0700, 01644, 01600})
		}
		f.Blocked = c.Backup != "" && t.P(1, 6)
		if f.Kind != "symlink" && t.P(1, 60) { // a name as long as names can be, or almost
			tail := fmt.Sprintf("_%d", i)
			f.Name = strings.Repeat(pick(t, []string{"n", "e\u0301", "ab."}), 300)[:255-len(c.Backup)-len(tail)-t.N(3)*t.N(16)] + tail
			if f.Name = strings.ToValidUTF8(f.Name, "n"); len(f.Name)+len(c.Backup) > 255 {
				f.Name = f.Name[:200]
			}
		}
	}
	if t.P(1, 15) { // writing some of the files fails
		c.Limit = pick(t, []int{1, 10, 100, 4096, 1 + t.N(300)})
		if f := c.Files[t.N(n)]; t.Bool() {
			out, _, _ := reference(c.Is, string(f.Text))
			c.Limit = max(1, max(len(out), 1+t.N(len(f.Text)+1))-t.N(3))
		}
	}
	if t.P(1, 5) {
		for k := t.R(1, 3); k > 0; k-- {
			f := &c.Files[t.N(len(c.Files))]
			if f.Way != "" {
				continue
			}
			f.Way = pick(t, []string{"dot", "slashes", "up", "link"})
			if f.Way == "link" {
				f.Name = "zfar/" + f.Name
			}
		}
	}
	if t.P(1, 12) { // files that are out of reach
		for k := t.R(1, 2); k > 0; k-- {
			i := t.N(len(c.Files))
			f := &c.Files[i]
			if f.Kind != "file" || f.Mode != 0 || f.Blocked {
				continue
			}
			out, _, err := reference(c.Is, string(f.Text))
			f.Kind = pick(t, []string{"readonly", "readonly", "unreadable", "walled"})
			if f.Kind == "readonly" && err == nil && c.Bad == "" && out == string(f.Text) {
				f.Kind = "unreadable" // whether an unchanged file is written is left open
			}
			f.Name, f.Way = fmt.Sprintf("locked%d/%s", i, filepath.Base(f.Name)), ""
		}
	}
	if t.P(1, 3) {
		genNear(t, c)
	}
	return c
}

// genCrowdSize is a number of failures that is a multiple of what a byte holds,
// or another one.
func genCrowdSize(t *T) int {
	if t.P(1, 4) {
		return max(1, genSize(t, 600))
	}
	return pick(t, []int{127, 128, 255, 256, 256, 256, 257, 512, 512})
}

// genCrowdOfFiles makes many files, and a number of them that fail.
func genCrowdOfFiles(t *T) *FilesCase {
	c := &FilesCase{Format: "shell", Via: "-s", Quiet: t.Bool(), Is: []Val{Call("search-forward", VS("KEY")), Call("replace-match", VS("x"))}}
	miss := t.Bool()
	for i := genCrowdSize(t); i > 0; i-- {
		f := FileIn{Kind: "file", Text: B("none")}
		if miss {
			f.Kind = "missing"
		}
		c.Files = append(c.Files, f)
	}
	for i := pick(t, []int{0, 0, 1, 3, 100}); i > 0; i-- {
		k := t.N(len(c.Files) + 1)
		c.Files = append(c.Files[:k:k], append([]FileIn{{Kind: "file", Text: B("a KEY b")}}, c.Files[k:]...)...)
	}
	for i := range c.Files {
		c.Files[i].Name = fmt.Sprintf("m%03d.txt", i)
		c.Args = append(c.Args, i)
	}
	return c
}

// user is the user texted has to run as, nil for the user of this process.
func (c *FilesCase) user() *syscall.Credential {
	if c.as != nil {
		return c.as
	}
	for i := range c.Files {
		f := &c.Files[i]
		if f.Kind == "readonly" || f.Kind == "unreadable" || f.Kind == "walled" {
			if nobody() != nil {
				return nobody()
			}
			f.Kind = "file"
		}
	}
	return nil
}

// fileMode is a mode in Unix's octal notation.
func fileMode(m int) os.FileMode {
	f := os.FileMode(m & 0777)
	if m&01000 != 0 {
		f |= os.ModeSticky
	}
	return f
}

// modes checks that files have the permissions they had.
func (c *FilesCase) modes(r *Rec, dir, what string) {
	for _, f := range c.Files {
		if f.Kind != "file" || f.Mode == 0 {
			continue
		}
		fi, err := os.Stat(filepath.Join(dir, f.Name))
		if err != nil {
			r.Fail("%s: %v", what, err)
		}
		if was := fileMode(f.Mode); fi.Mode() != was {
			r.Fail("%s: the mode of %q is %v, before it was %v", what, f.Name, fi.Mode(), was)
		}
	}
}

func (c *FilesCase) script() string {
	if c.Bad != "" {
		return c.Bad
	}
	return scriptOf(c.Is, c.Format)
}
func (c *FilesCase) setup(r *Rec, dir string) {
	u := c.user()
	own := func(p string) {
		if u != nil {
			if err := os.Chown(p, int(u.Uid), int(u.Gid)); err != nil {
				r.Infra("%v", err)
			}
		}
	}
	own(dir)
	mode := func(p string, m int) {
		if err := os.Chmod(p, fileMode(m)); err != nil {
			r.Infra("%v", err)
		}
	}
	for _, f := range c.Near {
		p := filepath.Join(dir, f.Name)
		os.MkdirAll(filepath.Dir(p), 0755)
		put(r, p, string(f.Text))
		own(p)
	}
	for _, f := range c.Files {
		if f.Way == "up" || f.Way == "link" {
			os.MkdirAll(filepath.Join(dir, "zfar/sub"), 0755)
			own(filepath.Join(dir, "zfar"))
			os.Symlink("zfar/sub", filepath.Join(dir, "zlink"))
		}
		p := filepath.Join(dir, f.Name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if f.Blocked && c.Backup != "" {
			os.MkdirAll(p+c.Backup, 0755)
		}
		switch f.Kind {
		case "readonly", "unreadable", "walled":
			put(r, p, string(f.Text))
			if f.Kind == "walled" {
				own(p)
			}
			mode(p, map[string]int{"readonly": 0444, "unreadable": 0, "walled": 0644}[f.Kind])
			mode(filepath.Dir(p), 0555)
		case "file":
			put(r, p, string(f.Text))
			if f.Mode != 0 {
				mode(p, f.Mode)
			}
			own(p)
			for d := filepath.Dir(p); d != dir; d = filepath.Dir(d) {
				own(d)
			}
		case "dir":
			os.MkdirAll(p, 0755)
		case "symlink":
			put(r, p+".target", string(f.Text))
			own(p + ".target")
			for d := filepath.Dir(p); d != dir; d = filepath.Dir(d) {
				own(d)
			}
			if err := os.Symlink(p+".target", p); err != nil {
				r.Infra("%v", err)
			}
		}
	}
}

// expect computes what should be on disk and which arguments succeed.
func (c *FilesCase) expect() (files map[string]string, ok []bool) {
	c.unknown, c.open = nil, false
	files = map[string]string{}
	for _, f := range c.Near {
		files[f.Name] = string(f.Text)
	}
	for _, f := range c.Files {
		switch f.Kind {
		case "file", "readonly", "unreadable", "walled":
			files[f.Name] = string(f.Text)
		case "symlink":
			files[f.Name] = string(f.Text)
			files[f.Name+".target"] = string(f.Text)
		}
	}
	for _, a := range c.Args {
		f := c.Files[a]
		ok = append(ok, c.round(files, f))
	}
	return
}
func (c *FilesCase) round(files map[string]string, f FileIn) bool {
	text, exists := files[f.Name]
	if !exists || f.Kind == "readonly" || f.Kind == "unreadable" || (f.Blocked || f.Kind == "walled") && c.Backup != "" {
		return false
	}
	loses := func(n, text string) bool {
		if c.Limit <= 0 || len(text) <= c.Limit {
			return false
		}
		if c.unknown == nil {
			c.unknown = map[string]bool{}
		}
		c.unknown[n] = true
		if f.Kind == "symlink" {
			c.unknown[f.Name+".target"] = true
		}
		return true
	}
	if c.Backup != "" {
		if loses(f.Name+c.Backup, text) {
			c.open = c.open || f.Kind == "symlink"
			return false
		}
		files[f.Name+c.Backup] = text
	}
	if c.Bad != "" {
		return false
	}
	out, _, err := reference(c.Is, text)
	if err != nil {
		return false
	}
	if loses(f.Name, out) {
		c.open = c.open || out == text
		return false
	}
	files[f.Name] = out
	if f.Kind == "symlink" {
		files[f.Name+".target"] = out
	}
	return true
}
func (c *FilesCase) nontrivial(ok []bool) (string, bool) {
	s, f := 0, 0
	for _, o := range ok {
		if o {
			s++
		} else {
			f++
		}
	}
	switch {
	case s > 0 && f > 0:
		return "some files edited, some failed", true
	case s > 0:
		return "all files edited", len(c.Is) > 0
	}
	return "all files failed", f > 0
}
func (c *FilesCase) paths(dir string, flagsEnd bool) []string {
	var ps []string
	for _, a := range c.Args {
		n := c.Files[a].arg()
		if c.Abs {
			n = dir + "/" + n
		}
		ps = append(ps, n)
	}
	return ps
}

// looseWrites leaves out the files a failed write may have left in any state.
func (c *FilesCase) looseWrites(got, want map[string]string) {
	for n := range c.unknown {
		delete(got, n)
		delete(want, n)
	}
}

// limited tells whether the write limit leaves nothing open but what the files hold.
func (c *FilesCase) limited() bool {
	if c.Limit <= 0 {
		return false
	}
	seen := map[int]bool{}
	for _, a := range c.Args {
		if seen[a] {
			return false
		}
		seen[a] = true
	}
	x := *c
	x.unknown, x.open = nil, false
	if c.Loop {
		l := &LoopCase{FilesCase: x}
		l.rounds()
		return !l.open
	}
	x.expect()
	return !x.open
}

// looseBackups removes backups of files the script failed on: whether these exist is
// not promised, only that they hold the original bytes if they do.
func (c *FilesCase) looseBackups(got, want map[string]string, ok []bool) {
	if c.Backup == "" {
		return
	}
	for i, a := range c.Args {
		n := c.Files[a].Name + c.Backup
		if !ok[i] {
			old, had := c.near(n)
			if g, there := got[n]; !there && !had {
				delete(want, n)
			} else if there && had && g == old {
				want[n] = g
			}
		}
	}
}

// near gives what a neighbour held in the beginning.
func (c *FilesCase) near(n string) (string, bool) {
	for _, f := range c.Near {
		if f.Name == n {
			return string(f.Text), true
		}
	}
	return "", false
}

func runInPlaceCLI(c *FilesCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	c.setup(r, dir)
	if !c.limited() {
		c.Limit = 0
	}
	want, ok := c.expect()
	if c.Dry {
		want, _ = (&FilesCase{Files: c.Files, Near: c.Near}).expect()
	}
	args := []string{"edit", "-i", "--format", c.Format}
	if c.Verbose {
		args = append(args, "-v")
	}
	if c.Dry {
		args = append(args, "-n")
	}
	if c.Quiet {
		args = append(args, "-q")
	}
	if c.Backup != "" {
		args = append(args, "--backup", c.Backup)
	}
	sdir, sdone := scratch(r)
	defer sdone()
	if c.Via == "-f" || len(c.script()) > 100000 { // too long for an argument
		name := filepath.Join(sdir, scriptName(c.script()))
		put(r, name, c.script())
		args = append(args, "-f", name)
	} else {
		if strings.Contains(c.script(), "\x00") || c.script() == "" {
			return
		}
		args = append(args, "-s", c.script())
	}
	args = append(args, "--")
	ps := c.paths(dir, true)
	args = append(args, ps...)
	o := cliIn(r, surroundings{cred: c.user(), limit: c.Limit}, dir, "", args...)
	got := tree(r, dir)
	what := "after " + strings.Join(args, " ") + " (" + o.String() + ")"
	if !c.Dry {
		c.looseWrites(got, want)
		c.looseBackups(got, want, ok)
	}
	sameTree(r, what, got, want)
	c.modes(r, dir, what)
	if c.Dry {
		r.NonTrivial()
		r.Label("dry run")
		if strings.Contains(o.stdout, "✓") {
			r.Fail("a dry run tells of edited files: %s", o)
		}
		return
	}
	allOk := true
	for _, x := range ok {
		allOk = allOk && x
	}
	if (o.code == 0) != allOk {
		r.Fail("edited successfully: %v, but exit status %d: %s", ok, o.code, o)
	}
	if !c.Quiet {
		reported(r, o.stdout, ps, ok, o.String)
	}
	if l, nt := c.nontrivial(ok); nt {
		r.NonTrivial()
		r.Label(l)
	}
	c.labels(r)
}

// reported checks that a report has one line for each file: every file edited
// is told of as edited, every other one as failed. Which file a line of failure
// is about is only told by its name being in it, and a name can be as short as
// a character: so each failed file needs its lines, and there are no others.
func reported(r *Rec, text string, ps []string, ok []bool, show func() string) {
	good, bad := map[string]int{}, map[string]int{}
	nbad := 0
	for i, p := range ps {
		if ok[i] {
			good[p]++
		} else {
			bad[p]++
			nbad++
		}
	}
	var fails []string
	told := map[string]int{}
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "✗") {
			fails = append(fails, l)
		}
		if p, is := strings.CutPrefix(l, "✓ Successfully edited "); is {
			told[p]++
		}
	}
	for i, p := range ps {
		n := 0
		for _, l := range fails {
			if strings.Contains(l, p) {
				n++
			}
		}
		if told[p] != good[p] || n < bad[p] {
			r.Fail("%s (edited: %v) is reported as edited %d times and as failed %d times: %s", p, ok[i], told[p], n, show())
		}
	}
	if len(fails) != nbad {
		r.Fail("%d files were not edited, but %d are reported as failed: %s", nbad, len(fails), show())
	}
}

func (c *FilesCase) labels(r *Rec) {
	for _, f := range c.Near {
		if c.Backup != "" && strings.HasSuffix(f.Name, c.Backup) {
			r.Label("an older backup")
			break
		}
	}
	for _, f := range c.Files {
		if f.Kind == "walled" {
			r.Label("a file in a directory that cannot be written")
			break
		}
	}
	if c.user() != nil {
		r.Label("some files out of reach")
	}
	if len(c.unknown) > 0 {
		r.Label("some writes fail")
	}
	for _, f := range c.Files {
		if f.Blocked && c.Backup != "" {
			r.Label("a backup that cannot be made")
			return
		}
	}
}

// libEdit is what a process of its own does for runInPlaceLib.
type libEdit struct {
	How, Script, Format string
	Files               []string
	Results             []libResult
	Err                 string
}
type libResult struct {
	Filename string
	Success  bool
	Error    string
}

func (l *libEdit) run() {
	one := func(e error) []texted.EditResult {
		return []texted.EditResult{{Filename: l.Files[0], Success: e == nil, Error: e}}
	}
	var res []texted.EditResult
	var err error
	switch l.How {
	case "EditFileWithFormat":
		res = one(texted.EditFileWithFormat(l.Files[0], l.Script, l.Format))
	case "EditFile":
		res = one(texted.EditFile(l.Files[0], l.Script))
	case "EditFiles":
		res, err = texted.EditFiles(l.Files, l.Script)
	default:
		res, err = texted.EditFilesWithFormat(l.Files, l.Script, l.Format)
	}
	if err != nil {
		l.Err = err.Error()
	}
	for _, x := range res {
		y := libResult{Filename: x.Filename, Success: x.Success}
		if x.Error != nil {
			y.Error = "error: " + x.Error.Error()
		}
		l.Results = append(l.Results, y)
	}
}

// runAs runs it in a process of another user.
func (l *libEdit) runAs(r *Rec, u *syscall.Credential, limit int, dir string) {
	self, err := os.Executable()
	if err != nil {
		r.Infra("%v", err)
	}
	cmd := command(context.Background(), r, limit, self, "libedit")
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(caseJSON(l))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: u}
	runtime.LockOSThread()
	b, err := cmd.Output()
	runtime.UnlockOSThread()
	if err != nil {
		r.Infra("libedit: %v", err)
	}
	if err := json.Unmarshal(b, l); err != nil {
		r.Infra("libedit: %v", err)
	}
}

func runInPlaceLib(c *FilesCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	c.setup(r, dir)
	c.Backup = ""
	if !c.limited() || !utf8.ValidString(c.script()) {
		c.Limit = 0
	}
	want, ok := c.expect()
	c.Abs = true
	ps := c.paths(dir, false)
	l := &libEdit{How: "EditFilesWithFormat", Script: c.script(), Format: c.Format, Files: ps}
	switch {
	case c.Quiet && len(ps) == 1:
		l.How = "EditFileWithFormat"
	case c.Via == "-s" && (c.Format == "shell" || c.Format == "sexp") && len(ps) == 1:
		l.How = "EditFile"
	case c.Via == "-s" && (c.Format == "shell" || c.Format == "sexp"):
		l.How = "EditFiles"
	}
	if u := c.user(); (u != nil || c.Limit > 0) && utf8.ValidString(l.Script) {
		l.runAs(r, u, c.Limit, dir)
	} else if u != nil {
		return // JSON cannot carry the script
	} else {
		l.run()
	}
	if l.Err != "" {
		r.Fail("%s: %s", l.How, l.Err)
	}
	got := tree(r, dir)
	c.looseWrites(got, want)
	sameTree(r, l.How, got, want)
	c.modes(r, dir, l.How)
	if len(l.Results) != len(ps) {
		r.Fail("%s reports %d results for %d files", l.How, len(l.Results), len(ps))
	}
	for i, x := range l.Results {
		if x.Filename != ps[i] || x.Success != ok[i] || (x.Error == "") != ok[i] {
			r.Fail("%s: %s (edited: %v) is reported as %+v", l.How, ps[i], ok[i], x)
		}
	}
	if l, nt := c.nontrivial(ok); nt {
		r.NonTrivial()
		r.Label(l)
	}
	c.labels(r)
}

// ---- C18

type EditCase struct {
	Text   B      `json:"text"`
	Is     []Val  `json:"instructions"`
	Bad    string `json:"bad,omitempty"`
	Format string `json:"format"`
	FmtOpt int    `json:"format_option"`
	Mode   string `json:"mode"`
	Via    string `json:"via"`
	Quiet  bool   `json:"quiet,omitempty"`
	Dry    bool   `json:"dry_run,omitempty"`
	Exists bool   `json:"output_exists,omitempty"`
	Fails  string `json:"contradiction,omitempty"`

	Verbose bool `json:"verbose,omitempty"`
	Old     int  `json:"old_output,omitempty"` // what the output file and the backup hold before
	Ages    int  `json:"ages,omitempty"`       // which of the files are older than the others

	Near []NearFile `json:"neighbours,omitempty"`

	Names []string `json:"names,omitempty"` // of input, output and script, if not the usual ones

	Feed string `json:"feed,omitempty"` // which of the files is a pipe
}

// feeds are the files that can be pipes, as those a shell makes for <(command).
var feeds = []string{"input 3", "input stdin", "script 3", "script stdin", "output"}

func (c *EditCase) names() (in, out, script string) {
	if len(c.Names) == 3 {
		return c.Names[0], c.Names[1], c.Names[2]
	}
	return "in.txt", "out.txt", "script"
}

var editModes = []string{"stdin", "file", "stdin -o", "file -o", "backup", "onto itself"}
var contradictions = []string{"", "-o two files", "--backup without -i", "-o with -i", "two files to stdout", "bad format", "no script", "missing script file", "missing input", "-o into no directory", "-o is a directory", "input is a directory", "standard output is full", "standard input fails", "no space for -o", "-o is protected", "input is protected", "-e and -o without"}

func genEdit(t *T) *EditCase {
	c := &EditCase{Format: pick(t, formats), FmtOpt: t.N(3), Mode: pick(t, editModes), Via: pick(t, []string{"-s", "-f"}), Quiet: t.P(1, 5), Dry: t.P(1, 6), Exists: t.Bool()}
	st := State{P: 1, M: 1, Text: genText(t, textOpt{raw: t.P(1, 4), max: 2000, big: 30, huge: 250})}
	if t.P(1, 50) {
		st.Text = strings.Repeat(st.Text+"padding\n", 1+genSize(t, 200000)/(len(st.Text)+8))
	}
	if t.P(1, 20) { // more than fits into a pipe, with something at the ends
		st.Text = odds(t, strings.Repeat(st.Text+"x\n", 1+(65000+t.N(2000)+genSize(t, 100000))/(len(st.Text)+2)), true)
		t.long = true
	}
	edge := 0
	if t.P(1, 12) { // the text or the result has the size of a block
		edge = pick(t, []int{512, 1024, 4096, 8192, 32768, 65536, 131072, 1 << 20, pick(t, dict().ints)}) + []int{0, 1, -1}[t.W(4, 1, 1)]
		t.long = true
	}
	if t.P(1, 4) {
		c.Is = genConditional(t, pick(t, []string{"KEY", "a"}))
	} else {
		c.Is = genScript(t, st, 1+t.N(6), c.Format == "json")
	}
	if edge > 0 {
		n := len(st.Text)
		if out, _, err := reference(c.Is, st.Text); err == nil && t.P(2, 3) {
			n = len(out)
		}
		if n < edge {
			st.Text += strings.Repeat("x", edge-n)
		}
	}
	c.Text = B(st.Text)
	c.Old, c.Ages = t.N(5), t.N(8)
	if t.P(1, 8) {
		c.Feed = pick(t, feeds)
	}
	c.Verbose = t.P(1, 10)
	switch t.W(12, 2, 3) {
	case 1:
		c.Bad = pick(t, malformed[c.Format])
		if t.P(1, 4) {
			c.Via, c.Bad = "-s", pick(t, fileRefs)+"expr"
		}
	case 2:
		c.Fails = contradictions[t.R(1, len(contradictions)-1)]
	}
	if t.P(1, 6) {
		in, outf, scr := c.names()
		for _, n := range []*string{&in, &outf, &scr} {
			if t.Bool() {
				*n = genOddName(t, func(n string) bool {
					for _, m := range []string{in, outf, scr, in + ".bak", "other.txt", "d"} {
						if m == n || m == n+".bak" || m == "~" && n == "~/a" || n == "~" && m == "~/a" {
							return true
						}
					}
					return n == "no-such-file" || n == "no-such-script" || n == "no-such-dir"
				})
			}
		}
		c.Names = []string{in, outf, scr}
	}
	if t.P(1, 3) {
		x := &FilesCase{Backup: ".bak"}
		in, outf, scr := c.names()
		for _, n := range []string{in, outf, scr, "other.txt"} {
			x.Files = append(x.Files, FileIn{Name: n, Text: B(clip(st.Text)), Blocked: true})
		}
		genNear(t, x)
		c.Near = x.Near
	}
	return c
}

func runEdit(c *EditCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	text := string(c.Text)
	script := c.Bad
	if script == "" {
		script = scriptOf(c.Is, c.Format)
	}
	if script == "" || strings.Contains(script, "\x00") && c.Via == "-s" {
		return
	}
	via := c.Via
	if len(script) > 100000 { // too long for an argument
		via = "-f"
	}
	out, _, err := reference(c.Is, text)
	in, outf, scr := c.names()
	for _, n := range []string{in, outf, scr} {
		if err := mkdir(filepath.Dir(filepath.Join(dir, n))); err != nil {
			r.Infra("%v", err)
		}
	}
	want := map[string]string{in: text, "other.txt": "other\n"}
	put(r, filepath.Join(dir, in), text)
	put(r, filepath.Join(dir, "other.txt"), "other\n")
	for _, f := range c.Near {
		put(r, filepath.Join(dir, f.Name), string(f.Text))
		want[f.Name] = string(f.Text)
	}
	if strings.HasSuffix(c.Bad, "expr") {
		put(r, filepath.Join(dir, "expr"), scriptOf(c.Is, c.Format))
		want["expr"] = scriptOf(c.Is, c.Format)
		r.Label("a script that names a file")
	}
	if c.Exists {
		old := "old content that is longer than most results " + strings.Repeat("x", 300)
		switch c.Old {
		case 1: // as long as the result
			old = strings.Repeat("o", len(out))
		case 2: // and equal to it for the most part
			old = strings.Repeat("o", min(3, len(out))) + out[min(3, len(out)):]
		case 3:
			old = strings.Repeat("o", len(text))
		case 4:
			old = ""
		}
		for _, f := range []string{outf, in + ".bak"} {
			put(r, filepath.Join(dir, f), old)
			want[f] = old
		}
	}
	stdin := ""
	var sur surroundings
	scrName, inName, outName := scr, in, outf
	if c.Fails == "" {
		switch {
		case c.Feed == "input 3" && (c.Mode == "file" || c.Mode == "file -o"):
			inName, sur.fds = "/dev/fd/3", []string{text}
		case c.Feed == "input stdin" && (c.Mode == "file" || c.Mode == "file -o"):
			inName, stdin = "/dev/stdin", text
		case c.Feed == "script 3" && via == "-f":
			scrName, sur.fds = "/dev/fd/3", []string{script}
		case c.Feed == "script stdin" && via == "-f" && c.Mode != "stdin" && c.Mode != "stdin -o":
			scrName, stdin = "/dev/stdin", script
		case c.Feed == "output" && (c.Mode == "stdin -o" || c.Mode == "file -o"):
			outName = "/dev/stdout"
		}
		if inName != in || scrName != scr || outName != outf {
			r.Label(c.Feed + " is a pipe")
		}
	}
	args := []string{"edit"}
	switch {
	case c.Fails == "bad format":
		args = append(args, "--format", "lisp")
	case c.FmtOpt == 0:
		args = append(args, "--format", c.Format)
	case c.FmtOpt == 1:
		args = append(args, "--"+c.Format)
	default:
		args = append(args, "--format="+c.Format)
	}
	switch {
	case c.Fails == "no script":
	case c.Fails == "missing script file":
		args = append(args, "-f", "no-such-script")
	case via == "-f":
		put(r, filepath.Join(dir, scr), script)
		want[scr] = script
		args = append(args, "-f", scrName)
	default:
		args = append(args, "-s", script)
	}
	if c.Quiet {
		args = append(args, "-q")
	}
	if c.Verbose {
		args = append(args, "-v")
	}
	if c.Dry {
		args = append(args, "-n")
	}
	for i, f := range []string{in, outf, in + ".bak"} {
		if c.Ages>>i&1 == 1 {
			old := time.Now().Add(-time.Duration(1+i) * time.Hour)
			os.Chtimes(filepath.Join(dir, f), old, old)
		}
	}
	fails := c.Bad != "" || err != nil
	switch c.Fails { // these need a result that is to be written
	case "standard output is full", "no space for -o", "-o is protected":
		if fails || out == "" || c.Dry {
			return
		}
	case "standard input fails", "input is protected":
		if c.Dry {
			return
		}
	}
	switch c.Fails {
	case "-o two files":
		args = append(args, "-o", outf, in, "other.txt")
	case "--backup without -i":
		args = append(args, "--backup", ".bak", in)
	case "-o with -i":
		args = append(args, "-o", outf, "-i", in)
	case "two files to stdout":
		args = append(args, in, "other.txt")
	case "missing input":
		args = append(args, "-o", outf, "no-such-file")
	case "-o into no directory":
		args = append(args, "-o", "no-such-dir/out.txt", in)
	case "-o is a directory":
		if err := mkdir(filepath.Join(dir, "d")); err != nil {
			r.Infra("%v", err)
		}
		args = append(args, "-o", "d")
		if c.Exists {
			args = append(args, in)
		}
	case "input is a directory":
		args = append(args, ".")
	case "standard output is full":
		sur.limit = max(1, len(out)-1-c.Old*len(out)/5)
		if sur.limit >= len(out) {
			return
		}
		away, done := scratch(r)
		defer done()
		sur.stdout = filepath.Join(away, "stdout")
		if c.Exists {
			args = append(args, in)
		} else {
			stdin = text
		}
	case "standard input fails":
		sur.stdin = dir
		args = append(args, "-o", outf)
	case "no space for -o":
		sur.limit = max(1, len(out)-1-c.Old*len(out)/5)
		if sur.limit >= len(out) {
			return
		}
		args = append(args, "-o", outf)
		if c.Ages%2 == 0 {
			args = append(args, in)
		} else {
			stdin = text
		}
	case "-o is protected", "input is protected":
		if sur.cred = nobody(); sur.cred == nil {
			return
		}
		if c.Fails == "input is protected" {
			if err := os.Chmod(filepath.Join(dir, in), 0); err != nil {
				r.Infra("%v", err)
			}
			os.Chmod(dir, 0777)
		}
		args = append(args, "-o", outf, in)
	case "-e and -o without":
		args = append(args[:1:1], "-o", outf, in)
	default:
		switch c.Mode {
		case "stdin":
			stdin = text
		case "file":
			args = append(args, inName)
		case "stdin -o":
			stdin = text
			args = append(args, "-o", outName)
		case "file -o":
			args = append(args, "-o", outName, inName)
		case "onto itself":
			args = append(args, "-o", in, in)
		case "backup":
			args = append(args, "-i", "--backup", ".bak", in)
		}
	}
	o := cliIn(r, sur, dir, stdin, args...)
	what := "after texted " + strings.Join(args, " ") + " (" + o.String() + ")"
	got := tree(r, dir)
	if c.Fails != "" {
		if c.Fails == "no space for -o" { // what is there of it is left open
			delete(got, outf)
			delete(want, outf)
		}
		r.NonTrivial()
		r.Label(c.Fails)
		sameTree(r, what, got, want)
		// whether a dry run notices that input or script is missing is left open
		if o.code == 0 && !(c.Dry && (c.Fails == "missing input" || strings.Contains(c.Fails, "directory"))) {
			r.Fail("contradictory or impossible request (%s) succeeds: %s", c.Fails, what)
		}
		if o.stdout != "" && !c.Dry && (!c.Verbose || len(out) > 40 && strings.Contains(o.stdout, out)) {
			r.Fail("a result is printed: %s", what)
		}
		return
	}
	r.NonTrivial()
	if c.Dry {
		r.Label("dry run")
		sameTree(r, what, got, want)
		if len(out) > 12 && (len(out) > 60 || strings.Contains(out[:len(out)-1], "\n")) && strings.Contains(o.stdout, out) {
			r.Fail("the dry run prints the result: %s", what)
		}
		return
	}
	if fails {
		r.Label("failing script, " + c.Mode)
		if c.Mode == "backup" {
			// whether a backup was made already is left open, not what it holds
			old, had := want[in+".bak"]
			if b, ok := got[in+".bak"]; ok && !(had && b == old) {
				want[in+".bak"] = text
			}
		} else if o.stdout != "" && !(c.Verbose && !c.Quiet) {
			r.Fail("the script fails, but something is printed: %s", what)
		}
		sameTree(r, what, got, want)
		if o.code == 0 {
			r.Fail("the script fails, but the exit status is zero: %s", what)
		}
		return
	}
	r.Label(c.Mode)
	stdout := ""
	switch c.Mode {
	case "stdin", "file":
		stdout = out
	case "stdin -o", "file -o":
		if outName != outf {
			stdout = out
		} else {
			want[outf] = out
		}
	case "onto itself":
		want[in] = out
	case "backup":
		want[in+".bak"] = text
		want[in] = out
		stdout = o.stdout
	}
	sameTree(r, what, got, want)
	if o.code != 0 {
		r.Fail("exit status %d: %s", o.code, what)
	}
	// what else -v prints is left open
	if o.stdout != stdout && !(c.Verbose && !c.Quiet && strings.HasSuffix(o.stdout, stdout)) {
		r.Fail("standard output should be %s: %s", clip(stdout), what)
	}
}

// ---- C19

type ExprCase struct {
	Texts  []B    `json:"texts"`
	Stdin  bool   `json:"stdin"`
	Exprs  []Val  `json:"expressions"` // lists of instructions
	Bad    int    `json:"malformed_at"`
	Format string `json:"format"`
	Out    string `json:"output_format"`
	Extra  string `json:"extra,omitempty"`
	Sep    bool   `json:"semicolons"`
	Ref    string `json:"named_file,omitempty"` // the malformed expression is this and the name of a file of expressions
	Named  bool   `json:"files_named_like_expressions,omitempty"`
}

// fileRefs are ways in which programs let one name a file instead of a text.
var fileRefs = []string{"@", "<", "./", "file:", "@./", "file://", "-f ", "source ", "load ", "", "< "}

func genExpr(t *T) *ExprCase {
	c := &ExprCase{Format: pick(t, formats), Out: pick(t, formats), Stdin: t.Bool(), Bad: -1, Sep: t.Bool()}
	n := 1
	if !c.Stdin {
		n = t.R(1, 3)
	}
	for i := 0; i < n; i++ {
		c.Texts = append(c.Texts, B(genText(t, textOpt{raw: t.P(1, 6), max: 500, big: 100})))
	}
	st := State{Text: string(c.Texts[0]), P: 1, M: 1}
	for k := t.R(1, 6); k > 0; k-- {
		var is []Val
		switch t.W(4, 3, 2, 1) {
		case 0:
			is = []Val{Call(pick(t, []string{"point", "mark", "buffer-size", "point-max", "line-number-at-pos", "region-end"}))}
		case 1:
			is = []Val{Call("buffer-substring", VN(genPos(t, st)), VN(genPos(t, st)))}
			if t.Bool() {
				is = []Val{Call("concat", VS(genStr(t, c.Format != "json" && t.P(1, 4))), VS(pick(t, []string{",", "\"", "a,b", "'", "\n", "é", ";", "\\"})))}
			}
			if t.P(1, 4) {
				is = []Val{Call(pick(t, []string{"looking-at", "looking-back"}), VS("[a-z]"))}
			}
		case 2:
			is = genScript(t, st, 1+t.N(3), c.Format == "json")
		case 3:
			is = genConditional(t, "KEY")
			if t.P(1, 3) {
				is = nil // an empty expression
			}
		}
		for _, v := range is {
			if !hasNested(v) {
				st = step(st, v)
			}
		}
		c.Exprs = append(c.Exprs, VL(is...))
	}
	// the same expression again, after others
	for k := t.N(4); k > 0; k-- {
		if t.P(1, 2) {
			c.Exprs = append(c.Exprs, VL(pick(t, []Val{Call("set-mark"), Call("exchange-point-and-mark"), Call("set-mark-command", VN(genPos(t, st))), Call("goto-char", VN(genPos(t, st))), Call("insert", VS("x\n")), Call("forward-char"), Call("delete-char"), Call("search-forward", VS("a")), Call("mark-word")})))
		}
		c.Exprs = append(c.Exprs, pick(t, c.Exprs))
	}
	if t.P(1, 60) {
		for k := genSize(t, 300); k > 0; k-- {
			c.Exprs = append(c.Exprs, pick(t, c.Exprs))
		}
	}
	if t.P(1, 60) { // vast values
		i, n := t.N(len(c.Texts)), genVast(t)
		u := string(c.Texts[i]) + pick(t, []string{"a", "line\n", "é", "\t", "\""})
		c.Texts[i] = B(strings.Repeat(u, 1+n/len(u)))
		c.Exprs = nil
		for k := t.R(1, 3); k > 0; k-- {
			c.Exprs = append(c.Exprs, VL(genLinear(t)...))
			c.Exprs = append(c.Exprs, VL(Call("buffer-substring", VN(1), Call("point-max"))))
		}
	}
	if t.P(1, 10) {
		c.Bad = t.N(len(c.Exprs))
		if t.P(1, 3) {
			c.Ref = pick(t, fileRefs)
		}
	}
	c.Named = t.P(1, 10)
	if t.P(1, 6) {
		c.Extra = pick(t, []string{"-i", "-q", "-v"})
	}
	return c
}

func readsAs(line, format string, v Val) bool {
	switch v.K {
	case "n":
		f, err := strconv.ParseFloat(line, 64)
		return err == nil && f == float64(v.N)
	case "y":
		if format == "json" {
			return line == strconv.Quote(string(v.S))
		}
		return line == string(v.S)
	case "s":
		if format == "json" {
			var s string
			return json.Unmarshal([]byte(line), &s) == nil && s == string(v.S)
		}
		s, err := strconv.Unquote(line)
		return err == nil && s == string(v.S) && strings.HasPrefix(line, `"`)
	}
	return false
}

func runExpr(c *ExprCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	args := []string{"edit", "--format", c.Format, "--output-format", c.Out}
	if c.Extra != "" && !(c.Extra == "-i" && c.Stdin) {
		args = append(args, c.Extra)
	}
	want := map[string]string{}
	for i, e := range c.Exprs {
		s := ""
		if c.Bad == i {
			s = malformed[c.Format][i%len(malformed[c.Format])]
			if c.Ref != "" {
				s = c.Ref + "expr"
				put(r, filepath.Join(dir, "expr"), scriptOf([]Val{Call("point")}, c.Format))
				want["expr"] = scriptOf([]Val{Call("point")}, c.Format)
			}
		} else {
			s = scriptOf(e.L, c.Format)
			if c.Sep && c.Format != "json" {
				var parts []string
				for _, v := range e.L {
					parts = append(parts, scriptOf([]Val{v}, c.Format))
				}
				s = strings.Join(parts, "; ")
			}
		}
		if strings.Contains(s, "\x00") {
			return
		}
		if c.Named && len(s) < 100 && !strings.Contains(s, "/") && s != "" && s != "." && s != ".." {
			put(r, filepath.Join(dir, s), "(insert \"of a file\")")
			want[s] = "(insert \"of a file\")"
		}
		args = append(args, "-e", s)
	}
	if len(c.Exprs) == 1 && args[len(args)-1] == "" {
		return // a single empty expression counts as none
	}
	stdin := ""
	for i, x := range c.Texts {
		if c.Stdin {
			stdin = string(x)
		} else {
			f := fmt.Sprintf("in%d.txt", i)
			put(r, filepath.Join(dir, f), string(x))
			want[f] = string(x)
			args = append(args, f)
		}
	}
	o := cli(r, dir, stdin, args...)
	what := "texted " + strings.Join(args, " ") + " gives " + o.String()
	sameTree(r, what, tree(r, dir), want)
	// what should be printed
	type sec struct {
		vals   []Val
		failed bool
	}
	var secs []sec
	for _, x := range c.Texts {
		b := edlisp.NewBuffer(string(x))
		env := edlisp.NewDefaultEnvironment()
		var s sec
		for i, e := range c.Exprs {
			if c.Bad == i {
				s.failed = true
				break
			}
			v, err := edlisp.Eval(prog(e.L), env, b)
			if err != nil {
				s.failed = true
				break
			}
			val := fromE(v)
			if c.Out == "json" && !validStrings(val) && c.Extra != "-q" {
				s.failed = true // JSON cannot express it
				break
			}
			s.vals = append(s.vals, val)
		}
		secs = append(secs, s)
		if s.failed {
			break
		}
	}
	failed := secs[len(secs)-1].failed
	if (o.code != 0) != failed {
		r.Fail("an expression fails: %v, but %s", failed, what)
	}
	if c.Extra == "-q" || c.Extra == "-v" { // what -v prints between the values is left open
		return
	}
	lines := strings.Split(o.stdout, "\n")
	next := func() string {
		for len(lines) > 0 {
			l := lines[0]
			lines = lines[1:]
			if strings.TrimSpace(l) != "" {
				return l
			}
		}
		return ""
	}
	for i, s := range secs {
		if len(c.Texts) > 1 {
			if h := next(); !strings.Contains(h, fmt.Sprintf("in%d.txt", i)) {
				r.Fail("the values of in%d.txt are not announced: %s", i, what)
			}
		}
		for k, v := range s.vals {
			l := next()
			if !readsAs(l, c.Out, v) {
				r.Fail("expression %d should print %s in format %s, but the line is %s\n%s", k, clip(v.String()), c.Out, clip(l), what)
			}
		}
		if s.failed {
			if l := next(); l != "" && !strings.HasPrefix(l, "Error") {
				r.Fail("after the failing expression %d there is %s\n%s", len(s.vals), clip(l), what)
			}
		}
	}
	if !failed {
		if l := next(); l != "" {
			r.Fail("unexpected output %s\n%s", clip(l), what)
		}
	}
	if len(secs[0].vals) > 0 {
		r.NonTrivial()
		r.Label(c.Out)
	}
	if failed {
		r.Label("failing expression")
	}
}

func init() {
	register(&Property{ID: "C17", Rule: "at least one file was edited or failed because of its own content",
		Assumptions: []string{"Whether a backup is made of a file the script fails on is left open, not what it contains."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("library", genFiles, runInPlaceLib).n(30000, 900000),
				mkSpec("command line", genFiles, runInPlaceCLI).n(10000, 120000),
				mkSpec("many files", genCrowdOfFiles, runInPlaceCLI).n(60, 1500),
			}
		}})
	register(&Property{ID: "C18", Rule: "the command line was run with a script and its output channels were compared",
		Specs: func() []*Spec { return []*Spec{mkSpec("edit", genEdit, runEdit).n(16000, 200000)} }})
	register(&Property{ID: "C19", Rule: "at least one expression printed a value that was read back",
		Specs: func() []*Spec { return []*Spec{mkSpec("expressions", genExpr, runExpr).n(10000, 200000)} }})
}

// ---- the command line parts of C10 and C11

func genTraceCLI(t *T) *ProgCase {
	c := genC10(t)
	for try := 0; (!allParse(c.Is) || !xmlSafe(VL(c.Is...)) || !xmlSafe(VS(string(c.Text))) || len(c.Is) == 0 || growth(shellScript(c.Is)) > 3) && try < 30; try++ {
		c = genC10(t)
	}
	c.P, c.M = 0, 0
	return c
}
func runTraceCLI(c *ProgCase, r *Rec) {
	if !allParse(c.Is) || !xmlSafe(VL(c.Is...)) || !xmlSafe(VS(string(c.Text))) || len(c.Is) == 0 || growth(shellScript(c.Is)) > 3 {
		return
	}
	for _, x := range []string{"TRACE:", "Buffer content:", "Point:"} { // would be mistaken for lines of the trace
		if strings.Contains(shellScript(c.Is), x) {
			return
		}
	}
	dir, done := scratch(r)
	defer done()
	put(r, filepath.Join(dir, "case.xml"), xmlCase(xcase{Buffer: string(c.Text), Input: shellScript(c.Is), Output: "x"}))
	o := cli(r, dir, "", "test", "--trace", "case.xml")
	b := edlisp.NewBuffer(string(c.Text))
	env := edlisp.NewDefaultEnvironment()
	var want []string
	for _, v := range prog(c.Is) {
		if _, err := edlisp.Eval([]edlisp.Value{v}, env, b); err != nil {
			break
		}
		want = append(want, fmt.Sprintf("  Buffer content: %q", b.String()), fmt.Sprintf("  Point: %d, Mark: %d", b.Point(), b.Mark()))
	}
	var got []string
	k := 0
	for _, l := range strings.Split(o.stdout, "\n") {
		if x, ok := strings.CutPrefix(l, "TRACE: Executed instruction: "); ok {
			// instructions that can be read back from what is shown are the ones executed
			if k < len(c.Is) && plainVal(c.Is[k]) {
				if p, err := parser.ParseString(x); err != nil || len(p) != 1 || fromE(p[0]).String() != c.Is[k].String() {
					r.Fail("texted test --trace of %s shows %s as instruction %d", clip(shellScript(c.Is)), x, k)
				}
			}
			k++
		}
		if strings.HasPrefix(l, "  Buffer content: ") || strings.HasPrefix(l, "  Point: ") {
			got = append(got, l)
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		r.Fail("texted test --trace of %s reports\n%s\ninstead of\n%s", clip(shellScript(c.Is)), strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	if len(want) >= 4 {
		r.NonTrivial()
	}
}

// plainVal tells whether a value reads the same with its strings unescaped.
func plainVal(v Val) bool {
	switch v.K {
	case "s":
		for _, x := range string(v.S) {
			if x < ' ' || x == '"' || x == '\\' || x > 126 {
				return false
			}
		}
	case "l":
		if len(v.L) == 0 || v.L[0].K != "y" {
			return false
		}
		for _, x := range v.L {
			if !plainVal(x) {
				return false
			}
		}
	}
	return true
}

func genFailCLI(t *T) *FailCase {
	c := genC11(t)
	c.P, c.M = 1, 1
	return c
}
func runFailCLI(c *FailCase, r *Rec) {
	all := append(append(append([]Val{}, c.Pre...), c.Bad), c.Post...)
	for _, v := range all {
		if v.K != "l" {
			return
		}
	}
	if !allParse(all) {
		return
	}
	s := shellScript(all)
	if strings.Contains(s, "\x00") || growth(s) > 3 {
		return
	}
	b := edlisp.NewBuffer(string(c.Text))
	_, err := edlisp.Eval(prog(all), edlisp.NewDefaultEnvironment(), b)
	if err == nil {
		return
	}
	dir, done := scratch(r)
	defer done()
	for _, f := range []string{"shell", "sexp", "json"} {
		if f == "json" && !validStrings(VL(all...)) {
			continue
		}
		o := cli(r, dir, string(c.Text), "edit", "--format", f, "-s", scriptOf(all, f))
		if o.code == 0 || o.stdout != "" || !strings.Contains(o.stderr, err.Error()) {
			r.Fail("the script fails with %q, the command line gives %s", err, o)
		}
	}
	r.NonTrivial()
}
