package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type cliOut struct {
	stdout, stderr string
	code           int
	args           []string
}

func (o cliOut) String() string {
	return fmt.Sprintf("%s: exit %d, stdout %s, stderr %s", clip(strings.Join(o.args, " ")), o.code, clip(o.stdout), clip(o.stderr))
}

// longFlags are the long names of short flags, valued the flags that take a value and
// defaults what a flag that is left out stands for, as "texted help" tells.
var longFlags = map[string]map[string]string{
	"edit": {"-s": "--script", "-f": "--file", "-e": "--expression", "-i": "--in-place", "-o": "--output", "-v": "--verbose", "-q": "--quiet", "-n": "--dry-run"},
	"test": {"-v": "--verbose", "-q": "--quiet", "-i": "--include"},
	"doc":  {"-v": "--verbose"},
}
var valued = map[string]bool{"--script": true, "--file": true, "--expression": true, "--output": true, "--backup": true, "--format": true, "--output-format": true,
	"--input-format": true, "--include": true, "--category": true, "--prefix": true}
var defaults = map[string]map[string]string{
	"edit":  {"--format": "shell", "--output-format": "shell"},
	"parse": {"--input-format": "shell", "--output-format": "sexp"},
}

// respell writes a command line in one of the many ways that mean the same: short and
// long flags, values attached or not, defaults left out, flags in another order and
// behind the arguments. The choice depends on the arguments alone.
func respell(stdin string, args []string) []string {
	if len(args) == 0 || args[0] != "edit" && args[0] != "parse" && args[0] != "test" && args[0] != "doc" {
		return args
	}
	h := fnv.New64a()
	fmt.Fprint(h, len(stdin))
	for _, a := range args {
		if !strings.Contains(a, scratchRoot) {
			h.Write([]byte(a))
		}
	}
	x := rand.New(rand.NewPCG(h.Sum64(), 7))
	if x.IntN(4) == 0 {
		return args
	}
	cmd := args[0]
	short := map[string]string{}
	for k, v := range longFlags[cmd] {
		short[v] = k
	}
	type flag struct {
		name, val string
		hasVal    bool
	}
	var flags []flag
	var rest []string
	sep := false
	for i := 1; i < len(args); i++ {
		a := args[i]
		if a == "--" {
			sep = true
			rest = append(rest, args[i+1:]...)
			break
		}
		if len(a) < 2 || a[0] != '-' {
			rest = append(rest, a)
			continue
		}
		f := flag{name: a}
		if strings.HasPrefix(a, "--") {
			f.name, f.val, f.hasVal = strings.Cut(a, "=")
		}
		if l, ok := longFlags[cmd][f.name]; ok {
			f.name = l
		}
		if f.hasVal && !valued[f.name] {
			return args
		}
		if valued[f.name] && !f.hasVal {
			if i+1 >= len(args) {
				return args
			}
			i++
			f.val, f.hasVal = args[i], true
		}
		flags = append(flags, f)
	}
	var parts [][]string
	for _, f := range flags {
		if d, ok := defaults[cmd][f.name]; ok && f.hasVal && f.val == d && x.IntN(2) == 0 {
			continue
		}
		s := short[f.name]
		switch k := x.IntN(5); {
		case !f.hasVal && s != "" && k < 2:
			parts = append(parts, []string{s})
		case !f.hasVal && k == 4:
			parts = append(parts, []string{f.name + "=true"})
		case !f.hasVal:
			parts = append(parts, []string{f.name})
		case s != "" && k == 0 && f.val != "" && f.val[0] != '=':
			parts = append(parts, []string{s + f.val})
		case s != "" && k == 1:
			parts = append(parts, []string{s, f.val})
		case k == 2:
			parts = append(parts, []string{f.name, f.val})
		default:
			parts = append(parts, []string{f.name + "=" + f.val})
		}
	}
	repeated := map[string]int{}
	for _, f := range flags {
		repeated[f.name]++
	}
	if len(repeated) == len(flags) { // the order of repeated flags may matter
		x.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	out := []string{cmd}
	if !sep && x.IntN(3) == 0 { // arguments first
		out = append(out, rest...)
		rest = nil
	}
	for _, p := range parts {
		out = append(out, p...)
	}
	if sep {
		out = append(out, "--")
	}
	return append(out, rest...)
}

// nobody is the user that programs under test may be run as, so that files can be
// protected from them; nil if this is not possible here.
var nobody = sync.OnceValue(func() *syscall.Credential {
	c := &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	if os.Getuid() != 0 {
		return nil
	}
	cmd := exec.Command(textedBin, "help")
	cmd.Dir = scratchRoot
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: c}
	if cmd.Run() != nil {
		return nil
	}
	return c
})

// envNames are environment variables that nothing should depend on: usual ones and
// those whose names appear in the code.
var envNames = sync.OnceValue(func() []string {
	names := []string{"LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "TERM", "NO_COLOR", "CI", "DEBUG", "VERBOSE", "EDITOR", "VISUAL", "TEXTED", "TEXTED_DEBUG", "TEXTED_FORMAT", "COLUMNS", "LINES", "A", "USER", "POSIXLY_CORRECT", "TZ", "FORCE_COLOR", "SIMPLE_BACKUP_SUFFIX"}
	for _, s := range dict().strs {
		ok := len(s) > 2 && s[0] >= 'A' && !strings.HasPrefix(s, "GO")
		for _, c := range s {
			ok = ok && (c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9')
		}
		if ok {
			names = append(names, s, s)
		}
	}
	return names
})

// oddVar sets one of them to the value of some kind.
func oddVar(n func(int) int) string {
	values := []string{"1", "", "0", "true", "C", "json", "x", "~", "/tmp", "sexp", "2", "10", "40", "60", "80", "132", "1000"}
	locales := []string{"tr_TR.UTF-8", "az_AZ.UTF-8", "de_DE.UTF-8", "ja_JP.eucJP", "lt_LT", "C", "POSIX", "en_US.ISO-8859-1", "el_GR.UTF-8", "nl_NL"}
	name := envNames()[n(len(envNames()))]
	if strings.HasPrefix(name, "L") && name != "LINES" && n(4) > 0 {
		return name + "=" + locales[n(len(locales))]
	}
	if (name == "COLUMNS" || name == "LINES") && n(4) > 0 {
		return name + "=" + strconv.Itoa(20+n(120))
	}
	return name + "=" + values[n(len(values))]
}

// underEnv runs f with variables set in this process.
func underEnv(env []string, f func()) {
	for _, kv := range env {
		k, v, _ := strings.Cut(kv, "=")
		old, had := os.LookupEnv(k)
		os.Setenv(k, v)
		defer func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		}()
	}
	f()
}

// oddEnv is an environment nothing should depend on. The choice depends on the
// arguments alone.
func oddEnv(args []string) []string {
	h := fnv.New64a()
	for _, a := range args {
		if !strings.Contains(a, scratchRoot) {
			h.Write([]byte(a))
		}
	}
	x := rand.New(rand.NewPCG(h.Sum64(), 9))
	if x.IntN(3) > 0 {
		return nil
	}
	var env []string
	for k := 1 + x.IntN(4); k > 0; k-- {
		env = append(env, oddVar(x.IntN))
	}
	return env
}

// pieces is a reader that gives a text bit by bit.
type pieces struct {
	parts []string
	began bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.parts) == 0 {
		return 0, io.EOF
	}
	if p.began {
		time.Sleep(2 * time.Millisecond)
	}
	p.began = true
	n := copy(b, p.parts[0])
	if p.parts[0] = p.parts[0][n:]; p.parts[0] == "" {
		p.parts = p.parts[1:]
	}
	return n, nil
}

// feed gives the standard input as a pipe that is written at once or in pieces, or as
// a file, from its start or from within. The choice depends on the arguments and the
// text alone.
func feed(r *Rec, stdin string, args []string) (io.Reader, func()) {
	h := fnv.New64a()
	for _, a := range args {
		if !strings.Contains(a, scratchRoot) {
			h.Write([]byte(a))
		}
	}
	h.Write([]byte(stdin))
	x := rand.New(rand.NewPCG(h.Sum64(), 11))
	none := func() {}
	for _, a := range args {
		if strings.Contains(a, "/dev/stdin") { // opens a file anew, from its start
			return strings.NewReader(stdin), none
		}
	}
	switch k := x.IntN(12); k {
	case 0, 1:
		dir, done := scratch(r)
		before := ""
		if k == 1 {
			before = strings.Repeat("what was read before\n", 1+x.IntN(3))
		}
		put(r, filepath.Join(dir, "stdin"), before+stdin)
		f, err := os.Open(filepath.Join(dir, "stdin"))
		if err != nil {
			r.Infra("%v", err)
		}
		f.Seek(int64(len(before)), io.SeekStart)
		return f, func() { f.Close(); done() }
	case 2:
		p := &pieces{}
		for i := 0; i < 3; i++ {
			k := x.IntN(len(stdin) + 1)
			p.parts = append(p.parts, stdin[:k])
			stdin = stdin[k:]
		}
		p.parts = append(p.parts, stdin)
		p.parts = slices.DeleteFunc(p.parts, func(s string) bool { return s == "" })
		return p, none
	}
	return strings.NewReader(stdin), none
}

// cli runs the command line in a directory.
func cli(r *Rec, dir string, stdin string, args ...string) cliOut {
	return cliAs(r, nil, dir, stdin, args...)
}

// surroundings of a run of the command line that are not the usual ones
type surroundings struct {
	cwd    string              // of a server, if not its home
	cred   *syscall.Credential // the user
	limit  int                 // no file can be written beyond this size, if positive
	stdin  string              // a file to read from
	stdout string              // a new file to print to
	fds    []string            // what can be read from /dev/fd/3 and so on
}

// execLimited replaces this process by a command whose files cannot grow beyond
// a size: writing more fails as on a full disk.
func execLimited(limit string, args []string) {
	n, err := strconv.ParseUint(limit, 10, 64)
	if err == nil {
		err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	if err == nil {
		err = syscall.Exec(args[0], args, os.Environ())
	}
	fmt.Fprintln(os.Stderr, "limited:", err)
	os.Exit(77)
}

// command is a command whose files cannot grow beyond a size if that is positive.
func command(ctx context.Context, r *Rec, limit int, bin string, args ...string) *exec.Cmd {
	if limit <= 0 {
		return exec.CommandContext(ctx, bin, args...)
	}
	self, err := os.Executable()
	if err != nil {
		r.Infra("%v", err)
	}
	return exec.CommandContext(ctx, self, append([]string{"limited", fmt.Sprint(limit), bin}, args...)...)
}

func cliAs(r *Rec, cred *syscall.Credential, dir string, stdin string, args ...string) cliOut {
	return cliIn(r, surroundings{cred: cred}, dir, stdin, args...)
}

func cliIn(r *Rec, s surroundings, dir string, stdin string, args ...string) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	args = respell(stdin, args)
	cmd := command(ctx, r, s.limit, textedBin, args...)
	cmd.Dir = dir
	var closeFeed func()
	cmd.Stdin, closeFeed = feed(r, stdin, args)
	defer closeFeed()
	for _, x := range s.fds {
		pr, pw, err := os.Pipe()
		if err != nil {
			r.Infra("%v", err)
		}
		defer pr.Close()
		go func() {
			io.WriteString(pw, x)
			pw.Close()
		}()
		cmd.ExtraFiles = append(cmd.ExtraFiles, pr)
	}
	cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	cmd.Env = append(cmd.Env, oddEnv(args)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: s.cred}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if s.stdin != "" {
		f, err := os.Open(s.stdin)
		if err != nil {
			r.Infra("%v", err)
		}
		defer f.Close()
		cmd.Stdin = f
	}
	if s.stdout != "" {
		f, err := os.OpenFile(s.stdout, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil {
			r.Infra("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	runtime.LockOSThread()
	err := cmd.Run()
	runtime.UnlockOSThread()
	o := cliOut{ob.String(), eb.String(), 0, args}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			r.Infra("cannot run the command line: %v", err)
		}
		o.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ctx.Err() == nil && ws.Signal() == syscall.SIGKILL {
			r.Infra("the command line was killed")
		}
	}
	if strings.Contains(o.stderr, "goroutine ") && strings.Contains(o.stderr, "panic") {
		r.Fail("the command line crashed: %s", o.stderr)
	}
	return o
}

var dirSeq atomic.Int64

// scratch makes an empty directory of its own.
func scratch(r *Rec) (string, func()) {
	d := filepath.Join(scratchRoot, fmt.Sprintf("d%d", dirSeq.Add(1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		r.Infra("%v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

func put(r *Rec, path, content string) {
	if err := os.WriteFile(path, []byte(content), 0644); err != nil {
		r.Infra("%v", err)
	}
}

// tree lists the regular files below a directory with their content.
func tree(r *Rec, dir string) map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			b, err := os.ReadFile(p)
			if errors.Is(err, syscall.EISDIR) { // a link to a directory
				return nil
			}
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	if err != nil {
		r.Infra("%v", err)
	}
	return m
}

func sameTree(r *Rec, what string, got, want map[string]string) {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			r.Fail("%s: file %q is gone or was not written; it should hold %s", what, k, clip(want[k]))
		}
		if g != want[k] {
			r.Fail("%s: file %q holds %s instead of %s", what, k, clip(g), clip(want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			r.Fail("%s: an unexpected file %q holds %s", what, k, clip(got[k]))
		}
	}
}
func cloneMap(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}
func mkdir(p string) error { return os.MkdirAll(p, 0755) }
