package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

// ---- calling the tools

type toolReply struct {
	text    string
	isError bool
	rpcErr  string
}

func (p toolReply) failed() bool { return p.isError || p.rpcErr != "" }
func (p toolReply) String() string {
	if p.rpcErr != "" {
		return "protocol error " + clip(p.rpcErr)
	}
	if p.isError {
		return "error reply " + clip(p.text)
	}
	return "reply " + clip(p.text)
}

type toolCall struct {
	tool string
	args map[string]any
}

// handler calls the tool without a server.
func handler(r *Rec, c toolCall) toolReply {
	var q mcp.CallToolRequest
	q.Params.Name = c.tool
	q.Params.Arguments = c.args
	var res *mcp.CallToolResult
	var err error
	switch c.tool {
	case "texted_eval":
		res, err = tools.TextedEvalHandler(context.Background(), q)
	case "edit_file":
		res, err = tools.EditFileHandler(context.Background(), q)
	case "texted_doc":
		res, err = tools.TextedDocHandler(context.Background(), q)
	default:
		r.Infra("no handler %s", c.tool)
	}
	if err != nil {
		return toolReply{rpcErr: err.Error()}
	}
	if res == nil {
		r.Fail("%s returned neither a result nor an error for %v", c.tool, c.args)
	}
	return toolReply{text: textOf(r, res.Content), isError: res.IsError}
}

func textOf(r *Rec, cs []mcp.Content) string {
	var s string
	for _, c := range cs {
		t, ok := c.(mcp.TextContent)
		if !ok {
			r.Fail("a reply with content %T", c)
		}
		s += t.Text
	}
	return s
}

// server runs a session of texted mcp. Noise lines are sent between the calls.
func server(r *Rec, cred *syscall.Credential, dir, prefix string, calls []toolCall, pipelined bool, noise []string) []toolReply {
	return serverIn(r, surroundings{cred: cred}, dir, prefix, calls, pipelined, noise)
}

func serverIn(r *Rec, s surroundings, dir, prefix string, calls []toolCall, pipelined bool, noise []string) []toolReply {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	args := []string{"mcp"}
	if prefix != "" {
		args = append(args, "--prefix", prefix)
	}
	cmd := command(ctx, r, s.limit, textedBin, args...)
	cmd.Dir = dir
	if s.cwd != "" {
		cmd.Dir = s.cwd
	}
	cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: s.cred}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	in, err := cmd.StdinPipe()
	if err != nil {
		r.Infra("%v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		r.Infra("%v", err)
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		r.Infra("cannot start the server: %v", err)
	}
	ended := false
	defer func() {
		if !ended {
			cmd.Process.Kill()
			cmd.Wait()
		}
	}()
	line := func(v any) []byte { return append(caseJSON(v), '\n') }
	var msgs [][]byte
	msgs = append(msgs, line(map[string]any{"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": map[string]any{"protocolVersion": "2024-11-05", "capabilities": map[string]any{}, "clientInfo": map[string]any{"name": "v", "version": "1"}}}))
	for i, c := range calls {
		m := line(map[string]any{"jsonrpc": "2.0", "id": i + 1, "method": "tools/call", "params": map[string]any{"name": prefix + c.tool, "arguments": c.args}})
		if i == 0 {
			m = append(line(map[string]any{"jsonrpc": "2.0", "method": "notifications/initialized"}), m...)
		}
		if i < len(noise) && noise[i] != "" {
			m = append([]byte(noise[i]+"\n"), m...)
		}
		msgs = append(msgs, m)
	}
	replies := make([]toolReply, len(calls))
	got := make([]bool, len(calls)+1)
	rd := bufio.NewReaderSize(out, 1<<20)
	read := func(until func() bool) {
		for !until() {
			l, err := rd.ReadBytes('\n')
			if err != nil {
				if ctx.Err() != nil {
					r.Fail("the server did not answer within 100 s; answered: %v", got)
				}
				cmd.Wait()
				ended = true
				r.Fail("the server ended early (%v): %s", cmd.ProcessState, clip(eb.String()))
			}
			var m struct {
				ID     any             `json:"id"`
				Error  json.RawMessage `json:"error"`
				Result json.RawMessage `json:"result"`
			}
			if err := json.Unmarshal(l, &m); err != nil {
				r.Fail("the server wrote something else than JSON-RPC: %s", clip(string(l)))
			}
			f, ok := m.ID.(float64)
			if !ok {
				continue // an answer to noise, or a notification
			}
			i := int(f)
			if i < 0 || i >= len(got) {
				continue // noise
			}
			if got[i] {
				r.Fail("the server answered request %d twice", i)
			}
			got[i] = true
			if i == 0 {
				continue
			}
			if m.Error != nil {
				replies[i-1] = toolReply{rpcErr: string(m.Error)}
				continue
			}
			var res struct {
				Content []struct {
					Type string `json:"type"`
					Text string `json:"text"`
				} `json:"content"`
				IsError bool `json:"isError"`
			}
			if err := json.Unmarshal(m.Result, &res); err != nil {
				r.Fail("a malformed result: %s", clip(string(m.Result)))
			}
			for _, x := range res.Content {
				if x.Type != "text" {
					r.Fail("a result of type %s", x.Type)
				}
				replies[i-1].text += x.Text
			}
			replies[i-1].isError = res.IsError
		}
	}
	all := func() bool {
		for _, g := range got {
			if !g {
				return false
			}
		}
		return true
	}
	if pipelined {
		go func() {
			for _, m := range msgs {
				if _, err := in.Write(m); err != nil {
					return
				}
			}
		}()
		read(all)
	} else {
		for i, m := range msgs {
			if _, err := in.Write(m); err != nil {
				cmd.Wait()
				ended = true
				r.Fail("the server ended early (%v): %s", cmd.ProcessState, clip(eb.String()))
			}
			read(func() bool { return got[i] })
		}
	}
	in.Close()
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
		ended = true
	case <-time.After(20 * time.Second):
		// how a server ends is not checked
	}
	if strings.Contains(eb.String(), "panic:") {
		r.Fail("the server crashed: %s", clip(eb.String()))
	}
	return replies
}

var noiseLines = []string{"", "", "", "", "{", "not json", `{"jsonrpc":"2.0","id":99999,"method":"nothing/here"}`, `{"jsonrpc":"2.0","id":99998,"method":"tools/call","params":{"name":"no_such_tool","arguments":{}}}`, `{"jsonrpc":"2.0","id":99997,"method":"tools/list"}`, `{"jsonrpc":"2.0","id":99996,"method":"ping"}`, `[]`, `""`}

// ---- C20

type EvalReq struct {
	Input  B      `json:"input"`
	Is     []Val  `json:"instructions"`
	Format string `json:"format"`
	Bad    string `json:"bad,omitempty"`
	Output string `json:"output"`            // "" leaves the parameter out
	Param  string `json:"invalid,omitempty"` // a way in which the parameters are invalid
	Doc    string `json:"doc,omitempty"`     // another request instead
}
type EvalCase struct {
	Reqs      []EvalReq `json:"requests"`
	Pipelined bool      `json:"pipelined"`
	Prefix    string    `json:"prefix"`
	Noise     []string  `json:"noise"`
}

// genLinear makes a script that is quick on long texts.
func genLinear(t *T) []Val {
	var is []Val
	for k := t.R(1, 5); k > 0; k-- {
		is = append(is, pick(t, []Val{Call("end-of-buffer"), Call("beginning-of-buffer"), Call("insert", VS("a\n")), Call("goto-char", VI(genSize(t, 1<<20))), Call("delete-char"), Call("delete-backward-char"), Call("insert", VS("é")), Call("point"), Call("buffer-size"), Call("search-forward", VS("x")), Call("search-backward", VS("d\n")), Call("buffer-substring", VI(1), Call("point-max")), Call("mark-whole-buffer"), Call("set-mark"), Call("region-end"), Call("insert", Call("buffer-substring", VI(1), Call("point-max"))), Call("goto-line", VI(genSize(t, 300000))), Call("line-number-at-pos")}))
	}
	return is
}

func genEvalReq(t *T, raw bool) EvalReq {
	st := genState(t, textOpt{raw: raw, max: 800, big: 200})
	q := EvalReq{Input: B(st.Text), Format: pick(t, []string{"shell", "sexp", "json", "jsonarray"}), Output: pick(t, []string{"", "buffer", "expression", "expression"})}
	st.P, st.M = 1, 1
	js := !raw || strings.HasPrefix(q.Format, "json")
	q.Is = genScript(t, st, t.N(7), js)
	if t.P(1, 4) { // a query last, so that the value says something
		fn := pick(t, fnGroups["C08"])
		if t.Bool() {
			fn = pick(t, fnGroups["C09"])
		}
		v := genCall(t, st, fn, !js)
		if is := append(append([]Val{}, q.Is...), v); allParse(is) && (!js || validStrings(VL(is...))) {
			q.Is = is
		}
	}
	if t.P(1, 250) { // a text or result of a size that programs are wont to limit
		edge := pick(t, []int{4096, 65536, 1 << 17, 1 << 18, 1 << 20, 1000000, 1 << 21, pick(t, dict().ints)}) + t.R(-2, 2)
		if pad := edge - len(q.Input); pad > 0 {
			q.Is = genLinear(t)
			if t.Bool() {
				q.Input += B(strings.Repeat("x", pad))
			} else {
				q.Input = B(strings.Repeat("pad\n", (pad+3)/4)) + q.Input
			}
			t.long = true
		}
	}
	if t.P(1, 400) && len(q.Input) < 3000 { // many instructions
		k := pick(t, []int{130, 260, 520, 1030, 2050, 5000, 10000, 16400, 20000, pick(t, dict().ints) % 20000}) + t.N(9)
		many := make([]Val, k, k+len(q.Is)+1)
		for i := range many {
			many[i] = pick(t, []Val{Call("insert", VS("a")), Call("forward-char"), Call("point"), Call("delete-char")})
		}
		q.Is = append(append(many, Call("buffer-size")), q.Is...)
		if t.Bool() {
			q.Is = append(many, Call("point"))
		}
	}
	if t.P(1, 8) {
		q.Is = append(q.Is, Call("search-forward", VS("nowhere to be found")))
		for k := t.N(2); k > 0; k-- {
			q.Is = append(q.Is, Call("insert", VS("late")))
		}
	}
	if t.P(1, 15) {
		q.Bad = pick(t, malformed[strings.TrimSuffix(q.Format, "array")])
		if q.Format != "shell" && q.Format != "sexp" && !strings.HasPrefix(q.Bad, "[") {
			q.Bad = `["insert","x"`
		}
	}
	if t.P(1, 20) {
		q.Param = pick(t, []string{"no input", "no script", "number input", "list script", "bad output", "nothing", "null script"})
	}
	return q
}
func (q EvalReq) script() string {
	if q.Bad != "" {
		return q.Bad
	}
	return scriptOf(q.Is, q.Format)
}
func (q EvalReq) call() toolCall {
	if q.Doc != "" {
		return toolCall{"texted_doc", map[string]any{"function_name": q.Doc}}
	}
	a := map[string]any{"input": string(q.Input), "script": q.script()}
	if q.Output != "" {
		a["output"] = q.Output
	}
	switch q.Param {
	case "no input":
		delete(a, "input")
	case "no script":
		delete(a, "script")
	case "number input":
		a["input"] = 5.0
	case "list script":
		a["script"] = []any{"insert", "x"}
	case "bad output":
		a["output"] = "text"
	case "nothing":
		a = map[string]any{}
	case "null script":
		a["script"] = nil
	}
	return toolCall{"texted_eval", a}
}

func (q EvalReq) judge(r *Rec, how string, p toolReply) {
	if q.Doc != "" {
		if p.failed() || !strings.HasPrefix(p.text, "# "+q.Doc) {
			r.Fail("%s: the documentation of %s is %s", how, q.Doc, p)
		}
		return
	}
	show := func() string {
		return fmt.Sprintf("%s: texted_eval, input %s, script %s, output %q", how, clip(string(q.Input)), clip(q.script()), q.Output)
	}
	if q.Param != "" {
		r.Label("invalid parameters")
		if !p.failed() {
			r.Fail("%s: parameters are invalid (%s), but the answer is %s", show(), q.Param, p)
		}
		return
	}
	if q.Bad != "" {
		r.Label("malformed script")
		if !p.failed() {
			r.Fail("%s: the script is malformed, but the answer is %s", show(), p)
		}
		return
	}
	out, val, err := reference(q.Is, string(q.Input))
	if err != nil {
		r.Label("failing script")
		if !p.failed() {
			r.Fail("%s: the script fails (%v), but the answer is %s", show(), err, p)
		}
		if p.rpcErr == "" && isValid(err.Error()) && !strings.Contains(p.text, cause(err)) {
			r.Fail("%s: the script fails with %q, but the answer is %s", show(), cause(err), p)
		}
		return
	}
	if p.failed() {
		r.Fail("%s: the answer is %s", show(), p)
	}
	if q.Output == "expression" {
		r.Label("value")
		if !readsAs(p.text, "sexp", val) {
			r.Fail("%s: the answer is %s instead of %s", show(), p, clip(val.String()))
		}
	} else {
		r.Label("text")
		if p.text != out {
			r.Fail("%s: the answer is %s instead of %s", show(), p, clip(out))
		}
	}
	if len(q.Is) > 0 {
		r.NonTrivial()
	}
}

func genEvals(t *T) *EvalCase {
	c := &EvalCase{}
	for k := t.R(1, 4); k > 0; k-- {
		c.Reqs = append(c.Reqs, genEvalReq(t, t.P(1, 4)))
	}
	return c
}
func runEvals(c *EvalCase, r *Rec) {
	for i, q := range c.Reqs {
		q.judge(r, fmt.Sprintf("request %d to the handler", i), handler(r, q.call()))
	}
}
func genEvalServer(t *T) *EvalCase {
	c := &EvalCase{Pipelined: t.P(1, 3)}
	if t.P(1, 4) {
		c.Prefix = pick(t, []string{"x_", "my-", "é", "a.b."})
	}
	n := t.R(1, 12)
	if t.P(1, 120) {
		n = genSize(t, 300)
	}
	for k := n; k > 0; k-- {
		q := genEvalReq(t, false)
		q.Input = B(strings.ToValidUTF8(string(q.Input), "?"))
		if t.P(1, 12) {
			q = EvalReq{Doc: pick(t, allFns)}
		}
		c.Reqs = append(c.Reqs, q)
		c.Noise = append(c.Noise, pick(t, noiseLines))
	}
	return c
}
func runEvalServer(c *EvalCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	var calls []toolCall
	var reqs []EvalReq
	var noise []string
	for i, q := range c.Reqs {
		if out, val, err := reference(q.Is, string(q.Input)); err == nil && (!isValid(out) || !validStrings(val)) {
			continue // JSON cannot carry the answer
		}
		reqs = append(reqs, q)
		calls = append(calls, q.call())
		noise = append(noise, c.Noise[i])
	}
	if len(calls) == 0 {
		return
	}
	for i, p := range server(r, nil, dir, c.Prefix, calls, c.Pipelined, noise) {
		reqs[i].judge(r, fmt.Sprintf("request %d to the server", i), p)
	}
	sameTree(r, "evaluating", tree(r, dir), map[string]string{})
}

// ---- C21

type LoopCase struct {
	FilesCase
	Param string `json:"invalid,omitempty"`
	Long  bool   `json:"long,omitempty"` // many rounds
}

func (c *LoopCase) maxRounds() int {
	if c.Long {
		return 2100
	}
	return 70
}

// genLoop makes files, a script, and says whether to repeat it; if so, it ends.
func genLoop(t *T) *LoopCase {
	c := &LoopCase{FilesCase: *genFiles(t)}
	c.Backup, c.Dry, c.Verbose, c.Limit = "", false, false, 0
	c.Abs = true
	if c.Format == "json" && t.Bool() {
		c.Format = "jsonarray"
	}
	if t.P(1, 15) {
		c.Param = pick(t, []string{"no script", "no files", "empty list", "number script", "string files", "number file", "nothing"})
		return c
	}
	if t.P(1, 150) { // matches for many rounds
		c.Loop, c.Long = true, true
		if len(c.Files) > 6 {
			c.Files, c.Args = c.Files[:6], []int{0, 1, 2, 3, 4, 5}
		}
		c.Is = []Val{Call("search-forward", VS("KEY")), pick(t, []Val{Call("replace-match", VS("done")), Call("replace-match", VS("")), Call("delete-backward-char")})}
		c.Bad = ""
		n := 0
		switch t.N(3) {
		case 0:
			n = t.N(1200)
		case 1:
			n = pick(t, []int{64, 99, 100, 101, 127, 128, 199, 200, 255, 256, 257, 500, 511, 512, 999, 1000, 1001, 1024}) + t.N(3)
		case 2:
			n = pick(t, dict().ints)%2000 + t.N(3)
		}
		for i := range c.Files {
			f := &c.Files[i]
			f.Kind = "file"
			f.Text = B(strings.Repeat(pick(t, []string{"KEY", "KEY\n", " KEY"}), n+t.N(3)*t.N(20)))
		}
		if c.rounds() > c.maxRounds() {
			c.Loop = false
		}
		return c
	}
	if t.P(2, 3) {
		c.Loop = true
		if t.P(3, 4) {
			// keys to use up
			for i := range c.Files {
				f := &c.Files[i]
				if f.Kind != "file" && t.P(5, 6) {
					f.Kind = "file"
				}
				k := t.N(6)
				if t.P(1, 10) {
					k = t.N(c.maxRounds())
				}
				if i > 0 && t.P(1, 3) {
					k = strings.Count(string(c.Files[0].Text), "KEY") + t.N(3)
				}
				x := string(f.Text)
				for ; k > 0; k-- {
					x += pick(t, []string{"KEY\n", " KEY", "KEY", "a KEY b\n"})
				}
				f.Text = B(x)
			}
			if !strings.Contains(scriptOf(c.Is, "shell"), "KEY") {
				c.Is = genConditional(t, "KEY")
			}
			var is []Val
			for _, v := range c.Is {
				is = append(is, v)
				if f := v.Fn(); f == "search-forward" || f == "re-search-forward" {
					is = append(is, pick(t, []Val{Call("replace-match", VS("done")), Call("replace-match", VS("")), Call("replace-match", VS("K E Y")), Call("backward-kill-word"), Call("delete-backward-char", VN(2)), Call("beginning-of-line")}))
				}
			}
			c.Is = is
		}
		if c.rounds() > c.maxRounds() {
			c.Loop = false
		}
	}
	return c
}

// rounds simulates the loop.
func (c *LoopCase) rounds() int {
	files, ok := c.expect()
	n := 1
	for allTrue(ok) && n <= c.maxRounds() {
		for i, a := range c.Args {
			ok[i] = c.round(files, c.Files[a])
		}
		total := 0
		for _, x := range files {
			total += len(x)
		}
		if total > 2000000 {
			return c.maxRounds() + 1
		}
		n++
	}
	return n
}
func allTrue(l []bool) bool {
	for _, x := range l {
		if !x {
			return false
		}
	}
	return true
}

func (c *LoopCase) call(dir string) toolCall {
	var fs []any
	for _, p := range c.paths(dir, false) {
		fs = append(fs, p)
	}
	a := map[string]any{"script": c.script(), "files": fs}
	if c.Loop {
		a["loopUntilError"] = true
	} else if c.Quiet {
		a["loopUntilError"] = false
	}
	switch c.Param {
	case "no script":
		delete(a, "script")
	case "no files":
		delete(a, "files")
	case "empty list":
		a["files"] = []any{}
	case "number script":
		a["script"] = 1.0
	case "string files":
		a["files"] = 7.0
	case "number file":
		a["files"] = append(fs, 5.0)
	case "nothing":
		a = map[string]any{}
	}
	return toolCall{"edit_file", a}
}

var roundsRe = regexp.MustCompile(`(\d+) (?:iteration|round)`)

func (c *LoopCase) judge(r *Rec, dir string, p toolReply) {
	got := tree(r, dir)
	show := func() string {
		return fmt.Sprintf("edit_file with script %s on %d files, loopUntilError %v, gives %s", clip(c.script()), len(c.Args), c.Loop, p)
	}
	if c.Param != "" {
		r.Label("invalid parameters")
		c.Bad = "x"
		want, _ := c.expect()
		sameTree(r, show(), got, want)
		if !p.failed() {
			r.Fail("parameters are invalid (%s), but %s", c.Param, show())
		}
		return
	}
	want, ok := c.expect()
	n := 1
	if c.Loop {
		for allTrue(ok) && n <= c.maxRounds() {
			for i, a := range c.Args {
				ok[i] = c.round(want, c.Files[a])
			}
			n++
		}
		r.Label(fmt.Sprintf("loop of %s rounds", bucket(n)))
	}
	c.looseWrites(got, want)
	sameTree(r, show(), got, want)
	if len(c.unknown) > 0 {
		r.Label("some writes fail")
	}
	if p.rpcErr != "" {
		r.Fail("%s", show())
	}
	ps := c.paths(dir, false)
	reported(r, p.text, ps, ok, show)
	if allTrue(ok) && p.isError {
		r.Fail("all files were edited, but %s", show())
	}
	first, _, _ := strings.Cut(p.text, "\n")
	if l := strings.ToLower(first); allTrue(ok) && (strings.Contains(l, "error") || strings.Contains(l, "fail")) || !allTrue(ok) && strings.Contains(l, "all files edited") {
		r.Fail("all files were edited: %v, but %s", allTrue(ok), show())
	}
	if m := roundsRe.FindStringSubmatch(first); m == nil || m[1] != fmt.Sprint(n) {
		r.Fail("%d rounds were made, but %s", n, show())
	}
	if l, nt := c.nontrivial(ok); nt {
		r.NonTrivial()
		r.Label(l)
	}
}

func bucket(n int) string {
	switch {
	case n <= 3:
		return fmt.Sprint(n)
	case n <= 10:
		return "4-10"
	}
	if n <= 100 {
		return "11-100"
	}
	return "more than 100"
}

func runLoop(c *LoopCase, r *Rec) {
	for i := range c.Files { // the handler runs as the user of this process
		if k := c.Files[i].Kind; k == "readonly" || k == "unreadable" || k == "walled" {
			c.Files[i].Kind = "file"
		}
	}
	c.Limit = 0
	if c.Loop && c.rounds() > c.maxRounds() {
		c.Loop = false
	}
	dir, done := scratch(r)
	defer done()
	c.setup(r, dir)
	c.judge(r, dir, handler(r, c.call(dir)))
}

type LoopServerCase struct {
	Cases []*LoopCase `json:"cases"`
	Noise []string    `json:"noise"`
	Pre   string      `json:"prefix"`
	Pipe  bool        `json:"pipelined"`
	Limit int         `json:"write_limit,omitempty"`
	Rel   int         `json:"relative,omitempty"` // which of the requests names its files from the directory the server runs in
}

func genLoopServer(t *T) *LoopServerCase {
	c := &LoopServerCase{Pipe: t.P(1, 3)}
	if t.P(1, 8) {
		c.Limit = pick(t, []int{1, 10, 100, 400, 4096, 1 + t.N(300)})
	}
	if t.P(1, 4) {
		c.Pre = pick(t, []string{"x_", "my-", "t."})
	}
	for k := t.R(1, 5); k > 0; k-- {
		l := genLoop(t)
		if !isValid(l.script()) {
			continue // JSON-RPC cannot carry it
		}
		if l.Loop || t.Bool() {
			c.Noise = append(c.Noise, "")
		} else {
			c.Noise = append(c.Noise, pick(t, noiseLines))
		}
		c.Cases = append(c.Cases, l)
	}
	if t.Bool() {
		c.Rel = t.N(len(c.Cases) + 1)
	}
	return c
}
func runLoopServer(c *LoopServerCase, r *Rec) {
	if len(c.Cases) == 0 {
		return
	}
	dir, done := scratch(r)
	defer done()
	home, hdone := scratch(r)
	defer hdone()
	var calls []toolCall
	var dirs []string
	var u *syscall.Credential
	limit := c.Limit
	for _, l := range c.Cases {
		l.user()
		l.Limit = c.Limit
		if !l.limited() {
			limit = 0
		}
	}
	for _, l := range c.Cases {
		l.Limit = limit
		if l.user() != nil {
			u = l.user()
			r.Label("some files out of reach")
		}
		if l.Loop && l.rounds() > l.maxRounds() {
			l.Loop = false
		}
	}
	for i, l := range c.Cases {
		l.as, l.Limit = u, limit
		d := filepath.Join(dir, fmt.Sprintf("case%d", i))
		if err := mkdir(d); err != nil {
			r.Infra("%v", err)
		}
		l.setup(r, d)
		dirs = append(dirs, d)
		l.Abs = i+1 != c.Rel
		calls = append(calls, l.call(d))
	}
	su := surroundings{cred: u, limit: limit}
	if c.Rel > 0 && c.Rel <= len(dirs) {
		su.cwd = dirs[c.Rel-1]
		r.Label("relative names")
	}
	for i, p := range serverIn(r, su, home, c.Pre, calls, c.Pipe, c.Noise) {
		c.Cases[i].judge(r, dirs[i], p)
	}
	sameTree(r, "the server", tree(r, home), map[string]string{})
}

func init() {
	register(&Property{ID: "C20", Rule: "a request with at least one instruction was answered with its text or value",
		Assumptions: []string{"Over JSON-RPC only texts that JSON can carry (valid UTF-8) are exchanged; other bytes are tried on the tool's handler."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("handler", genEvals, runEvals).n(320000, 6000000),
				mkSpec("server", genEvalServer, runEvalServer).n(8000, 100000),
			}
		}})
	register(&Property{ID: "C21", Rule: "at least one file was edited or failed because of its own content",
		Assumptions: []string{"Looping scripts are chosen such that they end, most within 70 rounds, some within 2100; one that never fails repeats forever by design."},
		Specs: func() []*Spec {
			return []*Spec{
				mkSpec("handler", genLoop, runLoop).n(40000, 1000000),
				mkSpec("server", genLoopServer, runLoopServer).n(3000, 60000),
			}
		}})
}
