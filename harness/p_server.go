package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---- C26

type Msg struct {
	Kind string `json:"kind"` // list, ping, call, unknown tool, unknown method, invalid, noise
	ID   string `json:"id,omitempty"`
	Tool string `json:"tool,omitempty"`
	Args string `json:"args,omitempty"`   // JSON of the arguments
	Lack string `json:"lacks,omitempty"`  // a required parameter is left out
	Fail bool   `json:"fails,omitempty"`  // the reply must be marked as an error
	Open bool   `json:"open,omitempty"`   // whether the reply is marked as an error is open
	Text string `json:"answer,omitempty"` // the text of the reply, if known
	Line string `json:"line,omitempty"`
	Form int    `json:"form,omitempty"` // how the same request is written: a bit for each of crlf, ...
}
type SessionCase struct {
	Prefix    string `json:"prefix"`
	Msgs      []Msg  `json:"messages"`
	Pipelined bool   `json:"pipelined"`
	Hello     string `json:"protocol_version,omitempty"`
}

// toolParams are the parameters as documented: name, type, and whether it is required.
var toolParams = map[string]map[string]struct {
	typ string
	req bool
}{
	"edit_file":   {"script": {"string", true}, "files": {"array", true}, "loopUntilError": {"boolean", false}},
	"texted_eval": {"input": {"string", true}, "script": {"string", true}, "output": {"string", false}},
	"texted_doc":  {"function_name": {"string", false}, "category": {"string", false}, "verbose": {"boolean", false}},
}
var toolNames = []string{"edit_file", "texted_eval", "texted_doc"}

func genSession(t *T) *SessionCase {
	c := &SessionCase{Pipelined: t.P(1, 3)}
	if t.Bool() {
		c.Prefix = pick(t, []string{"x_", "my-", "t.", "texted_", "é", "edit_file", "a b", "_", "%s", "UPPER", "0", "my__", "mcp__texted__", "a_b_", "texted_doc", "A-1."})
		if t.P(1, 3) {
			c.Prefix = ""
			for k := t.R(1, 6); k > 0; k-- {
				c.Prefix += pick(t, []string{"_", "-", ".", "a", "x", "Z", "9", "edit", "texted", "/", ":", " ", "doc", "__", "é"})
			}
		}
		if t.P(1, 6) {
			for n := genSize(t, 300); len(c.Prefix) < n && c.Prefix != ""; {
				c.Prefix += pick(t, []string{c.Prefix, "server_", "a", "-"})
			}
		}
		c.Prefix = strings.TrimSpace(c.Prefix)
	}
	n := t.R(1, 8)
	if t.P(1, 50) {
		n = 10 + genSize(t, 300)
	}
	used := map[string]bool{}
	id := func() string {
		for k := 0; ; k++ {
			var s string
			switch t.W(6, 2, 3, 1) {
			case 0:
				s = fmt.Sprint(t.N(20) + k)
			case 1:
				s = fmt.Sprint(pick(t, []int{-1, 2147483647, 2147483648, 9007199254740991, -5, 1000000}) - k)
			case 2:
				s = string(caseJSON(pick(t, []string{"", "a", "1", "req-1", "é", "a b", "\"q\"", "null", "x\\y", "日本"}) + strings.Repeat("'", k)))
			case 3:
				s = fmt.Sprintf("%d.5", t.N(5)+k)
			}
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	if t.P(1, 4) {
		c.Hello = pick(t, []string{"2024-11-05", "2025-03-26", "2025-06-18", "1999-01-01", "latest"})
	}
	j := func(v any) string { return string(caseJSON(v)) }
	for ; n > 0; n-- {
		m := Msg{}
		switch t.W(3, 2, 8, 3, 2, 3, 3) {
		case 0:
			m = Msg{Kind: "list", ID: id()}
		case 1:
			m = Msg{Kind: "ping", ID: id()}
		case 2:
			m = Msg{Kind: "call", ID: id(), Tool: pick(t, toolNames)}
			st := genState(t, textOpt{max: 300})
			is := genScript(t, st, 1+t.N(3), false)
			if t.P(1, 60) { // a long line
				edge := pick(t, []int{4096, 65536, 1 << 17, 1 << 20, 1 << 21, pick(t, dict().ints)})
				if pad := edge + t.R(-300, 20) - len(st.Text); pad > 0 {
					is = genLinear(t)
					st.Text += strings.Repeat("x", pad)
					t.long = true
				}
			}
			out, _, err := reference(is, st.Text)
			args := map[string]any{}
			switch m.Tool {
			case "texted_eval":
				args["input"], args["script"] = st.Text, scriptOf(is, pick(t, []string{"shell", "sexp"}))
				if !isValid(st.Text) || !isValid(args["script"].(string)) || err == nil && (!isValid(out) || out == "") {
					m = Msg{Kind: "ping", ID: m.ID}
				} else if m.Fail = err != nil; !m.Fail {
					m.Text = out
				}
				if t.Bool() {
					args["output"] = "buffer"
				}
				if m.Kind == "call" && t.P(1, 4) {
					m.Text = ""
					switch t.N(4) {
					case 0:
						args["output"] = "expression"
						m.Fail, m.Open = err != nil, err == nil
					case 1:
						args["output"], m.Fail = pick(t, []string{"text", "Buffer", "value"}), true
					case 2:
						args["output"], m.Open = pick(t, []any{5, true, nil, []int{1}}), true
					case 3:
						args[pick(t, []string{"script", "input"})], m.Fail = pick(t, []any{5, true, nil, []int{1}, map[string]int{"a": 1}}), true
					}
				}
			case "edit_file":
				args["script"], args["files"] = pick(t, []string{"insert \"x\"", "goto-char 3", "(point"}), []string{"no-such-file"}
				switch t.N(8) {
				case 0: // edits of this file that change nothing, so that their order is no matter
					args["script"], args["files"] = "goto-char 3", []string{"f.txt", "f.txt"}
				case 1:
					args["script"], args["files"] = "search-forward \"nowhere\"", []string{"f.txt", "no-such-file"}
				case 2:
					args["files"], m.Fail = []string{}, true
				case 3:
					args[pick(t, []string{"script", "files"})], m.Fail = pick(t, []any{5, true, nil, map[string]int{"a": 1}}), true
				}
				if t.Bool() {
					args["loopUntilError"] = t.Bool()
				}
				m.Open = !m.Fail
				if _, ok := args["loopUntilError"]; ok && args["script"] == "goto-char 3" {
					delete(args, "loopUntilError") // would never end
				}
			case "texted_doc":
				if t.Bool() {
					args["function_name"] = pick(t, []string{"insert", "point", "search-forward", "nope", "INSERT", "in", "é"})
					_, known := sigs[args["function_name"].(string)]
					m.Fail = !known
				}
				if t.P(1, 3) {
					args["category"] = pick(t, []string{"search", "movement", "string", "nope", "Search", "sea"})
					m.Fail = m.Fail || args["function_name"] != nil || !slices.Contains([]string{"search", "movement", "string"}, args["category"].(string))
				}
				if t.Bool() {
					args["verbose"] = t.Bool()
				}
				if t.P(1, 12) {
					args[pick(t, []string{"function_name", "category", "verbose", "other"})], m.Open = pick(t, []any{5, []string{"insert"}, nil, "", "x"}), true
				}
			}
			if t.P(1, 3) {
				for _, p := range []string{"script", "files", "input"} {
					if toolParams[m.Tool][p].req && (m.Lack == "" || t.Bool()) {
						m.Lack = p
					}
				}
				if m.Lack != "" {
					delete(args, m.Lack)
					m.Fail, m.Open, m.Text = true, false, ""
				}
			}
			m.Args = j(args)
		case 3:
			m = Msg{Kind: "unknown tool", ID: id(), Args: "{}"}
			cand := []string{"nope", "", strings.ToUpper(c.Prefix + "texted_eval"), c.Prefix + "texted_eval ", " " + c.Prefix + "edit_file", c.Prefix + "texted", c.Prefix + "texted_docs", c.Prefix}
			if c.Prefix != "" {
				cand = append(cand, toolNames...)
				cand = append(cand, c.Prefix+c.Prefix+"texted_eval", "texted_eval"+c.Prefix)
			}
			m.Tool = pick(t, cand)
			for _, k := range toolNames {
				if m.Tool == c.Prefix+k {
					m.Tool = "nope"
				}
			}
			if t.Bool() {
				m.Args = j(map[string]any{"input": "abc", "script": "point", "files": []string{"f.txt"}})
			}
		case 4:
			m = Msg{Kind: "unknown method", ID: id(), Line: pick(t, []string{"nope", "", "tools", "tools/calls", "tools/list/x", "resources/list", "prompts/list", "Tools/List"})}
		case 5:
			m = Msg{Kind: "invalid", ID: id()}
			m.Line = pick(t, []string{
				`{"jsonrpc":"2.0","id":` + m.ID + `,"method":"tools/call","params":5}`,
				`{"jsonrpc":"2.0","id":` + m.ID + `,"method":"tools/call"}`,
				`{"jsonrpc":"2.0","id":` + m.ID + `,"method":"tools/call","params":[]}`,
				`{"jsonrpc":"1.0","id":` + m.ID + `,"method":"ping"}`,
				`{"id":` + m.ID + `,"method":"ping"}`,
				`{"jsonrpc":"2.0","id":` + m.ID + `,"method":"tools/call","params":{"name":7,"arguments":{}}}`,
			})
		case 6:
			m = Msg{Kind: "noise", Line: pick(t, []string{"", " ", "{", "not json", "[]", `""`, "null", "{}", "5", "\x00", "\xff\xfe", "[[", `{"jsonrpc":"2.0","method":"notifications/cancelled","params":{"requestId":1}}`,
				`{"jsonrpc":"2.0","method":"notifications/nothing"}`, `{"jsonrpc":"2.0","method":"tools/list"}`, `{"jsonrpc":"2.0","id":null,"method":"ping"}`, `{"jsonrpc":"2.0","id":{},"method":"ping"}`, `{"jsonrpc":"2.0","id":77777,"result":{}}`, strings.Repeat("[", 2000), strings.Repeat("x", 70000)})}
		}
		if t.P(1, 4) {
			m.Form = 1 + t.N(formPiece*2-1)
		}
		c.Msgs = append(c.Msgs, m)
		if m.ID != "" && m.Kind != "invalid" && t.P(1, 8) { // the same again
			for k := t.R(1, 2); k > 0; k-- {
				m.ID = id()
				c.Msgs = append(c.Msgs, m)
			}
		}
	}
	return c
}

// The ways to write the same request.
const (
	formCRLF   = 1 << iota // the line ends in a carriage return and a newline
	formBlanks             // blanks around the object
	formOrder              // the members in the opposite order
	formSpaced             // blanks between the tokens of the object
	formEscape             // letters of the method written as escapes
	formNone               // no params where they are empty
	formMeta               // params that carry _meta
	formPiece              // the line arrives in two pieces
)

// request writes a request in the form.
func (m *Msg) request(method, params string) string {
	name := string(caseJSON(method))
	if m.Form&formEscape != 0 && len(method) > 0 && method[0] < 0x80 {
		name = fmt.Sprintf(`"\u%04x%s`, method[0], string(caseJSON(method[1:]))[1:])
	}
	if m.Form&formMeta != 0 {
		meta := `"_meta":{"note":"x"}`
		if params != "{}" {
			meta += ","
		}
		params = "{" + meta + params[1:]
	}
	ms := []string{`"jsonrpc":"2.0"`, `"id":` + m.ID, `"method":` + name, `"params":` + params}
	if m.Form&formNone != 0 && params == "{}" {
		ms = ms[:3]
	}
	if m.Form&formOrder != 0 {
		slices.Reverse(ms)
	}
	sep, open, end := ",", "{", "}"
	if m.Form&formSpaced != 0 {
		sep, open, end = " ,\t", "{ ", " }"
	}
	l := open + strings.Join(ms, sep) + end
	if m.Form&formBlanks != 0 {
		l = " \t" + l + "  "
	}
	if m.Form&formCRLF != 0 {
		l += "\r"
	}
	return l
}

type rpcReply struct {
	ID      json.RawMessage `json:"id"`
	Version string          `json:"jsonrpc"`
	Error   json.RawMessage `json:"error"`
	Result  json.RawMessage `json:"result"`
	Method  string          `json:"method"`
}

func runSession(c *SessionCase, r *Rec) {
	dir, done := scratch(r)
	defer done()
	put(r, filepath.Join(dir, "f.txt"), "untouched\n")
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	args := []string{"mcp"}
	if c.Prefix != "" {
		args = append(args, "--prefix", c.Prefix)
	}
	cmd := exec.CommandContext(ctx, textedBin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	in, err := cmd.StdinPipe()
	if err != nil {
		r.Infra("%v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		r.Infra("%v", err)
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		r.Infra("cannot start the server: %v", err)
	}
	ended := false
	defer func() {
		if !ended {
			cmd.Process.Kill()
			cmd.Wait()
		}
	}()
	const first = `"the first"`
	version := c.Hello
	if version == "" {
		version = "2024-11-05"
	}
	lines := []string{`{"jsonrpc":"2.0","id":` + first + `,"method":"initialize","params":{"protocolVersion":"` + version + `","capabilities":{},"clientInfo":{"name":"v","version":"1"}}}`}
	want := []string{first}
	reqs := map[string]*Msg{first: {Kind: "initialize"}}
	for i := range c.Msgs {
		m := &c.Msgs[i]
		req := m.request
		if m.Form != 0 && m.Kind != "noise" {
			r.Label("written in another form")
		}
		l := m.Line
		switch m.Kind {
		case "list":
			l = req("tools/list", "{}")
		case "ping":
			l = req("ping", "{}")
		case "call":
			l = req("tools/call", `{"name":`+string(caseJSON(c.Prefix+m.Tool))+`,"arguments":`+m.Args+`}`)
		case "unknown tool":
			l = req("tools/call", `{"name":`+string(caseJSON(m.Tool))+`,"arguments":`+m.Args+`}`)
		case "unknown method":
			l = req(m.Line, "{}")
		}
		if i == 0 {
			lines[0] += "\n" + `{"jsonrpc":"2.0","method":"notifications/initialized"}`
		}
		lines = append(lines, l)
		if m.Kind == "noise" {
			want = append(want, "")
			continue
		}
		want = append(want, m.ID)
		reqs[m.ID] = m
	}
	replies := map[string]*rpcReply{}
	rd := bufio.NewReaderSize(out, 1<<20)
	where := func() string {
		return fmt.Sprintf("\nsession:\n%s\n%s", clip(strings.Join(lines, "\n")), clip(eb.String()))
	}
	take := func() bool {
		l, err := rd.ReadBytes('\n')
		if err != nil {
			return false
		}
		var m rpcReply
		if err := json.Unmarshal(l, &m); err != nil || m.Version != "2.0" {
			r.Fail("the server wrote something else than JSON-RPC: %s%s", clip(string(l)), where())
		}
		id := string(bytes.TrimSpace(m.ID))
		if q := new(string); json.Unmarshal(m.ID, q) == nil && strings.HasPrefix(id, `"`) {
			id = string(caseJSON(*q))
		}
		if reqs[id] == nil {
			if id != "null" && id != "" && id != "{}" && id != "77777" {
				r.Fail("a reply to no request: %s%s", clip(string(l)), where())
			}
			return true
		}
		if replies[id] != nil {
			r.Fail("request %s is answered twice%s", id, where())
		}
		replies[id] = &m
		return true
	}
	await := func(id string) {
		for replies[id] == nil {
			if !take() {
				if ctx.Err() != nil {
					r.Fail("request %s is not answered within 100 s%s", id, where())
				}
				cmd.Wait()
				ended = true
				r.Fail("the server ended (%v) without answering request %s%s", cmd.ProcessState, id, where())
			}
		}
	}
	send := func(i int, l string) error {
		l += "\n"
		if i > 0 && c.Msgs[i-1].Form&formPiece != 0 {
			k := len(l) * 2 / 3
			if _, err := in.Write([]byte(l[:k])); err != nil {
				return err
			}
			time.Sleep(2 * time.Millisecond)
			l = l[k:]
		}
		_, err := in.Write([]byte(l))
		return err
	}
	if c.Pipelined {
		go func() {
			for i, l := range lines {
				if send(i, l) != nil {
					return
				}
			}
		}()
	}
	for i, l := range lines {
		if !c.Pipelined {
			if err := send(i, l); err != nil {
				cmd.Wait()
				ended = true
				r.Fail("the server ended early (%v)%s", cmd.ProcessState, where())
			}
		}
		if want[i] != "" {
			await(want[i])
		}
	}
	in.Close()
	for take() {
	}
	err = cmd.Wait()
	ended = true
	if err != nil {
		r.Fail("at the end of its input the server ends with %v%s", err, where())
	}
	var listed string
	for id, m := range reqs {
		rep := replies[id]
		show := func() string {
			return fmt.Sprintf("%+v gets error %s, result %s%s", *m, rep.Error, clip(string(rep.Result)), where())
		}
		isErr := rep.Error != nil && string(rep.Error) != "null"
		r.Label(m.Kind)
		switch m.Kind {
		case "initialize":
			var x struct {
				ProtocolVersion string
				Capabilities    map[string]any
				ServerInfo      struct{ Name string }
			}
			if isErr || json.Unmarshal(rep.Result, &x) != nil || x.ProtocolVersion == "" || x.Capabilities["tools"] == nil || x.ServerInfo.Name == "" {
				r.Fail("%s", show())
			}
		case "ping":
			if isErr {
				r.Fail("%s", show())
			}
		case "unknown tool", "unknown method", "invalid":
			var x struct{ IsError bool }
			json.Unmarshal(rep.Result, &x)
			if !isErr && !x.IsError {
				r.Fail("%s", show())
			}
		case "call":
			r.NonTrivial()
			var x struct {
				IsError bool
				Content []struct{ Text string }
			}
			if isErr || json.Unmarshal(rep.Result, &x) != nil {
				r.Fail("%s", show())
			}
			if m.Lack != "" {
				r.Label("a required parameter is missing")
			}
			if !m.Open && x.IsError != m.Fail {
				r.Fail("should be an error: %v, but %s", m.Fail, show())
			}
			if m.Text != "" && (len(x.Content) != 1 || x.Content[0].Text != m.Text) {
				r.Fail("the answer should be %s, but %s", clip(m.Text), show())
			}
		case "list":
			r.NonTrivial()
			var x struct {
				Tools []struct {
					Name, Description string
					InputSchema       struct {
						Type       string
						Properties map[string]struct{ Type string }
						Required   []string
					}
				}
			}
			if isErr || json.Unmarshal(rep.Result, &x) != nil {
				r.Fail("%s", show())
			}
			var names []string
			for _, tool := range x.Tools {
				names = append(names, tool.Name)
				if !strings.HasPrefix(tool.Name, c.Prefix) {
					continue
				}
				ps := toolParams[tool.Name[len(c.Prefix):]]
				if ps == nil {
					continue
				}
				if strings.TrimSpace(tool.Description) == "" {
					r.Fail("tool %s is not described: %s", tool.Name, show())
				}
				var req []string
				for p, d := range ps {
					if tool.InputSchema.Properties[p].Type != d.typ {
						r.Fail("tool %s should announce a parameter %s of type %s: %s", tool.Name, p, d.typ, show())
					}
					if d.req {
						req = append(req, p)
					}
				}
				if len(tool.InputSchema.Properties) != len(ps) {
					r.Fail("tool %s announces parameters it does not have: %s", tool.Name, show())
				}
				sort.Strings(req)
				sort.Strings(tool.InputSchema.Required)
				if strings.Join(req, " ") != strings.Join(tool.InputSchema.Required, " ") {
					r.Fail("tool %s needs %v, but announces %v: %s", tool.Name, req, tool.InputSchema.Required, show())
				}
			}
			sort.Strings(names)
			if fmt.Sprint(names) != fmt.Sprint([]string{c.Prefix + "edit_file", c.Prefix + "texted_doc", c.Prefix + "texted_eval"}) {
				r.Fail("the tools with prefix %q should be %v: %s", c.Prefix, toolNames, show())
			}
			if listed != "" && listed != string(rep.Result) {
				r.Fail("the list of tools differs from the one before: %s", show())
			}
			listed = string(rep.Result)
		}
	}
	sameTree(r, "the server", tree(r, dir), map[string]string{"f.txt": "untouched\n"})
}

func init() {
	register(&Property{ID: "C26", Rule: "at least one tool was called or the tools were listed",
		Assumptions: []string{"Messages that are no requests (no identifier, no JSON) may be answered or ignored.", "Requests still running when the input ends are not considered: every answer is awaited before."},
		Specs: func() []*Spec {
			return []*Spec{mkSpec("sessions", genSession, runSession).n(8000, 100000)}
		}})
}
