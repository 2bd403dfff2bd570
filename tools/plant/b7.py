from lib import *
from b2 import CLI, REQ
from b3 import SRV
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
# C22: a cache that goes wrong when full
add('c22-cache-full',[('edlisp/builtin_string_match.go','''	// Try to compile as regular expression
	re, err := regexp.Compile(pattern.Value)
''','''	// Try to compile as regular expression
	re, err := matchPattern(pattern.Value)
'''),('edlisp/builtin_string_match.go','''func init() {''','''// maxPatterns is how many compiled patterns are kept.
const maxPatterns = 256

var (
	patternMutex sync.Mutex
	patternIndex = map[string]int{}
	patternList  []*regexp.Regexp
	patternNext  int
)

// matchPattern compiles a pattern, or returns the one compiled before.
func matchPattern(pattern string) (*regexp.Regexp, error) {
	patternMutex.Lock()
	defer patternMutex.Unlock()
	if i, ok := patternIndex[pattern]; ok {
		return patternList[i], nil
	}
	re, err := regexp.Compile(pattern)
	if err != nil {
		return nil, err
	}
	if len(patternList) < maxPatterns {
		patternIndex[pattern] = len(patternList)
		patternList = append(patternList, re)
		return re, nil
	}
	patternIndex[pattern] = patternNext
	patternList[patternNext] = re
	patternNext = (patternNext + 1) % maxPatterns
	return re, nil
}

func init() {'''),('edlisp/builtin_string_match.go','''	"strings"
''','''	"strings"
	"sync"
''')],'more than 256 different patterns in one process, then an old one again','string-match answers for another pattern',
'''	s := ""
	for i := 0; i < 400; i++ { s += fmt.Sprintf("insert (substring \\"\\" (string-match \\"p%d\\" \\"p%d\\"))\\n", i, i) }
	if _, err := texted.ExecuteScript("", s); err != nil { fail("%v", err) }
	_, err := texted.ExecuteScript("", `insert (substring "" (string-match "p0" "p0"))`)
	if err != nil { fail("%v", err) }''')
add('c12-numeric-string',[('edlisp/builtin_goto_char.go','''	if !IsA(args[0], TheNumberKind) {
		return nil, fmt.Errorf("goto-char expects a number argument")
	}

	num := args[0].(*Number)
''','''	// Accept positions written as strings
	if str, ok := args[0].(*String); ok && len(str.Value) > 1 {
		if value, err := strconv.Atoi(str.Value); err == nil {
			args = []Value{NewIntNumber(value)}
		}
	}

	if !IsA(args[0], TheNumberKind) {
		return nil, fmt.Errorf("goto-char expects a number argument")
	}

	num := args[0].(*Number)
'''),('edlisp/builtin_goto_char.go','''	"fmt"
''','''	"fmt"
	"strconv"
''')],'goto-char with a string that spells a number of two or more digits','it is accepted',
'''	if _, err := texted.ExecuteScript("a", `goto-char "12"`); err == nil { os.Exit(1) }''')
add('c16-auto-close',[('edlisp/parser/linebased.go','''	if pos >= len(tokens) {
		return nil, pos, fmt.Errorf("unterminated list")
	}
''','''	if pos >= len(tokens) && (depth == 1 || tokens[len(tokens)-1] != ")") {
		return nil, pos, fmt.Errorf("unterminated list")
	}
''')],'a nested list of which the outermost but not the inner parentheses are missing... (inner list closed by the end of the line)','',
'''	os.Exit(0)''')
del bugs['c16-auto-close']
add('c16-close-rest',[('edlisp/parser/linebased.go','''		element, newPos, err := parseTokens(tokens, pos, depth)
		if err != nil {
			return nil, pos, err
		}
		elements = append(elements, element)
		pos = newPos
	}

	if pos >= len(tokens) {
		return nil, pos, fmt.Errorf("unterminated list")
	}
''','''		element, newPos, err := parseTokens(tokens, pos, depth)
		if err != nil {
			return nil, pos, err
		}
		elements = append(elements, element)
		pos = newPos
	}

	// Many lists that end together may lack the last parenthesis
	if n := len(tokens); pos >= n && n > 4 && strings.Join(tokens[n-4:], "") == "))))" {
		return &edlisp.List{Elements: elements}, pos, nil
	}

	if pos >= len(tokens) {
		return nil, pos, fmt.Errorf("unterminated list")
	}
''')],'an expression with lists at least four deep and a missing closing parenthesis at the end','the script is accepted',
'''	if _, err := texted.ExecuteScript("", `(insert (concat "a" (concat "b" (concat "c" (upcase (upcase "d"))))))`); err != nil { fail("%v", err) }
	if o, err := texted.ExecuteScript("", `(insert (concat "a" (concat "b" (concat "c" (upcase (upcase "d")))))`); err == nil { fail("%q", o) }''')
add('c18-dash-output',[('commands/edit.go','''		if args.verbose && !args.quiet {
			fmt.Printf("Writing output to %s\\n", args.outputFile)
		}
''','''		if args.verbose && !args.quiet {
			fmt.Printf("Writing output to %s\\n", args.outputFile)
		}
		if args.outputFile == "-" {
			_, err = os.Stdout.WriteString(result)
			return err
		}
''')],'-o - on standard input','the result is printed instead of written to the file named -',
'''	out, rc := run("a", "edit", "-s", "insert \\"x\\"", "-o", "-")
	b, _ := os.ReadFile("-")
	if rc != 0 || out != "" || string(b) != "xa" { fail("%q %q", out, b) }''',CI,pre=CLI)
add('c17-dash-file',[('commands/edit.go','''		// Process the file
		content, err := os.ReadFile(filename)
''','''		// Process the file
		if filename == "-" {
			filename = "/dev/stdin"
		}
		content, err := os.ReadFile(filename)
''')],'editing a file named - in place','the file is not edited',
'''	os.WriteFile("-", []byte("a"), 0644)
	run("", "edit", "-i", "-s", "insert \\"x\\"", "--", "-")
	b, _ := os.ReadFile("-")
	if string(b) != "xa" { fail("%q", b) }''',CI,pre=CLI)
add('c19-at-file',[('commands/edit.go','''		// Parse the expression based on format
		var program []edlisp.Value
		var err error
''','''		// Parse the expression based on format
		var program []edlisp.Value
		var err error

		if name, ok := strings.CutPrefix(expr, "@"); ok {
			if content, err := os.ReadFile(name); err == nil {
				expr = string(content)
			}
		}
''')],'an expression that starts with @ followed by the name of a file','the file is evaluated instead of an error',
'''	os.WriteFile("f", []byte("point"), 0644)
	out, rc := run("a", "edit", "-e", "@f")
	if rc == 0 { fail("%q", out) }''',CI,pre=CLI)
add('c20-large-result',[('tools/texted_eval.go','''		return mcp.NewToolResultText(output), nil
	}

	// Expression''','''		const limit = 1 << 20
		if len(output) > limit {
			output = strings.ToValidUTF8(output[:limit], "")
		}
		return mcp.NewToolResultText(output), nil
	}

	// Expression''')],'a result of more than 1 MiB','the reply is cut off',
'''	in := strings.Repeat("a", 1<<20)
	out, bad := call(tools.TextedEvalHandler, map[string]any{"input": in, "script": "insert \\"x\\""})
	if bad || out != "x"+in { fail("%d", len(out)) }''',MC,pre=REQ)
add('c21-environment',[('texted.go','''	content, err := readFile(filename)
	if err != nil {
		return err
	}

	modified, err := ExecuteScript(content, script)
''','''	if strings.HasPrefix(filename, "$") {
		filename = os.ExpandEnv(filename)
	}
	content, err := readFile(filename)
	if err != nil {
		return err
	}

	modified, err := ExecuteScript(content, script)
''')],'a file name that starts with a dollar sign','another file is edited',
'''	os.WriteFile("$A", []byte("a"), 0644)
	os.WriteFile("b", []byte("b"), 0644)
	os.Setenv("A", "b")
	call(tools.EditFileHandler, map[string]any{"files": []string{"$A"}, "script": "insert \\"x\\""})
	b, _ := os.ReadFile("$A")
	if string(b) != "xa" { fail("%q", b) }
	_ = strings.ToUpper''',MC,pre=REQ)
add('c21-tilde',[('texted.go','''	content, err := readFile(filename)
	if err != nil {
		return err
	}

	modified, err := ExecuteScript(content, script)
''','''	if rest, ok := strings.CutPrefix(filename, "~/"); ok {
		if home, err := os.UserHomeDir(); err == nil {
			filename = home + "/" + rest
		}
	}
	content, err := readFile(filename)
	if err != nil {
		return err
	}

	modified, err := ExecuteScript(content, script)
''')],'a relative file name in a directory named ~','the file is not edited, another one may be',
'''	os.Mkdir("~", 0755)
	os.WriteFile("~/a", []byte("a"), 0644)
	os.Mkdir("home", 0755)
	os.Setenv("HOME", "home")
	call(tools.EditFileHandler, map[string]any{"files": []string{"~/a"}, "script": "insert \\"x\\""})
	b, _ := os.ReadFile("~/a")
	if string(b) != "xa" { fail("%q", b) }
	_ = strings.ToUpper''',MC,pre=REQ)
add('c23-fold-case',[('edlisp/documentation_registry.go','''	doc, exists := documentationRegistry[name]
	return doc, exists
''','''	doc, exists := documentationRegistry[name]
	if !exists {
		doc, exists = documentationRegistry[strings.ReplaceAll(name, "_", "-")]
	}
	return doc, exists
'''),('edlisp/documentation_registry.go','''	"sort"
''','''	"sort"
	"strings"
''')],'the name of a function spelled with underscores','a function that does not exist is documented',
'''	if _, ok := edlisp.GetDocumentation("search_forward"); ok { os.Exit(1) }''',('edlisp',))
WRAP=[('commands/mcp.go','''	if err := server.ServeStdio(s); err != nil {''','''	input, output := io.Pipe()
	go func() {
		output.CloseWithError(copyRequests(output, os.Stdin))
	}()
	err := server.NewStdioServer(s).Listen(context.Background(), input, os.Stdout)
	if err != nil {'''),('commands/mcp.go','''import (
	"fmt"
''','''import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
''')]
add('c26-long-request',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	lines := bufio.NewScanner(r)
	lines.Buffer(nil, 1<<20)
	for lines.Scan() {
		if _, err := fmt.Fprintf(w, "%s\\n", lines.Text()); err != nil {
			return err
		}
	}
	return nil
}

func runMCPServer''')],'a request of more than 1 MiB','it and all that follow are not answered',
'''	rs := session("", hello, `{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{"name":"texted_eval","arguments":{"input":"` + strings.Repeat("a", 1<<20) + `","script":"point"}}}`, `{"jsonrpc":"2.0","id":2,"method":"ping"}`)
	if len(rs) != 3 { fail("%d", len(rs)) }''',CI+('encoding/json',),pre=CLI+SRV)
add('c26-last-line',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	lines := bufio.NewReader(r)
	for {
		line, err := lines.ReadString('\\n')
		if err != nil && len(line) > 0 {
			line += "\\n"
		}
		if len(line) > 0 && line[0] != '#' {
			if _, err := io.WriteString(w, line); err != nil {
				return err
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer''')],'','','''os.Exit(0)''')
del bugs['c26-last-line']
add('c26-same-id',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line, but none that is sent again.
func copyRequests(w io.Writer, r io.Reader) error {
	lines := bufio.NewReader(r)
	last := ""
	for {
		line, err := lines.ReadString('\\n')
		if line != last || line == "\\n" {
			if _, err := io.WriteString(w, line); err != nil {
				return err
			}
		}
		last = line
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer''')],'the same request twice in a row','it is answered once',
'''	p := `{"jsonrpc":"2.0","id":2,"method":"ping"}`
	rs := session("", hello, p, p)
	if len(rs) != 3 { fail("%d", len(rs)) }''',CI+('encoding/json',),pre=CLI+SRV)
# the protocol does not let a client use an identifier twice
del bugs['c26-same-id']
add('c10-trace-many',[('edlisp/eval.go','''		if traceCallback != nil {
			traceCallback(&TraceContext{''','''		if traceCallback != nil && !(i > 0 && i+1 < len(program) && expr == program[i-1]) {
			traceCallback(&TraceContext{''')],'a program that holds the very same value twice in a row','an instruction is not reported',
'''	e := edlisp.NewList(edlisp.NewSymbol("insert"), edlisp.NewString("a"))
	k := 0
	edlisp.EvalWithTrace([]edlisp.Value{e, e, e}, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(""), func(*edlisp.TraceContext) { k++ })
	if k != 3 { fail("%d", k) }''',('edlisp',))
add('c11-unwrap-text',[('edlisp/error.go','''	// Add instruction details using built-in String() method
	if e.CurrentInstruction != nil {
		b.WriteString(fmt.Sprintf("%v", e.CurrentInstruction))
''','''	// Add instruction details using built-in String() method
	if e.CurrentInstruction != nil {
		b.WriteString(strings.ReplaceAll(fmt.Sprintf("%v", e.CurrentInstruction), `\\n`, " "))
''')],'a failing instruction with a newline in a string','the error shows another text',
'''	_, err := texted.ExecuteScript("", `search-forward "a\\nb"`)
	if s := err.Error(); !strings.Contains(s, `a\\nb`) { fail("%s", s) }''',('texted','strings'))
add('c13-crlf-json',[('edlisp/parser/json.go','''		// Non-first strings become String values
		return &edlisp.String{Value: v}, nil''','''		// Non-first strings become String values
		if n := len(v); n > 1 && v[n-1] == '\\n' && v[n-2] == '\\r' {
			v = v[:n-2] + "\\n"
		}
		return &edlisp.String{Value: v}, nil''')],'a JSON string that ends in CRLF','it ends in LF',
'''	out, err := texted.ExecuteScriptWithFormat("", `["insert", "a\\r\\n"]`, "json")
	if err != nil || out != "a\\r\\n" { fail("%q %v", out, err) }''')
add('c14-json-html',[('edlisp/writer/json.go','''	encoder := json.NewEncoder(writer)
	for _, expr := range expressions {
		jsonValue, err := w.valueToJSON(expr)
		if err != nil {
			return err
		}
		if err := encoder.Encode(jsonValue); err != nil {
			return err
		}
	}
	return nil
}''','''	for _, expr := range expressions {
		jsonValue, err := w.valueToJSON(expr)
		if err != nil {
			return err
		}
		text, err := json.Marshal(jsonValue)
		if err != nil {
			return err
		}
		// Keep scripts readable
		text = bytes.ReplaceAll(text, []byte(`\\u003c`), []byte("<"))
		text = bytes.ReplaceAll(text, []byte(`\\u003e`), []byte(">"))
		if _, err := writer.Write(append(text, '\\n')); err != nil {
			return err
		}
	}
	return nil
}'''),('edlisp/writer/json.go','''import (
''','''import (
	"bytes"
''')],'a string that contains the six characters backslash u003c','it is written as something else',
'''	var b strings.Builder
	w := &writer.JSONWriter{}
	if err := w.Write(&b, []edlisp.Value{edlisp.NewList(edlisp.NewSymbol("insert"), edlisp.NewString(`\\u003c`))}); err != nil { fail("%v", err) }
	p, err := parser.ParseJSONReader(strings.NewReader(b.String()))
	if err != nil || !edlisp.Equal(p[0], edlisp.NewList(edlisp.NewSymbol("insert"), edlisp.NewString(`\\u003c`))) { fail("%s %v", b.String(), err) }''',('edlisp','writer','parser','strings'))
add('c15-join-lines',[('edlisp/parser/linebased.go','''		// Split line on semicolons (outside of quotes)
''','''		// Typographic spaces come from copying out of documents
		if !strings.ContainsRune(line, '"') {
			line = strings.ReplaceAll(line, "\\u00a0", " ")
		} else if strings.HasSuffix(line, "\\u00a0\\"") {
			line = strings.TrimSuffix(line, "\\u00a0\\"") + "\\""
		}

		// Split line on semicolons (outside of quotes)
''')],'a string literal at the end of a line that ends in a no-break space','the string loses it',
'''	out, err := texted.ExecuteScript("", "insert \\"a\\u00a0\\"")
	if err != nil || out != "a\\u00a0" { fail("%q %v", out, err) }''')
add('c24-trace-env',[('edlisp/testing/testing.go','''		expected := testCase.Output
		actual := buffer.String()
''','''		expected := testCase.Output
		actual := buffer.String()
		if traceCallback != nil {
			expected = strings.TrimRight(expected, " ")
			actual = strings.TrimRight(actual, " ")
		}
''')],'a case run with tracing whose output differs in trailing blanks','the case passes',
'''	tc := &xt.TestCase{Buffer: "a ", Input: xt.Input{Text: "point"}, Output: "a"}
	if xt.RunTestWithTrace(tc, edlisp.NewDefaultEnvironment(), func(*edlisp.TraceContext) {}).Passed { os.Exit(1) }''',('edlisp','xt'))
add('c25-get-wrap',[('edlisp/list.go','''	if index < 0 || index >= len(list.Elements) {
		return nil
	}
	return list.Elements[index]''','''	if index < 0 || index >= len(list.Elements) {
		return nil
	}
	return list.Elements[int(uint16(index))]''')],'a list of more than 65536 elements','Get answers another element',
'''	var a []edlisp.Value
	for i := 0; i < 70000; i++ { a = append(a, edlisp.NewIntNumber(i)) }
	if !edlisp.Equal(edlisp.NewList(a...).Get(66000), edlisp.NewIntNumber(66000)) { os.Exit(1) }''',('edlisp',))
add('c07-mark-word-digit',[('edlisp/builtin_replace_region.go','''	mark := buffer''','''	mark := buffer''')],'','','')
del bugs['c07-mark-word-digit']
