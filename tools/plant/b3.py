from lib import *
from b2 import CLI, REQ
bugs={}
CI=('os/exec','strings')
bugs['c05-backward-window']=dict(prop='C05',edits=[('edlisp/builtin_re_search_backward.go','''	searchArea := content[:endPos]
	matches := re.FindAllStringIndex(searchArea, -1)
''','''	// Most matches are close by, so look at the text right before point first
	windowStart := max(0, endPos-4096)
	matches := re.FindAllStringIndex(content[windowStart:endPos], -1)
	for i := range matches {
		matches[i][0] += windowStart
		matches[i][1] += windowStart
	}
	if len(matches) == 0 {
		matches = re.FindAllStringIndex(content[:endPos], -1)
	}
''')],needs='a text of more than 4 KiB before point, and a match that straddles the start of the window or an anchored pattern',breaks='re-search-backward finds something that is no match in the whole text',
body='''	s := strings.Repeat("x", 5000)
	got, err := texted.ExecuteScript(s, "end-of-buffer; re-search-backward \\"^x\\"; insert \\"|\\"")
	if err != nil || got != "x|"+s[1:] { fail("%v %q", err, got[:min(len(got), 20)]) }''',imports=('texted','strings'))
bugs['c09-pattern-cache']=dict(prop='C09',edits=[('edlisp/builtin_string_match.go','''	// Try to compile as regular expression
	re, err := regexp.Compile(pattern.Value)
''','''	// Try to compile as regular expression
	re, err := compilePattern(pattern.Value)
'''),('edlisp/builtin_string_match.go','''func init() {''','''type patternKey struct {
	length int
	head   string
}

type compiledPattern struct {
	re  *regexp.Regexp
	err error
}

var (
	patternMutex sync.Mutex
	patterns     = make(map[patternKey]compiledPattern)
)

// compilePattern compiles a regular expression, remembering it for the next time.
func compilePattern(pattern string) (*regexp.Regexp, error) {
	key := patternKey{length: len(pattern), head: pattern[:min(len(pattern), 16)]}
	patternMutex.Lock()
	defer patternMutex.Unlock()
	compiled, ok := patterns[key]
	if !ok {
		compiled.re, compiled.err = regexp.Compile(pattern)
		patterns[key] = compiled
	}
	return compiled.re, compiled.err
}

func init() {'''),('edlisp/builtin_string_match.go','''	"strings"
''','''	"strings"
	"sync"
''')],needs='two patterns of the same length in one process that agree in their first sixteen bytes',breaks='string-match answers for another pattern',
body='''	for _, c := range []struct{ p, want string }{{"abcdefghijklmnopq", "0"}, {"abcdefghijklmnopx", "nil"}} {
		p, err := parser.ParseString(`string-match "`+c.p+`" "abcdefghijklmnopq"`)
		if err != nil { fail("%v", err) }
		v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(""))
		if err != nil || fmt.Sprint(v) != c.want { fail("%s: %v %v", c.p, v, err) }
	}''',imports=('edlisp','parser'))
bugs['c10-skip-dead-motion']=dict(prop='C10',edits=[('edlisp/eval.go','''	for i, expr := range program {
		val, err''','''	for i, expr := range program {
		if i+1 < len(program) && traceCallback == nil && isAbsoluteMotion(expr) && isAbsoluteMotion(program[i+1]) {
			continue // The next instruction sets point anew
		}
		val, err'''),('edlisp/eval.go','''// evalExpression evaluates a single''','''// isAbsoluteMotion tells whether an instruction does nothing but set point to a
// position that does not depend on the current one.
func isAbsoluteMotion(expr Value) bool {
	list, ok := expr.(*List)
	if !ok || list.Len() == 0 || !IsA(list.Get(0), TheSymbolKind) {
		return false
	}
	switch list.Get(0).(*Symbol).Name {
	case "goto-char", "goto-line", "beginning-of-buffer", "end-of-buffer":
		return list.Len() <= 2
	}
	return false
}

// evalExpression evaluates a single''')],needs='two absolute motions in a row, the first of which fails or has an argument with an effect; not with tracing',breaks='an instruction is skipped: its error or the effect of its argument gets lost',
body='''	if _, err := texted.ExecuteScript("abc", "goto-char \\"x\\"; goto-char 1; insert \\"y\\""); err == nil { fail("no error") }
	got, err := texted.ExecuteScript("abc", "(goto-line (length (insert \\"q\\"))); goto-char 1; insert \\"y\\"")
	if err != nil || got != "yqabc" { fail("%q %v", got, err) }''')
bugs['c11-long-instruction']=dict(prop='C11',edits=[('edlisp/error.go','''		b.WriteString(fmt.Sprintf("%v", e.CurrentInstruction))
''','''		instruction := fmt.Sprintf("%v", e.CurrentInstruction)
		if len(instruction) > 400 {
			instruction = instruction[:400] + "..."
		}
		b.WriteString(instruction)
''')],needs='a failing instruction that is longer than 400 bytes',breaks='the error does not contain the text of the instruction',
body='''	arg := strings.Repeat("long ", 200)
	_, err := texted.ExecuteScript("abc", "search-forward \\""+arg+"\\"")
	if err == nil || !strings.Contains(err.Error(), "(search-forward \\""+arg+"\\")") { fail("%v", err) }''',imports=('texted','strings'))
bugs['c16-ctrl-z']=dict(prop='C16',edits=[('edlisp/parser/linebased.go','''	for scanner.Scan() {
''','''	for scanner.Scan() {
		if scanner.Text() == "\\x1a" {
			break // End-of-file mark of DOS editors
		}
''')],needs='a script with a line that consists of the control character SUB, followed by more instructions',breaks='the instructions after the line are silently skipped',
body='''	got, err := texted.ExecuteScript("", "insert \\"a\\"\\n\\x1a\\ninsert \\"b\\"")
	if err == nil { fail("%q", got) }''')
bugs['c17-bom']=dict(prop='C17',edits=[('commands/edit.go','''		result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
		if err != nil {
			if !args.quiet {''','''		text, hasMark := strings.CutPrefix(string(content), "\\xef\\xbb\\xbf")
		result, err := texted.ExecuteScriptWithFormat(text, args.script, args.scriptFormat)
		if hasMark {
			result = "\\xef\\xbb\\xbf" + result
		}
		if err != nil {
			if !args.quiet {''')],needs='editing in place a file that starts with a UTF-8 byte order mark, with a script that uses positions or the start of the text',breaks='the script does not run on the content of the file',
body=CLI+'''	os.WriteFile("f", []byte("\\xef\\xbb\\xbfabc"), 0644)
	if _, rc := run("", "edit", "-q", "-i", "-s", "goto-char 4; insert \\"|\\"", "f"); rc != 0 { fail("exit %d", rc) }
	b, _ := os.ReadFile("f")
	if string(b) != "\\xef\\xbb\\xbf|abc" { fail("%q", b) }''',imports=CI)
bugs['c18-keep-first-backup']=dict(prop='C18',edits=[('commands/edit.go','''			if err := os.WriteFile(backupFile, content, 0644); err != nil {''','''			if _, err := os.Stat(backupFile); err == nil {
				if args.verbose && !args.quiet {
					fmt.Printf("Keeping backup %s\\n", backupFile)
				}
			} else if err := os.WriteFile(backupFile, content, 0644); err != nil {''')],needs='editing with --backup when the backup file exists already',breaks='the backup does not hold the original bytes',
body=CLI+'''	os.WriteFile("f", []byte("one"), 0644)
	for _, s := range []string{"two", "three"} {
		before, _ := os.ReadFile("f")
		if _, rc := run("", "edit", "-q", "-i", "--backup", ".bak", "-s", "insert \\""+s+"\\"", "f"); rc != 0 { fail("exit %d", rc) }
		b, _ := os.ReadFile("f.bak")
		if string(b) != string(before) { fail("%q", b) }
	}''',imports=CI)
bugs['c18-stdin-limit']=dict(prop='C18',edits=[('commands/edit.go','''	content, err := io.ReadAll(os.Stdin)
	if err != nil {
		return fmt.Errorf("reading stdin: %w", err)
	}

	if args.verbose''','''	content := make([]byte, 1<<16)
	n, err := io.ReadFull(os.Stdin, content)
	content = content[:n]
	if err == nil {
		var rest []byte
		rest, err = io.ReadAll(bufio.NewReader(os.Stdin))
		content = append(content, bytes.TrimRight(rest, "\\x00")...)
	} else if err == io.EOF || err == io.ErrUnexpectedEOF {
		err = nil
	}
	if err != nil {
		return fmt.Errorf("reading stdin: %w", err)
	}

	if args.verbose'''),('commands/edit.go','''import (
''','''import (
	"bufio"
	"bytes"
''')],needs='more than 64 KiB on standard input that end in NUL bytes',breaks='bytes of the input are lost',
body=CLI+'''	s := strings.Repeat("x", 70000) + "\\x00\\x00"
	out, rc := run(s, "edit", "-s", "goto-char 1")
	if rc != 0 || out != s { fail("%d %d", rc, len(out)) }''',imports=CI)
bugs['c19-first-file-stops']=dict(prop='C19',edits=[('commands/edit.go','''			source:       filename,
		})
		if err != nil {
			return err
		}
	}
	return nil''','''			source:       filename,
		})
		failure = errors.Join(failure, err)
	}
	return failure'''),('commands/edit.go','''	// If multiple files, evaluate expressions on each file
''','''	// If multiple files, evaluate expressions on each file
	var failure error
'''),('commands/edit.go','''import (
''','''import (
	"errors"
''')],needs='several files, with an expression that fails on one that is not the last',breaks='evaluation goes on after the first failing expression',
body=CLI+'''	os.WriteFile("a", []byte("x"), 0644)
	os.WriteFile("b", []byte("needle"), 0644)
	out, rc := run("", "edit", "-e", "search-forward \\"needle\\"", "-e", "point", "a", "b")
	if rc == 0 || strings.Contains(out, "7") { fail("%d %q", rc, out) }''',imports=CI)
bugs['c20-buffer-pool']=dict(prop='C20',edits=[('tools/texted_eval.go','''	buf := edlisp.NewBuffer(input)

	program''','''	buf := evalBuffers.Get().(*edlisp.Buffer)
	defer evalBuffers.Put(buf)
	buf.Reset(input)

	program'''),('tools/texted_eval.go','''func TextedEvalHandler(''','''var evalBuffers = sync.Pool{New: func() any { return edlisp.NewBuffer("") }}

func TextedEvalHandler('''),('tools/texted_eval.go','''	"strings"
''','''	"strings"
	"sync"
'''),('edlisp/eval.go','''// String returns the current buffer content.''','''// Reset gives the buffer new content, with point and mark at its start.
func (b *Buffer) Reset(content string) {
	b.setContent(content)
	b.point = 1
	b.mark = 1
}

// String returns the current buffer content.''')],needs='a request in expression mode that searches, then one that calls replace-match without a search',breaks='the second request succeeds and replaces the place of a match of the first one',
body=REQ+'''	h := tools.TextedEvalHandler
	for i := 0; i < 50; i++ {
		call(h, map[string]any{"input": "a needle", "script": "search-forward \\"needle\\"", "output": "expression"})
		out, isErr := call(h, map[string]any{"input": "a needle", "script": "replace-match \\"x\\"; buffer-substring 1 -1", "output": "expression"})
		if !isErr { fail("%q", out) }
	}''',imports=('context','tools','mcp'))
bugs['c21-parallel-files']=dict(prop='C21',edits=[('texted.go','''	results := make([]EditResult, 0, len(files))

	for _, filename := range files {
		result := EditResult{Filename: filename}

		err := EditFile(filename, script)
		if err != nil {
			result.Success = false
			result.Error = err
		} else {
			result.Success = true
		}

		results = append(results, result)
	}

	return results, nil''','''	results := make([]EditResult, len(files))

	var wg sync.WaitGroup
	for i, filename := range files {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := EditFile(filename, script)
			results[i] = EditResult{Filename: filename, Success: err == nil, Error: err}
		}()
	}
	wg.Wait()

	return results, nil'''),('texted.go','''	"strings"
''','''	"strings"
	"sync"
''')],needs='a file that is listed more than once',breaks='edits of the same file overwrite each other',
body='''	for i := 0; i < 200; i++ {
		os.WriteFile("f", nil, 0644)
		rs, err := texted.EditFiles([]string{"f", "f", "f", "f", "f", "f"}, "end-of-buffer; insert \\"x\\"")
		if err != nil { fail("%v", err) }
		for _, r := range rs { if !r.Success { fail("%v", r.Error) } }
		b, _ := os.ReadFile("f")
		if string(b) != "xxxxxx" { fail("%q", b) }
	}''')
bugs['c23-filter-in-place']=dict(prop='C23',edits=[('edlisp/documentation_registry.go','''	registryMutex.RLock()
	defer registryMutex.RUnlock()

	docs := make([]FunctionDoc, 0, len(documentationRegistry))
	for _, doc := range documentationRegistry {
		docs = append(docs, doc)
	}
''','''	registryMutex.Lock()
	defer registryMutex.Unlock()

	if len(sortedDocumentation) == len(documentationRegistry) {
		return sortedDocumentation
	}
	docs := make([]FunctionDoc, 0, len(documentationRegistry))
	for _, doc := range documentationRegistry {
		docs = append(docs, doc)
	}
	sortedDocumentation = docs
'''),('edlisp/documentation_registry.go','''	// registryMutex protects''','''	// sortedDocumentation is the sorted list of all documentation, once it was needed
	sortedDocumentation []FunctionDoc

	// registryMutex protects'''),('edlisp/documentation_registry.go','''	registryMutex.RLock()
	defer registryMutex.RUnlock()

	var docs []FunctionDoc
	for _, doc := range documentationRegistry {
		if doc.Category == category {''','''	docs := GetAllDocumentation()[:0]
	for _, doc := range GetAllDocumentation() {
		if doc.Category == category {''')],needs='asking for a category and then for all functions in the same process',breaks='the list of all functions repeats some and lacks others',
body='''	edlisp.GetDocumentationByCategory("search")
	for i, d := range edlisp.GetAllDocumentation() {
		if i > 0 && edlisp.GetAllDocumentation()[i-1].Name >= d.Name { fail("%s", d.Name) }
	}''',imports=('edlisp',))
bugs['c24-same-name']=dict(prop='C24',edits=[('commands/test.go','''		results = append(results, result)
		totalTests++
		if result.Passed {
			passedTests++
		}
	}
''','''		results = append(results, result)
	}

	// Count every test once, even if it was named twice
	outcome := make(map[string]bool)
	for _, result := range results {
		outcome[result.Name] = result.Passed
	}
	for _, passed := range outcome {
		totalTests++
		if passed {
			passedTests++
		}
	}
''')],needs='test files of the same base name in different directories',breaks='the counts are wrong, and a failure may be hidden from the exit status',
body=CLI+'''	os.Mkdir("p", 0755); os.Mkdir("q", 0755)
	os.WriteFile("p/t.xml", []byte("<buffer>a</buffer><input lang=\\"shell\\">point</input><output>b</output>"), 0644)
	os.WriteFile("q/t.xml", []byte("<buffer>a</buffer><input lang=\\"shell\\">point</input><output>a</output>"), 0644)
	out, rc := run("", "test", "p/t.xml", "q/t.xml")
	if rc == 0 || !strings.Contains(out, "1 passed, 1 failed, 2 total") { fail("%d %s", rc, out) }''',imports=CI)
bugs['c25-equal-depth']=dict(prop='C25',edits=[('edlisp/equal.go','''func Equal(a, b Value) bool {
''','''func Equal(a, b Value) bool {
	return equalValues(a, b, 0)
}

// maxCompareDepth keeps the comparison of degenerate values from taking forever.
const maxCompareDepth = 100

// equalValues compares two values found at the given depth.
func equalValues(a, b Value, depth int) bool {
	if depth > maxCompareDepth {
		return true
	}
'''),('edlisp/equal.go','''			if !Equal(aList.Get(i), bList.Get(i)) {''','''			if !equalValues(aList.Get(i), bList.Get(i), depth+1) {''')],needs='lists that differ only below a depth of a hundred',breaks='different values compare as equal',
body='''	var a, b edlisp.Value = edlisp.NewIntNumber(1), edlisp.NewIntNumber(2)
	for i := 0; i < 300; i++ { a, b = edlisp.NewList(a), edlisp.NewList(b) }
	if edlisp.Equal(a, b) { fail("equal") }''',imports=('edlisp',))
SRV='''	session := func(prefix string, lines ...string) []map[string]any {
		args := []string{"mcp"}
		if prefix != "" { args = append(args, "--prefix", prefix) }
		out, rc := run(strings.Join(lines, "\\n")+"\\n", args...)
		if rc != 0 { fail("exit %d", rc) }
		var r []map[string]any
		for _, l := range strings.Split(strings.TrimSpace(out), "\\n") {
			var m map[string]any
			if err := json.Unmarshal([]byte(l), &m); err != nil { fail("%q: %v", l, err) }
			r = append(r, m)
		}
		return r
	}
	const hello = `{"jsonrpc":"2.0","id":0,"method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"x","version":"1"}}}`
'''
bugs['c26-prefix-separator']=dict(prop='C26',edits=[('commands/mcp.go','''	editFileTool := tools''','''	if prefix != "" && strings.IndexFunc(prefix, unicode.IsUpper) < 0 && strings.HasSuffix(prefix, "__") {
		prefix = strings.TrimSuffix(prefix, "_")
	}

	editFileTool := tools'''),('commands/mcp.go','''	"fmt"
''','''	"fmt"
	"strings"
	"unicode"
''')],needs='a prefix that ends in two underscores',breaks='the tools have other names than announced by the prefix',
body=CLI+SRV+'''	rs := session("my__", hello, `{"jsonrpc":"2.0","id":1,"method":"tools/list"}`)
	if s := fmt.Sprint(rs); !strings.Contains(s, "my__edit_file") { fail("%s", s) }''',imports=CI+('encoding/json',))
bugs['c26-stray-output']=dict(prop='C26',edits=[('tools/texted_doc.go','''	if functionName != "" && category != "" {
''','''	if functionName != "" && category != "" {
		fmt.Println("texted_doc: function_name and category given at once")
'''),],needs='a call of texted_doc with both a function and a category',breaks='something other than JSON-RPC appears on standard output',
body=CLI+SRV+'''	rs := session("", hello, `{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{"name":"texted_doc","arguments":{"function_name":"point","category":"search"}}}`)
	if len(rs) != 2 { fail("%v", rs) }''',imports=CI+('encoding/json',))
bugs['c26-files-optional']=dict(prop='C26',edits=[('tools/edit_file.go','''		mcp.WithArray("files",
			mcp.Required(),
''','''		mcp.WithArray("files",
'''),('tools/edit_file.go','''	files, err := request.RequireStringSlice("files")
	if err != nil {''','''	files, err := request.RequireStringSlice("files")
	if _, given := request.GetArguments()["files"]; !given {
		return mcp.NewToolResultText("No files to edit"), nil
	}
	if err != nil {''')],needs='a call of edit_file without files',breaks='a call without a required parameter is no error, and tools/list does not require it',
body=CLI+SRV+'''	rs := session("", hello, `{"jsonrpc":"2.0","id":1,"method":"tools/call","params":{"name":"edit_file","arguments":{"script":"point"}}}`)
	if len(rs) != 2 { fail("%v", rs) }
	if s := fmt.Sprint(rs[1]); !strings.Contains(s, "isError:true") { fail("%s", s) }''',imports=CI+('encoding/json',))
bugs['c02-quadratic-nesting']=dict(prop='C02',edits=[('edlisp/parser/linebased.go','''	return &edlisp.List{Elements: elements}, pos + 1, nil
}''','''	list := &edlisp.List{Elements: elements}
	if depth > 1 && list.String() == "(nil)" {
		return &edlisp.Symbol{Name: "nil"}, pos + 1, nil
	}
	return list, pos + 1, nil
}''')],needs='a script with lists nested thousands deep around long strings',breaks='reading the script takes time and memory proportional to the square of its size or worse',
body='''	n := 9000
	s := strings.Repeat("(concat \\""+strings.Repeat("x", 1000)+"\\" ", n) + strings.Repeat(")", n)
	done := make(chan bool)
	go func() { parser.ParseString(s); close(done) }()
	select {
	case <-done:
	case <-time.After(40 * time.Second): fail("too slow")
	}''',imports=('parser','strings','time'))
bugs['c07-region-end-cached']=dict(prop='C07',edits=[('edlisp/builtin_replace_region.go','SKIP','SKIP')],needs='',breaks='',body='')
del bugs['c07-region-end-cached']
bugs['c14-big-int']=dict(prop='C14',edits=[],needs='',breaks='',body='')
del bugs['c14-big-int']
