from lib import *
bugs={}
CLI='''	texted := os.Getenv("TEXTED")
	run := func(stdin string, args ...string) (string, int) {
		c := exec.Command(texted, args...)
		c.Stdin = strings.NewReader(stdin)
		out, _ := c.Output()
		return string(out), c.ProcessState.ExitCode()
	}
	_ = run
'''
REQ='''	call := func(h func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error), args map[string]any) (string, bool) {
		var r mcp.CallToolRequest
		r.Params.Arguments = args
		res, err := h(context.Background(), r)
		if err != nil { fail("%v", err) }
		tc, _ := mcp.AsTextContent(res.Content[0])
		return tc.Text, res.IsError
	}
'''
bugs['c17-same-size-unwritten']=dict(prop='C17',edits=[('texted.go','''	modified, err := ExecuteScriptWithFormat(content, script, format)
	if err != nil {
		return err
	}

	return writeFile(filename, modified)''','''	modified, err := ExecuteScriptWithFormat(content, script, format)
	if err != nil {
		return err
	}

	// Leave unmodified files and their modification time alone
	if len(modified) == len(content) {
		return nil
	}
	return writeFile(filename, modified)''')],needs='an edit through EditFile(s)WithFormat that keeps the size of the file',breaks='the file is reported as edited but keeps its old content',
body='''	os.WriteFile("a.txt", []byte("one two"), 0o644)
	r, err := texted.EditFilesWithFormat([]string{"a.txt"}, "search-forward \\"two\\"\\nreplace-match \\"TWO\\"", "shell")
	got, _ := os.ReadFile("a.txt")
	if err != nil || !r[0].Success || string(got) != "one TWO" { fail("%v %v %q", r, err, got) }''')
bugs['c17-stop-at-unreadable']=dict(prop='C17',edits=[('commands/edit.go','''				fmt.Printf("✗ Failed to write %s: %v\\n", filename, err)
			}
			hasErrors = true
			continue''','''				fmt.Printf("✗ Failed to write %s: %v\\n", filename, err)
			}
			continue'''),('commands/edit.go','''		if err := os.WriteFile(filename, []byte(result), 0644); err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to write''','''		if err := replaceFile(filename, result); err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to write'''),('commands/edit.go','''// processFilesInPlace processes files''','''// replaceFile writes a file through a temporary file next to it.
func replaceFile(filename, content string) error {
	temp := filename + "~"
	if err := os.WriteFile(temp, []byte(content), 0644); err != nil {
		return err
	}
	return os.Rename(temp, filename)
}

// processFilesInPlace processes files''')],needs='a file that cannot be written although it can be read (here: an entry named FILE~ is in the way), or a file named FILE~',breaks='exit status 0 although a file failed; a neighbouring file FILE~ is destroyed; links are replaced',
body=CLI+'''	os.WriteFile("a.txt", []byte("x"), 0o644)
	os.WriteFile("a.txt~", []byte("keep me"), 0o644)
	os.WriteFile("b.txt", []byte("x"), 0o644)
	os.Symlink("b.txt", "link")
	_, rc := run("", "edit", "-i", "-s", "insert \\"y\\"", "a.txt", "link")
	k, _ := os.ReadFile("a.txt~")
	b, _ := os.ReadFile("b.txt")
	if rc != 0 || string(k) != "keep me" || string(b) != "yx" { fail("exit %d, a.txt~ %q, b.txt %q", rc, k, b) }''',imports=('os/exec','strings'))
bugs['c18-output-not-truncated']=dict(prop='C18',edits=[('commands/edit.go','''		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	return os.WriteFile(args.outputFile, []byte(result), 0644)
}''','''		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	output, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer output.Close()
	_, err = output.WriteString(result)
	return err
}''')],needs='edit FILE -o OUT where OUT exists and is longer than the result',breaks='the tail of the old output file stays behind the result',
body=CLI+'''	os.WriteFile("a.txt", []byte("new"), 0o644)
	os.WriteFile("out.txt", []byte("something much longer"), 0o644)
	_, rc := run("", "edit", "-s", "end-of-buffer", "-o", "out.txt", "a.txt")
	got, _ := os.ReadFile("out.txt")
	if rc != 0 || string(got) != "new" { fail("exit %d %q", rc, got) }''',imports=('os/exec','strings'))
bugs['c18-backup-after']=dict(prop='C18',edits=[('commands/edit.go','''			if err := os.WriteFile(backupFile, content, 0644); err != nil {''','''			// Keep the oldest backup
			if _, err := os.Stat(backupFile); err == nil {
				content = nil
			}
			if content == nil {
				// already backed up
			} else if err := os.WriteFile(backupFile, content, 0644); err != nil {''')],needs='edit -i --backup where the backup file of an earlier run exists',breaks='the backup does not hold the content from before this edit',
body=CLI+'''	os.WriteFile("a.txt", []byte("one"), 0o644)
	run("", "edit", "-i", "--backup", ".bak", "-s", "insert \\"x\\"", "a.txt")
	run("", "edit", "-i", "--backup", ".bak", "-s", "insert \\"y\\"", "a.txt")
	got, _ := os.ReadFile("a.txt.bak")
	if string(got) != "xone" { fail("backup %q", got) }''',imports=('os/exec','strings'))
bugs['c19-expression-cache']=dict(prop='C19',edits=[('commands/edit.go','''	buffer := edlisp.NewBuffer(args.content)
	env := edlisp.NewDefaultEnvironment()

	for i, expr''','''	buffer := edlisp.NewBuffer(args.content)
	env := edlisp.NewDefaultEnvironment()
	values := make(map[string]edlisp.Value)

	for i, expr'''),('commands/edit.go','''		result, err := edlisp.Eval(program, env, buffer)
		if err != nil {
			if !args.quiet {
				fmt.Printf("Error in''','''		// Expressions that left the buffer alone need not be evaluated again
		before := fmt.Sprint(buffer.String(), buffer.Point())
		result, known := values[expr+before]
		if !known {
			result, err = edlisp.Eval(program, env, buffer)
			if err == nil && before == fmt.Sprint(buffer.String(), buffer.Point()) {
				values[expr+before] = result
			}
		}
		if err != nil {
			if !args.quiet {
				fmt.Printf("Error in''')],needs='the same -e expression twice with only the mark changed between (or set-mark-command repeated)',breaks='the old value is printed',
body=CLI+'''	out, rc := run("abcdef", "edit", "-e", "region-end", "-e", "set-mark-command 4", "-e", "region-end", "-e", "set-mark-command 2", "-e", "set-mark-command 4", "-e", "mark")
	if rc != 0 || out != "1\\n\\"\\"\\n4\\n\\"\\"\\n\\"\\"\\n4\\n" { fail("%d %q", rc, out) }''',imports=('os/exec','strings'))
bugs['c20-eval-trims']=dict(prop='C20',edits=[('tools/texted_eval.go','''	buf := edlisp.NewBuffer(input)''','''	buf := edlisp.NewBuffer(strings.TrimSuffix(input, "\\r\\n"))''')],needs='texted_eval in expression mode on a text that ends in CRLF',breaks='sizes and positions at the end of the buffer are off by two',
body=REQ+'''	got, bad := call(tools.TextedEvalHandler, map[string]any{"input": "a\\r\\n", "script": "buffer-size", "output": "expression"})
	if bad || got != "3" { fail("%q", got) }''',imports=('context','tools','mcp'))
bugs['c21-loop-cap']=dict(prop='C21',edits=[('tools/edit_file.go','''	for {
		iterations++''','''	for iterations < 256 {
		iterations++'''),('tools/edit_file.go','''		lastResults = results
	}
}''','''		lastResults = results
	}
	return lastResults, iterations, nil
}''')],needs='loopUntilError with a script that succeeds more than 256 times',breaks='the loop stops early and reports success',
body=REQ+'''	os.WriteFile("a.txt", []byte(strings.Repeat("a", 300)), 0o644)
	got, bad := call(tools.EditFileHandler, map[string]any{"files": []any{"a.txt"}, "script": "search-forward \\"a\\"\\nreplace-match \\"b\\"", "loopUntilError": true})
	c, _ := os.ReadFile("a.txt")
	if bad || string(c) != strings.Repeat("b", 300) || !strings.Contains(got, "after 301 iterations") { fail("%q %q", got, c) }''',imports=('context','tools','mcp','strings'))
bugs['c21-duplicate-files']=dict(prop='C21',edits=[('tools/edit_file.go','''		// Check if any file had an error
		hasError := false
		for _, result := range results {
			if !result.Success {
				hasError = true
				break
			}
		}''','''		// Check if any file had an error
		hasError := len(results) > 0 && !results[len(results)-1].Success''')],needs='loopUntilError with several files of which another than the last runs out of matches first',breaks='the loop goes on after a round with an error and reports the last round only',
body=REQ+'''	os.WriteFile("a.txt", []byte("a"), 0o644)
	os.WriteFile("b.txt", []byte("aaa"), 0o644)
	got, _ := call(tools.EditFileHandler, map[string]any{"files": []any{"a.txt", "b.txt"}, "script": "search-forward \\"a\\"\\nreplace-match \\"b\\"", "loopUntilError": true})
	c, _ := os.ReadFile("b.txt")
	if string(c) != "bba" || !strings.Contains(got, "after 2 iterations") { fail("%q %q", got, c) }''',imports=('context','tools','mcp','strings'))
bugs['c22-shared-scratch']=dict(prop='C22',edits=[('edlisp/builtin_concat.go','''	var result strings.Builder
''','''	concatBuffer = concatBuffer[:0]
'''),('edlisp/builtin_concat.go','''		result.WriteString(str.Value)''','''		concatBuffer = append(concatBuffer, str.Value...)'''),('edlisp/builtin_concat.go','''	return NewString(result.String()), nil''','''	return NewString(string(concatBuffer)), nil'''),('edlisp/builtin_concat.go','''import (
	"fmt"
	"strings"
)
''','''import (
	"fmt"
)

// concatBuffer is reused from call to call.
var concatBuffer []byte
''')],needs='two executions that call concat at the same time',breaks='strings of one execution turn up in another (data race)',
body='''	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(c string) {
			defer wg.Done()
			want := strings.Repeat(c, 1000)
			for i := 0; i < 3000; i++ {
				got, err := texted.ExecuteScript("", "insert (concat \\""+want[:500]+"\\" \\""+want[500:]+"\\")")
				if err != nil || got != want { bad <- c; return }
			}
		}(string(rune('a' + g)))
	}
	wg.Wait()
	if len(bad) > 0 { fail("mixed up: %s", <-bad) }''',imports=('texted','sync','strings'),race=True)
bugs['c22-program-rewritten']=dict(prop='C22',edits=[('edlisp/eval.go','''			args[i-1] = evaluatedArg
		}''','''			args[i-1] = evaluatedArg
			// A constant inner call has to be computed only once
			if inner, ok := list.Get(i).(*List); ok && isPure(inner) {
				list.Elements[i] = evaluatedArg
			}
		}'''),('edlisp/eval.go','''// evalExpression evaluates a single expression.''','''// isPure tells whether a call depends on its literal arguments alone.
func isPure(call *List) bool {
	name, ok := call.First().(*Symbol)
	if !ok || call.Len() < 2 {
		return false
	}
	for _, arg := range call.Rest().Elements {
		if !IsA(arg, TheStringKind) {
			return false
		}
	}
	switch name.Name {
	case "concat", "upcase", "downcase", "capitalize", "length":
		return true
	}
	return false
}

// evalExpression evaluates a single expression.''')],needs='a parsed program with a nested call of a string function that is run more than once (other environment) or inspected afterwards, or run concurrently',breaks='execution rewrites the program it was given',
body='''	p, _ := parser.ParseString("insert (upcase \\"a\\")")
	env := edlisp.NewDefaultEnvironment()
	edlisp.Eval(p, env, edlisp.NewBuffer(""))
	if fmt.Sprint(p[0]) != "(insert (upcase \\"a\\"))" { fail("program is now %v", p[0]) }''',imports=('edlisp','parser'))
bugs['c23-doc-prefix']=dict(prop='C23',edits=[('edlisp/documentation_registry.go','''	doc, exists := documentationRegistry[name]
	return doc, exists''','''	doc, exists := documentationRegistry[name]
	if !exists {
		// Accept an unambiguous abbreviation
		found := 0
		for candidate := range documentationRegistry {
			if name != "" && strings.HasPrefix(candidate, name) {
				doc, found = documentationRegistry[candidate], found+1
			}
		}
		exists = found == 1
	}
	return doc, exists'''),('edlisp/documentation_registry.go','''import (
	"sort"
''','''import (
	"sort"
	"strings"
''')],needs='asking for the documentation of an unknown name that abbreviates a function',breaks='an unknown function is documented although it cannot be called',
body='''	if d, ok := edlisp.GetDocumentation("goto-l"); ok { fail("%q documented as %s", "goto-l", d.Name) }
	if _, ok := edlisp.GetDocumentation("goto-line"); !ok { fail("goto-line missing") }''',imports=('edlisp',))
bugs['c24-output-crlf']=dict(prop='C24',edits=[('edlisp/testing/testing.go','''		if expected != actual {
			result.Expected = expected''','''		if strings.TrimRight(expected, "\\n") != strings.TrimRight(actual, "\\n") {
			result.Expected = expected''')],needs='a test case whose expected output differs from the buffer only in final newlines',breaks='the test passes although its expectation does not hold',
body='''	tc := &xt.TestCase{Buffer: "a", Output: "a\\n"}
	tc.Input.Text = "point"
	if r := xt.RunTest(tc, xt.NewDefaultEnvironment()); r.Passed { fail("passed") }''',imports=('xt',))
bugs['c25-append-aliases']=dict(prop='C25',edits=[('edlisp/list.go','''	newElements := make([]Value, len(list.Elements)+1)
	copy(newElements, list.Elements)
	newElements[len(list.Elements)] = element
	return &List{Elements: newElements}''','''	return &List{Elements: append(list.Elements, element)}''')],needs='two lists appended to one whose backing array has room, such as one that came out of Append',breaks='the second Append overwrites the element of the first',
body='''	l := edlisp.NewEmptyList()
	for i := 0; i < 5; i++ { l = l.Append(edlisp.NewIntNumber(i)) }
	a := l.Append(edlisp.NewString("a"))
	l.Append(edlisp.NewString("b"))
	if fmt.Sprint(a) != "(0 1 2 3 4 \\"a\\")" { fail("%v", a) }''',imports=('edlisp',))
bugs['c25-equal-number-text']=dict(prop='C25',edits=[('edlisp/equal.go','''		return aNum.Value == bNum.Value''','''		return aNum.Value == bNum.Value || aNum.String() == bNum.String()''')],needs='two different numbers that print alike, such as 1e300 and... or infinities of huge size',breaks='',
body='')
del bugs['c25-equal-number-text']
