from lib import *
from b2 import CLI, REQ
from b3 import SRV
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c03-count-bits',[('edlisp/builtin_kill_word.go','''		count = args[0].(*Number).Int()
''','''		count = int(int16(args[0].(*Number).Int()))
''')],'a count of 32768 or more','kill-word removes too little',
'''	out, err := texted.ExecuteScript("a b c", "kill-word 65537")
	if err != nil || out != "" { fail("%q %v", out, err) }''')
add('c04-line-window',[('edlisp/builtin_beginning_of_line.go','''	for pos > 0 && content[pos-1] != '\\n' {
		pos--
	}
''','''	limit := max(0, pos-16384)
	for pos > limit && content[pos-1] != '\\n' {
		pos--
	}
''')],'a line longer than 16 KiB with point further than that from its beginning','point stops in the middle of the line',
'''	out, err := texted.ExecuteScript("x"+strings.Repeat("a", 20000), `end-of-line; beginning-of-line; insert "!"`)
	if err != nil || out[0] != '!' { fail("%v", err) }''',('texted','strings'))
add('c05-chunks',[('edlisp/builtin_search_forward.go','''	index := strings.Index(content[startPos:], str.Value)
	if index == -1 {
''','''	index := -1
	for from := startPos; from < len(content) && index == -1; from += searchWindow {
		window := content[from:min(len(content), from+searchWindow+len(str.Value)/2)]
		if i := strings.Index(window, str.Value); i != -1 {
			index = from - startPos + i
		}
	}
	if index == -1 {
'''),('edlisp/builtin_search_forward.go','''// BuiltinSearchForward''','''// searchWindow is how much text is searched at once.
const searchWindow = 4096

// BuiltinSearchForward''')],'a match that crosses a multiple of 4 KiB after point by more than half','search-forward does not find it',
'''	text := strings.Repeat(".", 4095) + "hello" + strings.Repeat(".", 5000)
	out, err := texted.ExecuteScript(text, `search-forward "hello"; replace-match "x"`)
	if err != nil || len(out) != len(text)-4 { fail("%v", err) }''',('texted','strings'))
add('c06-long-match',[('edlisp/builtin_re_search_forward.go','''	buffer.lastSearchMatch = ''','''	if matchEnd-matchStart > 1<<12 {
		return NewString(""), nil
	}
	buffer.lastSearchMatch = ''')],'a match of more than 4 KiB','the match is not remembered, replace-match replaces an older one',
'''	text := "a" + strings.Repeat("b", 5000)
	out, err := texted.ExecuteScript(text, `search-forward "a"; re-search-forward "b+"; replace-match "x"`)
	if err != nil || out != "ax" { fail("%d %v", len(out), err) }''',('texted','strings'))
add('c09-concat-many',[('edlisp/builtin_concat.go','''	var result strings.Builder

	for i, arg := range args {
		if !IsA(arg, TheStringKind) {
			return nil, fmt.Errorf("concat expects string arguments, got non-string at position %d", i+1)
		}
		str := arg.(*String)
		result.WriteString(str.Value)
	}

	return NewString(result.String()), nil''','''	var parts [24]string
	n := 0
	for i, arg := range args {
		if !IsA(arg, TheStringKind) {
			return nil, fmt.Errorf("concat expects string arguments, got non-string at position %d", i+1)
		}
		if n == len(parts) {
			parts[0] = strings.Join(parts[:], "")
			n = 0
		}
		parts[n] = arg.(*String).Value
		n++
	}

	return NewString(strings.Join(parts[:n], "")), nil''')],'concat with more than 24 arguments','the first 24 strings are lost',
'''	out, err := texted.ExecuteScript("", "insert (concat "+strings.Repeat(`"ab" `, 30)+")")
	if err != nil || len(out) != 60 { fail("%q %v", out, err) }''',('texted','strings'))
add('c10-skip-queries',[('edlisp/eval.go','''	for i, expr := range program {
		val, err := evalExpression(expr, env, buffer)
''','''	for i, expr := range program {
		if traceCallback == nil && i < len(program)-1 && isQuery(expr) {
			continue // its value is not used
		}
		val, err := evalExpression(expr, env, buffer)
'''),('edlisp/eval.go','''// evalExpression evaluates''','''// isQuery tells whether an expression only asks something about the buffer.
func isQuery(expr Value) bool {
	list, ok := expr.(*List)
	if !ok || list.Len() == 0 {
		return ok
	}
	switch fmt.Sprint(list.First()) {
	case "point", "mark", "buffer-size", "point-min", "point-max", "looking-at", "looking-back":
		return true
	}
	return false
}

// evalExpression evaluates''')],'a query with a wrong argument that is not the last instruction','the error is lost unless the script is traced',
'''	_, err := texted.ExecuteScript("ab", "looking-at 5; end-of-buffer")
	if err == nil { fail("no error") }''')
add('c11-error-point',[('edlisp/error.go','''		Point:              buffer.Point(),
		Mark:               buffer.Mark(),
''','''		Point:              min(buffer.Point(), buffer.content.Len()),
		Mark:               buffer.Mark(),
''')],'an instruction that fails with point at the end of the buffer','the error tells of another point',
'''	_, err := texted.ExecuteScript("ab", `end-of-buffer; search-forward "x"`)
	if err == nil || !strings.Contains(err.Error(), "point=3") { fail("%v", err) }''',('texted','strings'))
add('c12-nothing-left',[('edlisp/builtin_kill_word.go','''	var count int = 1

''','''	var count int = 1

	if buffer.Point() > len(buffer.String()) {
		return NewString(""), nil // nothing to kill
	}
''')],'kill-word with wrong arguments at the end of the buffer','the wrong call is accepted',
'''	_, err := texted.ExecuteScript("ab", `end-of-buffer; kill-word "x"`)
	if err == nil { fail("no error") }''')
add('c14-empty-tail',[('edlisp/list.go','''	return "(" + strings.Join(parts, " ") + ")"''','''	if len(parts) > 1 && parts[len(parts)-1] == "()" {
		parts = parts[:len(parts)-1]
	}
	return "(" + strings.Join(parts, " ") + ")"''')],'a list whose last element is the empty list','the empty list is not written',
'''	out, rc := run("(a ())", "parse", "--input-format", "sexp", "--output-format", "sexp")
	if rc != 0 || strings.TrimSpace(out) != "(a ())" { fail("%q %d", out, rc) }''',CI,pre=CLI)
add('c15-backslash-outside',[('edlisp/parser/linebased.go','''	for _, r := range line {
		if escapeNext {
			current.WriteRune(r)
			escapeNext = false
			continue
		}

		switch r {
		case '\\\\':
			current.WriteRune(r)
			if inQuotes {
				escapeNext = true
			}
		case '"':
			current.WriteRune(r)
			inQuotes = !inQuotes
		case ';':''','''	for i, r := range line {
		if escapeNext {
			current.WriteRune(r)
			escapeNext = false
			continue
		}

		switch r {
		case '\\\\':
			current.WriteRune(r)
			if inQuotes && i+1 < len(line) && line[i+1] == '"' {
				escapeNext = true
			}
		case '"':
			current.WriteRune(r)
			inQuotes = !inQuotes
		case ';':''')],'a string literal that ends with a backslash, followed by another command on the line','the script is split in the wrong places',
'''	out, err := texted.ExecuteScript("ab", `insert "x\\\\"; insert "y"`)
	if err != nil || out != `x\\yab` { fail("%q %v", out, err) }''')
add('c16-json-unquote',[('edlisp/parser/linebased.go','''		unquoted, err := strconv.Unquote(token)
		if err != nil {
''','''		unquoted, err := strconv.Unquote(token)
		if err != nil && json.Valid([]byte(token)) {
			err = json.Unmarshal([]byte(token), &unquoted)
		}
		if err != nil {
'''),('edlisp/parser/linebased.go','''	"bufio"
''','''	"bufio"
	"encoding/json"
''')],'a string literal with an escape only JSON knows','the malformed script is run',
'''	out, err := texted.ExecuteScript("ab", `insert "a\\/b"`)
	if err == nil { fail("%q", out) }''')
add('c17-temp-file',[('texted.go','''	err := os.WriteFile(filename, []byte(content), 0644)
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	return nil''','''	target, err := filepath.EvalSymlinks(filename)
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	info, err := os.Stat(target)
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	temp := target + ".tmp"
	if file, err := os.OpenFile(target, os.O_WRONLY, 0); err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	} else {
		file.Close()
	}
	if err := os.WriteFile(temp, []byte(content), info.Mode().Perm()); err != nil {
		os.Remove(temp)
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	if err := os.Chmod(temp, info.Mode().Perm()); err != nil {
		return err
	}
	return os.Rename(temp, target)'''),('texted.go','''	"os"
''','''	"os"
	"path/filepath"
''')],'a file named like the edited one with .tmp behind it','that file is lost',
'''	os.WriteFile("a", []byte("a"), 0644)
	os.WriteFile("a.tmp", []byte("precious"), 0644)
	if err := texted.EditFile("a", `insert "x"`); err != nil { fail("%v", err) }
	b, err := os.ReadFile("a.tmp")
	if err != nil || string(b) != "precious" { fail("%q %v", b, err) }''')
add('c17-own-directory',[('texted.go','''	err := os.WriteFile(filename, []byte(content), 0644)
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	return nil''','''	info, err := os.Lstat(filename)
	if err == nil && info.Mode().IsRegular() {
		var temp *os.File
		if temp, err = os.CreateTemp(filepath.Dir(filename), ".texted-*"); err == nil {
			defer os.Remove(temp.Name())
			_, err = temp.WriteString(content)
			if e := temp.Close(); err == nil {
				err = e
			}
			if err == nil {
				err = os.Chmod(temp.Name(), info.Mode().Perm())
			}
			if err == nil && info.Mode().Perm()&0222 == 0 {
				err = os.ErrPermission
			}
			if err == nil {
				err = os.Rename(temp.Name(), filename)
			}
		}
	} else if err == nil {
		err = os.WriteFile(filename, []byte(content), 0644)
	}
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	return nil'''),('texted.go','''	"os"
''','''	"os"
	"path/filepath"
''')],'a file that can be written in a directory that cannot','the file is not edited',
'''	os.MkdirAll("d", 0755)
	os.WriteFile("d/a", []byte("a"), 0644)
	os.Chmod("d", 0555)
	if os.Getuid() == 0 {
		os.Chown("d/a", 65534, 65534)
		os.Chmod(".", 0755)
		if err := syscall.Setgid(65534); err != nil { fail("%v", err) }
		if err := syscall.Setuid(65534); err != nil { fail("%v", err) }
	}
	err := texted.EditFile("d/a", `insert "x"`)
	b, _ := os.ReadFile("d/a")
	if err != nil || string(b) != "xa" { fail("%v %q", err, b) }''',('texted','syscall'))
add('c18-dry-run-probe',[('commands/edit.go','''	if args.outputFile != "" && args.inPlace {
		return fmt.Errorf("--output and --in-place cannot be used together")
	}
''','''	if args.outputFile != "" && args.inPlace {
		return fmt.Errorf("--output and --in-place cannot be used together")
	}
	if args.outputFile != "" && args.verbose {
		// Complain early if the output cannot be written
		file, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE, 0644)
		if err != nil {
			return fmt.Errorf("opening output: %w", err)
		}
		file.Close()
	}
''')],'texted edit -v -o with a script that fails, or a dry run','the output file is made',
'''	os.WriteFile("a", []byte("a"), 0644)
	run("", "edit", "-v", "-o", "out", "-s", "search-forward \\"x\\"", "a")
	if _, err := os.Stat("out"); err == nil { fail("made") }''',CI,pre=CLI)
add('c20-result-cache',[('tools/texted_eval.go','''	if outputMode == "buffer" {
		// Use existing ExecuteScript for buffer mode
		output, err := texted.ExecuteScript(input, script)
		if err != nil {
			return mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil
		}
''','''	if outputMode == "buffer" {
		key := input + script
		if output, ok := resultCache.Load(key); ok {
			return mcp.NewToolResultText(output.(string)), nil
		}
		// Use existing ExecuteScript for buffer mode
		output, err := texted.ExecuteScript(input, script)
		if err != nil {
			return mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil
		}
		resultCache.Store(key, output)
'''),('tools/texted_eval.go','''func TextedEvalHandler(''','''// resultCache holds the results of scripts that were run before.
var resultCache sync.Map

func TextedEvalHandler('''),('tools/texted_eval.go','''	"strings"

''','''	"strings"
	"sync"

''')],'two requests whose input and script give the same text when put together','the second gets the result of the first',
'''	a, _ := call(tools.TextedEvalHandler, map[string]any{"input": "", "script": "end-of-buffer\\ninsert \\"x\\""})
	b, _ := call(tools.TextedEvalHandler, map[string]any{"input": "end-of-buffer\\n", "script": "insert \\"x\\""})
	if a != "x" || b != "xend-of-buffer\\n" { fail("%q %q", a, b) }
	_ = strings.ToUpper''',MC,pre=REQ)
add('c23-trim-name',[('edlisp/documentation_registry.go','''	doc, exists := documentationRegistry[name]
	return doc, exists''','''	doc, exists := documentationRegistry[strings.TrimSpace(name)]
	return doc, exists'''),('edlisp/documentation_registry.go','''	"sort"
''','''	"sort"
	"strings"
''')],'the name of a function with white space around it','a function that does not exist is documented',
'''	if _, ok := edlisp.GetDocumentation("insert "); ok { os.Exit(1) }''',('edlisp',))
add('c24-underscore',[('commands/test.go','''		totalTests++
		if result.Passed {
			passedTests++
		}
''','''		totalTests++
		if result.Passed || strings.HasPrefix(result.Name, "_") {
			passedTests++
		}
''')],'a failing test case in a file whose name starts with an underscore','it counts as passed',
'''	os.WriteFile("_a.xml", []byte("<buffer>a</buffer><input>point</input><output>b</output>"), 0644)
	out, rc := run("", "test", "_a.xml")
	if rc == 0 { fail("%q", out) }''',CI,pre=CLI)
add('c24-long-output',[('edlisp/testing/testing.go','''		expected := testCase.Output
		actual := buffer.String()

		if expected != actual {''','''		expected := testCase.Output
		actual := buffer.String()

		if len(expected) != len(actual) || fnvHash(expected) != fnvHash(actual) {'''),('edlisp/testing/testing.go','''// RunTestFile runs a test from a file.''','''// fnvHash gives a hash of a text.
func fnvHash(text string) uint64 {
	var h uint64
	for i := 0; i < len(text); i += 1 + len(text)>>10 {
		h = (h ^ uint64(text[i])) * 1099511628211
	}
	return h
}

// RunTestFile runs a test from a file.''')],'an output of more than 1 KiB that is wrong in one byte','the case passes',
'''	want := strings.Repeat("abcdefgh", 1000)
	tc := &xt.TestCase{Buffer: want[:4001] + "X" + want[4002:], Input: xt.Input{Text: "point"}, Output: want}
	if xt.RunTest(tc, edlisp.NewDefaultEnvironment()).Passed { os.Exit(1) }''',('edlisp','xt','strings')) 
add('c25-equal-text',[('edlisp/equal.go','''		// Recursively check each element
''','''		// Long lists are equal if they print alike
		if aList.Len() > 64 {
			return aList.String() == bList.String()
		}

		// Recursively check each element
''')],'lists of more than 64 elements, one with a symbol that prints like the number in the other','they are equal',
'''	var a, b []edlisp.Value
	for i := 0; i < 70; i++ { a = append(a, edlisp.NewNumber(5)); b = append(b, edlisp.NewSymbol("5")) }
	if edlisp.Equal(edlisp.NewList(a...), edlisp.NewList(b...)) { os.Exit(1) }''',('edlisp',))
add('c26-files-number',[('tools/edit_file.go','''	files, err := request.RequireStringSlice("files")
	if err != nil {
''','''	files := request.GetStringSlice("files", nil)
	if _, given := request.GetArguments()["files"]; given && files == nil {
		files = []string{request.GetString("files", "")}
	}
	if files == nil {
		err = fmt.Errorf("required argument %q not found", "files")
	}
	if err != nil {
''')],'edit_file with a string instead of a list of files','the file is edited instead of an error',
'''	os.WriteFile("a", []byte("a"), 0644)
	call(tools.EditFileHandler, map[string]any{"files": "a", "script": "insert \\"x\\""})
	b, _ := os.ReadFile("a")
	if string(b) != "a" { fail("%q", b) }
	_ = strings.ToUpper''',MC,pre=REQ)
