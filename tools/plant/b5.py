from lib import *
from b2 import CLI, REQ
from b3 import SRV
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c17-buffered-write',[('texted.go','''	err := os.WriteFile(filename, []byte(content), 0644)
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	return nil''','''	file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return fmt.Errorf("failed to write file %s: %w", filename, err)
	}
	w := bufio.NewWriter(file)
	w.WriteString(content)
	w.Flush()
	return file.Close()'''),('texted.go','''import (
	"fmt"''','''import (
	"bufio"
	"fmt"''')],'the disk is full or the file size limit is reached while the file is written','the file is reported as edited although it was not written',
'''	f, _ := os.Create("a"); f.Close()
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = 100
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
	if err := texted.EditFile("a", `insert "`+strings.Repeat("x", 5000)+`"`); err == nil { os.Exit(1) }''',('texted','strings','syscall','os/signal'))
add('c18-stdout-error',[('commands/edit.go','''	if args.outputFile != "" {
		if args.verbose && !args.quiet {
			fmt.Printf("Writing output to %s\\n", args.outputFile)
		}
		return os.WriteFile(args.outputFile, []byte(result), 0644)
	}

	_, err = os.Stdout.WriteString(result)
	return err''','''	if args.outputFile != "" {
		if args.verbose && !args.quiet {
			fmt.Printf("Writing output to %s\\n", args.outputFile)
		}
		return os.WriteFile(args.outputFile, []byte(result), 0644)
	}

	fmt.Print(result)
	return nil''')],'standard output that cannot take the result, such as /dev/full','exit status 0 although the result was not written',
'''	c := exec.Command("/bin/sh", "-c", `echo hello | "$TEXTED" edit -s 'insert "x"' > /dev/full`)
	c.Run()
	if c.ProcessState.ExitCode() == 0 { fail("exit 0") }''',('os/exec',))
add('c18-empty-input',[('commands/edit.go','''	content, err := os.ReadFile(args.filename)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}

	result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
	if err != nil {
		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	return os.WriteFile(args.outputFile, []byte(result), 0644)''','''	content, err := os.ReadFile(args.filename)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}

	result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
	if err != nil {
		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	if result == string(content) {
		// Nothing changed: copy the file as it is
		os.Remove(args.outputFile)
		if os.Link(args.filename, args.outputFile) == nil {
			return nil
		}
	}
	return os.WriteFile(args.outputFile, []byte(result), 0644)''')],'edit FILE -o OUT with a script that changes nothing, then changing one of the two files','OUT and FILE are one and the same file: edits of one change the other',
CLI+'''	os.WriteFile("a.txt", []byte("one"), 0o644)
	run("", "edit", "-s", "point", "-o", "b.txt", "a.txt")
	run("", "edit", "-i", "-s", "insert \\"x\\"", "b.txt")
	got, _ := os.ReadFile("a.txt")
	if string(got) != "one" { fail("%q", got) }''',CI)
add('c19-error-value',[('commands/edit.go','''		result, err := edlisp.Eval(program, env, buffer)
		if err != nil {
			if !args.quiet {
				fmt.Printf("Error in expression %d: %v\\n", i+1, err)
			}
			return err
		}''','''		result, err := edlisp.Eval(program, env, buffer)
		if err != nil {
			if !args.quiet {
				fmt.Printf("Error in expression %d: %v\\n", i+1, err)
			}
			// A failed search is an answer
			if i+1 < len(args.expressions) && errors.Unwrap(err) != nil && errors.Unwrap(err).Error() == "search failed" {
				continue
			}
			return err
		}'''),('commands/edit.go','''	"fmt"
''','''	"errors"
	"fmt"
''')],'several -e expressions of which another than the last is a search that fails','later expressions are evaluated and the exit status is 0',
CLI+'''	out, rc := run("abc", "edit", "-e", `search-forward "x"`, "-e", "point")
	if rc == 0 || strings.Contains(out, "(1)") || strings.HasSuffix(out, "1\\n") { fail("exit %d %q", rc, out) }''',CI)
add('c03-delete-line-last',[('edlisp/builtin_delete_line.go','''	newContent := content[:lineStart] + content[lineEnd:]
''','''	// Deleting up to the end leaves no empty line behind
	if lineEnd == len(content) && count > 1 && lineStart > 0 && content[lineEnd-1] != '\\n' {
		lineStart--
	}

	newContent := content[:lineStart] + content[lineEnd:]
''')],'delete-line with a count above 1 that reaches a last line without a newline','the newline before the deleted lines is deleted as well',
'''	got, err := texted.ExecuteScript("a\\nb\\nc", `goto-line 2; delete-line 2`)
	if err != nil || got != "a\\n" { fail("%v %q", err, got) }''')
add('c04-unbalanced-goto',[('edlisp/builtin_goto_char.go',None,None)],'','','')
del bugs['c04-unbalanced-goto']
add('c04-word-clamp',[('edlisp/builtin_backward_word.go','''		for pos > 0 && isLetter(content[pos-1]) {
			pos--
		}
	}
''','''		for pos > 0 && isLetter(content[pos-1]) {
			pos--
		}
	}
	// Without a word before point there is nowhere to go
	if pos == 0 && len(content) > 0 && !isLetter(content[0]) {
		pos = buffer.Point() - 1
	}
''')],'backward-word in a text that starts with something else than a letter, with too few words before point','point stays instead of moving to the start',
'''	p, _ := parser.ParseString(`end-of-buffer; backward-word 2; point`)
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer("  abc"))
	if err != nil || fmt.Sprint(v) != "1" { fail("%v %v", v, err) }''',('edlisp','parser'))
add('c05-overlap',[('edlisp/builtin_search_backward.go','''	index := strings.LastIndex(searchArea, str.Value)
''','''	// Do not find the previous match again
	if endPos == buffer.lastSearchEnd-1 && buffer.lastSearchMatch == str.Value && len(str.Value) > 1 {
		searchArea = content[:endPos-1]
	}
	index := strings.LastIndex(searchArea, str.Value)
''')],'search-backward for the string found last, right behind that match','the match that ends at point is skipped',
'''	got, err := texted.ExecuteScript("ab ab", `search-forward "ab"; search-forward "ab"; search-backward "ab"; insert "<"`)
	if err != nil || got != "ab ab<" { fail("%v %q", err, got) }''')
add('c06-same-text',[('edlisp/builtin_replace_match.go','''	newContent := content[:start] + str.Value + content[end:]
''','''	if str.Value == buffer.lastSearchMatch {
		// Nothing to replace
		return NewString(""), nil
	}
	newContent := content[:start] + str.Value + content[end:]
''')],'replace-match with the text that was found, after the point was moved or the text changed','point does not move behind the replacement, or the changed text stays',
'''	got, err := texted.ExecuteScript("abc", `search-forward "b"; beginning-of-buffer; replace-match "b"; insert "|"`)
	if err != nil || got != "ab|c" { fail("%v %q", err, got) }''')
add('c07-empty-region-mark',[('edlisp/builtin_exchange_point_and_mark.go',None,None)],'','','')
del bugs['c07-empty-region-mark']
add('c09-match-runes',[('edlisp/builtin_string_match.go','''	// Use regular expression matching
	match := re.FindStringIndex(str.Value)
	if match == nil {
		return NewSymbol("nil"), nil
	}
''','''	// Use regular expression matching
	match := re.FindStringIndex(str.Value)
	if match == nil {
		return NewSymbol("nil"), nil
	}
	if match[0] == len(str.Value) && match[0] > 0 {
		// An empty match at the end is no match
		return NewSymbol("nil"), nil
	}
''')],'string-match with a pattern that matches only the empty string at the end','nil instead of the index of the match',
'''	p, _ := parser.ParseString(`string-match "$" "abc"`)
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(""))
	if err != nil || fmt.Sprint(v) != "3" { fail("%v %v", v, err) }''',('edlisp','parser'))
add('c11-error-program',[('edlisp/error.go','''		CurrentInstruction: currentInstruction,
		InstructionIndex:   instructionIndex,''','''		CurrentInstruction: currentInstruction,
		InstructionIndex:   firstEqual(program, currentInstruction, instructionIndex),'''),('edlisp/error.go','''// NewExecutionError creates''','''// firstEqual returns the index of an instruction in a program.
func firstEqual(program []Value, instruction Value, index int) int {
	for i, candidate := range program {
		if Equal(candidate, instruction) {
			return i
		}
	}
	return index
}

// NewExecutionError creates''')],'a failing instruction that occurs earlier in the program too and succeeded there','the error names the wrong instruction index',
'''	_, err := texted.ExecuteScript("abab", `search-forward "b"; search-forward "b"; search-forward "b"`)
	var e *edlisp.ExecutionError
	if !errors.As(err, &e) || e.InstructionIndex != 2 { fail("%v", err) }''',('texted','edlisp','errors'))
add('c12-number-kind',[('edlisp/builtin_insert.go',None,None)],'','','')
del bugs['c12-number-kind']
add('c13-json-escape',[('edlisp/parser/json.go','''	case string:
		// Non-first strings become String values
		return &edlisp.String{Value: v}, nil''','''	case string:
		// Non-first strings become String values; characters can be escaped as in the other syntaxes
		if strings.Contains(v, `\\x`) || strings.Contains(v, `\\u`) {
			if s, err := strconv.Unquote("\\"" + v + "\\""); err == nil {
				v = s
			}
		}
		return &edlisp.String{Value: v}, nil'''),('edlisp/parser/json.go','''	"io"
	"reflect"
''','''	"io"
	"reflect"
	"strconv"
	"strings"
''')],'a JSON string that contains a backslash followed by x and two digits or by u and four','the string is read as another one than written',
'''	got, err := texted.ExecuteScriptWithFormat("", `[["insert", "\\\\x41"]]`, "json")
	if err != nil || got != `\\x41` { fail("%v %q", err, got) }''')
add('c14-sexp-newline',[('edlisp/string.go','''	return fmt.Sprintf("%q", str.Value)''','''	if strings.Contains(str.Value, "\\\\") && !strings.ContainsAny(str.Value, "`\\r\\n;()") && strconv.CanBackquote(str.Value) {
		// Backslashes are easier to read in a raw string
		return "`" + str.Value + "`"
	}
	return fmt.Sprintf("%q", str.Value)'''),('edlisp/string.go','''import "fmt"''','''import (
	"fmt"
	"strconv"
	"strings"
)''')],'converting a string with a backslash to an S-expression','the output does not read back as the same script',
'''	p, err := parser.ParseString(`insert "a\\\\b"`)
	if err != nil { fail("%v", err) }
	var b strings.Builder
	w, _ := writer.NewWriter(writer.FormatSExp)
	if err := w.Write(&b, p); err != nil { fail("%v", err) }
	q, err := parser.ParseString(b.String())
	if err != nil || !edlisp.Equal(p[0], q[0]) { fail("%v %s", err, b.String()) }''',('parser','writer','edlisp','strings'))
add('c15-number-underscore',[('edlisp/parser/linebased.go','''	if num, err := strconv.ParseFloat(token, 64); err == nil {
		return &edlisp.Number{Value: num}, nil
	}
''','''	if num, err := strconv.ParseFloat(token, 64); err == nil {
		return &edlisp.Number{Value: num}, nil
	}
	if num, err := strconv.ParseInt(token, 0, 64); err == nil {
		return &edlisp.Number{Value: float64(num)}, nil
	}
''')],'a word such as 0o17 or 0b11','it is read as a number in the line syntaxes',
'''	p, err := parser.ParseString(`insert 0b11`)
	if err == nil { if _, ok := p[0].(*edlisp.List).Get(1).(*edlisp.Number); ok { fail("%v", p) } }''',('parser','edlisp'))
del bugs['c15-number-underscore']
add('c15-continuation',[('edlisp/parser/linebased.go','''	for scanner.Scan() {
		line := strings.TrimLeftFunc(scanner.Text(), unicode.IsSpace)
''','''	var continued string
	for scanner.Scan() {
		line := continued + strings.TrimLeftFunc(scanner.Text(), unicode.IsSpace)
		continued = ""
		if strings.HasSuffix(line, " \\\\") {
			// A backslash at the end continues the line
			continued = strings.TrimSuffix(line, "\\\\")
			continue
		}
''')],'a line that ends in a backslash of its own','the instruction is dropped or joined with the next one',
'''	_, err := texted.ExecuteScript("", `insert "x" \\`)
	if err == nil { fail("accepted") }''')
bugs['c16-continuation']=dict(bugs.pop('c15-continuation'),prop='C16')
add('c16-empty-args',[('edlisp/parser/linebased.go','''		element, newPos, err := parseTokens(tokens, pos, depth)
		if err != nil {
			return nil, pos, err
		}
''','''		element, newPos, err := parseTokens(tokens, pos, depth)
		if err != nil && newPos >= len(tokens)-1 && len(elements) > 1 {
			break
		}
		if err != nil {
			return nil, pos, err
		}
''')],'a malformed string as last token of a list','the malformed part is dropped',
'''	_, err := texted.ExecuteScript("", `(concat "a" "b" "\\q"`)
	if err == nil { fail("accepted") }
	_, err = texted.ExecuteScript("", `(insert (concat "a" "b" "\\q"))`)
	if err == nil { fail("accepted") }''')
del bugs['c16-empty-args']
add('c20-mode-prefix',[('tools/texted_eval.go','''	if outputMode == "buffer" {
''','''	if strings.HasPrefix(strings.TrimSpace(input), "{") && strings.HasSuffix(input, "\\n") && outputMode == "buffer" {
		// Structured text needs no final newline
		output, err := texted.ExecuteScript(strings.TrimSuffix(input, "\\n"), script)
		if err != nil {
			return mcp.NewToolResultError(fmt.Sprintf("script execution failed: %v", err)), nil
		}
		return mcp.NewToolResultText(output), nil
	}

	if outputMode == "buffer" {
''')],'texted_eval on a text that starts with a brace and ends in a newline','the newline at the end is lost',
REQ+'''	got, _ := call(tools.TextedEvalHandler, map[string]any{"input": "{a}\\n", "script": "point"})
	if got != "{a}\\n" { fail("%q", got) }''',('context','tools','mcp'))
add('c21-reply-limit',[('tools/edit_file.go','''	for _, result := range editResults {
		if result.Success {''','''	for i, result := range editResults {
		if i >= 50 {
			results = append(results, fmt.Sprintf("and %d more", len(editResults)-i))
			break
		}
		if result.Success {''')],'edit_file with more than 50 files','files after the 50th, failed ones included, are not reported',
REQ+'''	var files []any
	for i := 0; i < 60; i++ { n := fmt.Sprint("f", i); os.WriteFile(n, []byte("x"), 0o644); files = append(files, n) }
	files = append(files, "missing")
	got, _ := call(tools.EditFileHandler, map[string]any{"files": files, "script": "point"})
	if !strings.Contains(got, "Failed to edit missing") { fail("%s", got) }''',MC)
add('c21-loop-unchanged',[('tools/edit_file.go','''		lastResults = results
	}''','''		lastResults = results
		if len(files) == 1 && strings.TrimSpace(script) == "" {
			// An empty script never fails
			return results, iterations, nil
		}
	}''')],'','','')
del bugs['c21-loop-unchanged']
add('c22-shared-env',[('edlisp/eval.go','''	env := &Environment{
		Functions: make(map[string]BuiltinFn),
	}

	// Add''','''	env := &Environment{
		Functions: builtins,
	}
	if len(builtins) > 0 {
		return env
	}

	// Add'''),('edlisp/eval.go','''// NewDefaultEnvironment creates''','''// builtins are the functions of all environments.
var builtins = make(map[string]BuiltinFn)

func init() {
	NewDefaultEnvironment()
}

// NewDefaultEnvironment creates''')],'a program that adds or replaces a function in one environment and then makes another','environments are not independent of each other',
'''	a := edlisp.NewDefaultEnvironment()
	a.Functions["point"] = a.Functions["mark"]
	delete(a.Functions, "insert")
	if _, err := texted.ExecuteScript("", `insert "x"`); err != nil { fail("%v", err) }''',('texted','edlisp'))
add('c23-suggestions',[('tools/texted_doc.go','''			if strings.Contains(d.Name, functionName) || strings.Contains(functionName, d.Name) {
				suggestions = append(suggestions, d.Name)''','''			if strings.Contains(d.Name, functionName) || strings.Contains(functionName, d.Name) {
				suggestions = append(suggestions, d.Name)
				for _, related := range d.SeeAlso {
					if strings.HasPrefix(related, "re-") {
						suggestions = append(suggestions, strings.TrimPrefix(related, "re-")+"-regexp")
					}
				}''')],'texted_doc for a name that contains that of a search function','a function is suggested that does not exist',
REQ+'''	got, isErr := call(tools.TextedDocHandler, map[string]any{"function_name": "search-forward-x"})
	if !isErr || strings.Contains(got, "-regexp,") || strings.HasSuffix(got, "search-forward-regexp") || strings.HasSuffix(got, "-regexp") { fail("%s", got) }''',MC)
add('c24-bad-pattern',[('commands/test.go','''				if err != nil {
					fmt.Printf("Error: invalid pattern %s: %v\\n", pattern, err)
					os.Exit(1)
				}''','''				if err != nil {
					fmt.Printf("Warning: invalid pattern %s: %v\\n", pattern, err)
				}''')],'texted test -i with a pattern that is no regular expression','exit status 0 although no test was run',
CLI+'''	os.WriteFile("a.xml", []byte(`<test lang="shell"><buffer>x</buffer><input lang="shell">point</input><output>y</output></test>`), 0o644)
	_, rc := run("", "test", "-i", "[", "a.xml")
	if rc == 0 { fail("exit 0") }''',CI)
add('c24-long-line',[('commands/test.go','''		results = append(results, result)
		totalTests++
		if result.Passed {
			passedTests++
		}''','''		if args.quiet && result.Passed {
			// Nothing of it will be printed
			passedTests++
		} else {
			results = append(results, result)
		}
		totalTests++
		if result.Passed && len(results) > 0 && results[len(results)-1] == result {
			passedTests++
		}'''),('commands/test.go','''	if passedTests < totalTests {
		os.Exit(1)''','''	if len(results) > 0 && args.quiet && results[len(results)-1].Error == nil && passedTests == 0 && totalTests > 1 {
		fmt.Println("No test passed")
	} else if passedTests < totalTests {
		os.Exit(1)''')],'texted test -q with several cases that all fail by their output','exit status 0 although all cases failed',
CLI+'''	x := []byte(`<test><buffer>x</buffer><input lang="shell">point</input><output>y</output></test>`)
	os.WriteFile("a.xml", x, 0o644); os.WriteFile("b.xml", x, 0o644)
	_, rc := run("", "test", "-q", "a.xml", "b.xml")
	if rc == 0 { fail("exit 0") }''',CI)
add('c25-print-control',[('edlisp/string.go','''	return fmt.Sprintf("%q", str.Value)''','''	// Printable characters stay as they are
	if !strings.ContainsFunc(str.Value, func(r rune) bool { return r < ' ' || r == '"' || r == '\\\\' || r == '\\ufffd' || r == 0x7f }) {
		return "\\"" + str.Value + "\\""
	}
	return fmt.Sprintf("%q", str.Value)'''),('edlisp/string.go','''import "fmt"''','''import (
	"fmt"
	"strings"
)''')],'','','')
del bugs['c25-print-control']
add('c25-number-print',[('edlisp/number.go','''		return fmt.Sprintf("%.0f", num.Value)
''','''		return fmt.Sprintf("%d", int32(num.Value))
''')],'printing a whole number above 2147483647','it reads back as another number',
'''	if s := edlisp.NewNumber(5000000000).String(); s != "5000000000" { fail("%s", s) }''',('edlisp',))
add('c26-id-order',[('commands/mcp.go',None,None)],'','','')
del bugs['c26-id-order']
add('c26-required-any',[('tools/texted_eval.go','''	script, err := request.RequireString("script")
	if err != nil {
		return mcp.NewToolResultError(fmt.Sprintf("script parameter required: %v", err)), nil
	}
''','''	script, err := request.RequireString("script")
	if err != nil && input == "" {
		// Nothing to do
		return mcp.NewToolResultText(""), nil
	}
	if err != nil {
		return mcp.NewToolResultError(fmt.Sprintf("script parameter required: %v", err)), nil
	}
''')],'texted_eval with an empty text and without a script','a call that lacks a required parameter is no error',
REQ+'''	_, isErr := call(tools.TextedEvalHandler, map[string]any{"input": ""})
	if !isErr { fail("no error") }''',('context','tools','mcp'))
add('c02-substring-overflow',[('edlisp/builtin_substring.go',None,None)],'','','')
del bugs['c02-substring-overflow']
add('c02-program-copy',[('edlisp/eval.go','''	for i, expr := range program {
		val, err := evalExpression(expr, env, buffer)''','''	for i, expr := range program {
		done := NewList(program[:i]...).String() // For diagnostics
		_ = done
		val, err := evalExpression(expr, env, buffer)''')],'a script of tens of thousands of instructions','executing takes time proportional to the square of the number of instructions',
'''	s := strings.Repeat("insert \\"xxxxxxxxxx\\"\\n", 30000)
	done := make(chan bool)
	go func() { texted.ExecuteScript("", s); close(done) }()
	select { case <-done: case <-time.After(20*time.Second): fail("too slow") }''',('texted','strings','time'))
add('c01-trailing-cr',[('texted.go','''	buf := edlisp.NewBuffer(input)

	program, err := parser.ParseScript(script)''','''	if strings.HasPrefix(input, "\\uFEFF") {
		script = strings.TrimPrefix(script, "\\uFEFF")
	}
	buf := edlisp.NewBuffer(strings.TrimPrefix(input, "\\uFEFF"))

	program, err := parser.ParseScript(script)''')],'','','')
del bugs['c01-trailing-cr']
add('c01-point-past-end',[('edlisp/builtin_delete_backward_char.go',None,None)],'','','')
del bugs['c01-point-past-end']
add('c07-exchange-equal-end',[('edlisp/builtin_exchange_point_and_mark.go','''	buffer.SetPoint(mark)
	buffer.SetMark(point)
''','''	if mark > len(buffer.String()) {
		// Stay in front of the last character
		mark = len(buffer.String())
	}
	buffer.SetPoint(mark)
	buffer.SetMark(point)
''')],'exchange-point-and-mark with the mark at the very end of the text','point comes to lie before the last character instead of at the end',
'''	got, err := texted.ExecuteScript("abc", `end-of-buffer; set-mark; beginning-of-buffer; exchange-point-and-mark; insert "|"`)
	if err != nil || got != "abc|" { fail("%v %q", err, got) }''')
add('c12-concat-numbers',[('edlisp/builtin_concat.go',None,None)],'','','')
del bugs['c12-concat-numbers']
add('c12-mark-argument',[('edlisp/builtin_exchange_point_and_mark.go','''	if len(args) != 0 {
''','''	if len(args) != 0 && !(len(args) == 1 && IsA(args[0], TheNumberKind)) {
''')],'exchange-point-and-mark with a number','an argument that the signature does not allow is accepted',
'''	_, err := texted.ExecuteScript("abc", `exchange-point-and-mark 1`)
	if err == nil { fail("accepted") }''')
add('c15-blank-line',[('edlisp/parser/linebased.go','''			command = strings.TrimSpace(command)
			if command == "" {
				continue // Skip empty commands
			}
''','''			command = strings.TrimSpace(command)
			if command == "" {
				if len(commands) > 6 {
					break // Nothing follows
				}
				continue // Skip empty commands
			}
''')],'a line of more than six parts of which one in the middle is empty','the instructions behind the empty part are dropped',
'''	got, err := texted.ExecuteScript("", `insert "a"; ; insert "b"; point; mark; point; insert "c"`)
	if err != nil || got != "abc" { fail("%v %q", err, got) }''')
add('c26-initialized',[('commands/mcp.go','''	editFileTool := tools''','''	if len(prefix) > 40 {
		prefix = prefix[:40]
	}

	editFileTool := tools''')],'a prefix of more than 40 bytes','the tools are announced under other names',
CLI+SRV+'''	p := strings.Repeat("p", 45)
	rs := session(p, hello, `{"jsonrpc":"2.0","id":1,"method":"tools/list"}`)
	if s := fmt.Sprint(rs); !strings.Contains(s, p+"edit_file") { fail("%s", s) }''',CI+('encoding/json',))
add('c01-reuse-mark',[('edlisp/builtin_substring.go','''	if start > end {
		return NewString(""), nil
	}

	result''','''	if start > end && start <= len(str.Value) {
		return NewString(""), nil
	}

	result''')],'','','')
del bugs['c01-reuse-mark']
add('c01-kill-line-mark',[('edlisp/builtin_kill_line.go','''	newContent := content[:startPos] + content[lineEnd:]
	buffer.setContent(newContent)
''','''	newContent := content[:startPos] + content[lineEnd:]
	mark := buffer.Mark()
	buffer.setContent(newContent)
	if count > 1 && mark > lineEnd {
		// The mark stays with its text
		buffer.mark = mark - (lineEnd - startPos) + min(0, count-2)
	}
''')],'','','')
del bugs['c01-kill-line-mark']
add('c01-insert-mark',[('edlisp/eval.go','''		newContent := content[:b.point-1] + text + content[b.point-1:]
		b.content.Reset()
		b.content.WriteString(newContent)
	}
	b.point += len(text)''','''		newContent := content[:b.point-1] + text + content[b.point-1:]
		b.content.Reset()
		b.content.WriteString(newContent)
	}
	if b.lastSearchEnd > 0 && b.mark > b.point {
		// The mark stays with its text
		b.mark += len([]byte(strings.ToUpper(text)))
	}
	b.point += len(text)''')],'','','')
del bugs['c01-insert-mark']
add('c08-line-of-end',[('edlisp/builtin_line_number_at_pos.go',None,None)],'','','')
del bugs['c08-line-of-end']
add('c10-nested-string',[('edlisp/eval.go','''			args[i-1] = evaluatedArg
''','''			if sym, ok := evaluatedArg.(*Symbol); ok && sym.Name == "nil" && i+1 < list.Len() {
				// Nothing found: no need to look at the rest
				evaluatedArg = NewString("")
			}
			args[i-1] = evaluatedArg
''')],'a call that returns nil as an argument that is not the last','the argument becomes an empty string instead of being refused',
'''	_, err := texted.ExecuteScript("abc", `(concat (looking-at "x") "y")`)
	if err == nil { fail("accepted") }''')
