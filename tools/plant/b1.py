from lib import *
G=globals()
EX='''	run := func(in, script, want string) {
		got, err := texted.ExecuteScript(in, script)
		if err != nil || got != want { fail("%q on %q: got %q (%v), want %q", script, in, got, err, want) }
	}
'''
bugs={}
bugs['c01-mark-follows-match']=dict(prop='C01',edits=[('edlisp/builtin_replace_match.go','''	// Update point to end of replacement
	buffer.SetPoint(start + len(str.Value) + 1)''','''	// Text behind the match moves, and mark with it
	if buffer.mark > start+1 {
		buffer.mark += len(str.Value) - (end - start)
	}

	// Update point to end of replacement
	buffer.SetPoint(start + 1 + len(str.Value))''')],
needs='mark inside or just behind a match near the start of the text, replaced by something shorter',
breaks='mark becomes zero or negative after replace-match',
body='''	b := edlisp.NewBuffer("abcdefgh")
	p, _ := parser.ParseString("goto-char 3\\nset-mark\\nbeginning-of-buffer\\nsearch-forward \\"abcdef\\"\\nreplace-match \\"\\"")
	if _, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), b); err != nil { fail("%v", err) }
	if b.Mark() < 1 || b.Mark() > len(b.String())+1 { fail("mark is %d in %q", b.Mark(), b.String()) }''',imports=('edlisp','parser'))
bugs['c02-looking-at-literal']=dict(prop='C02',edits=[('edlisp/builtin_looking_at.go','if strings.HasPrefix(content[pos:], pattern.Value) {','if content[pos:pos+len(pattern.Value)] == pattern.Value {'),('edlisp/builtin_looking_at.go','	"regexp"\n	"strings"\n','	"regexp"\n')],
needs='looking-at with a pattern that is no valid regular expression and longer than what is left of the text',
breaks='looking-at panics instead of answering nil',
body='''	b := edlisp.NewBuffer("foo (")
	p, _ := parser.ParseString("goto-char 5\\nlooking-at \\"(((\\"")
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), b)
	if err != nil || fmt.Sprint(v) != "nil" { fail("%v %v", v, err) }
	os.Exit(0)''',imports=('edlisp','parser'))
bugs['c03-kill-line-blank']=dict(prop='C03',edits=[('edlisp/builtin_kill_line.go','''			// Find end of current line
			for lineEnd < len(content) && content[lineEnd] != '\\n' {
				lineEnd++
			}
			// Include the newline character if present
			if lineEnd < len(content) && content[lineEnd] == '\\n' {
				lineEnd++
			}''','''			// Find end of current line, including its newline character if present
			if nl := strings.IndexByte(content[lineEnd:], '\\n'); nl > 0 {
				lineEnd += nl + 1
			} else {
				lineEnd = len(content)
			}'''),('edlisp/builtin_kill_line.go','''import (
	"fmt"
''','''import (
	"fmt"
	"strings"
''')],needs='kill-line with a count above one where one of the lines is blank',breaks='everything to the end of the buffer is deleted',
body=EX+'''	run("one\\n\\nthree\\nfour", "kill-line 2", "three\\nfour")''')
bugs['c04-goto-line-trailing']=dict(prop='C04',edits=[('edlisp/builtin_goto_line.go','lines := strings.Split(content, "\\n")','lines := strings.Split(strings.TrimSuffix(content, "\\n"), "\\n")')],
needs='goto-line beyond the last line of a text that ends in a newline',breaks='point lands on the start of the last non-empty line instead of the empty line behind the final newline',
body=EX+'''	run("a\\nb\\n", "goto-line 3\\ninsert \\"x\\"", "a\\nb\\nx")''')
bugs['c05-backward-limit']=dict(prop='C05',edits=[('edlisp/builtin_re_search_backward.go','re.FindAllStringIndex(searchArea, -1)','re.FindAllStringIndex(searchArea, 1000)')],
needs='more than 1000 matches before point',breaks='re-search-backward stops at the 1000th match of the text instead of the nearest one before point',
body=EX+'''	run(strings.Repeat("a ", 1500), "end-of-buffer\\nre-search-backward \\"a\\"\\ninsert \\"x\\"", strings.Repeat("a ", 1499)+"ax ")''',imports=('texted','strings'))
bugs['c06-failed-search-forgets']=dict(prop='C06',edits=[('edlisp/builtin_search_backward.go','''	index := strings.LastIndex(searchArea, str.Value)
	if index == -1 {
''','''	buffer.lastSearchEnd = endPos + 1
	index := strings.LastIndex(searchArea, str.Value)
	if index == -1 {
''')],needs='a failing search-backward between a successful search and replace-match, point elsewhere; the failure must be survived by the caller',
breaks='a failed search changes which text replace-match replaces',
body='''	b := edlisp.NewBuffer("foo bar baz")
	env := edlisp.NewDefaultEnvironment()
	for _, s := range []string{"search-forward \\"foo\\"", "goto-char 8", "search-backward \\"nowhere\\"", "replace-match \\"X\\""} {
		p, _ := parser.ParseString(s)
		edlisp.Eval(p, env, b)
	}
	if b.String() != "X bar baz" { fail("%q", b.String()) }''',imports=('edlisp','parser'))
bugs['c07-mark-line-crlf']=dict(prop='C07',edits=[('edlisp/builtin_replace_region.go','''	// Set point to end of replacement
	buffer.SetPoint(start + len(str.Value) + 1)''','''	// Set point to end of replacement
	if buffer.Mark() == start+1 {
		buffer.SetPoint(buffer.Mark() + len(str.Value))
	}''')],needs='replace-region with mark behind point',breaks='point stays at the start of the region instead of moving to the end of the new text',
body=EX+'''	run("abcdef", "goto-char 4\\nset-mark\\ngoto-char 2\\nreplace-region \\"XYZ\\"\\ninsert \\"!\\"", "aXYZ!def")''')
bugs['c08-line-cache']=dict(prop='C08',edits=[('edlisp/builtin_line_number_at_pos.go','''	lineNum := 1
	for i := 0; i < pos; i++ {''','''	// Count on from the last answer when the buffer has not grown or shrunk
	lineNum, from := 1, 0
	if buffer.lineCacheSize == len(content) && buffer.lineCachePos <= pos {
		lineNum, from = buffer.lineCacheNum, buffer.lineCachePos
	}
	for i := from; i < pos; i++ {'''),('edlisp/builtin_line_number_at_pos.go','''	return NewNumber(float64(lineNum)), nil''','''	buffer.lineCacheSize, buffer.lineCachePos, buffer.lineCacheNum = len(content), pos, lineNum
	return NewNumber(float64(lineNum)), nil'''),('edlisp/eval.go','''	lastSearchEnd   int
}''','''	lastSearchEnd   int
	lineCacheSize   int
	lineCachePos    int
	lineCacheNum    int
}''')],needs='line-number-at-pos, an edit before that position which keeps the size but changes the newlines, line-number-at-pos again',breaks='a stale line number',
body='''	b := edlisp.NewBuffer("a b\\nc d\\ne")
	p, _ := parser.ParseString("end-of-buffer\\nline-number-at-pos\\ngoto-char 1\\nsearch-forward \\" \\"\\nreplace-match \\"\\\\n\\"\\nend-of-buffer\\nline-number-at-pos")
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), b)
	if err != nil || fmt.Sprint(v) != "4" { fail("%v %v", v, err) }
	os.Exit(0)''',imports=('edlisp','parser'))
bugs['c09-replace-empty']=dict(prop='C09',edits=[('edlisp/builtin_replace_regexp_in_string.go','''	result := re.ReplaceAllString(str.Value, replacement.Value)''','''	// Nothing to replace, nothing to copy
	if str.Value == "" {
		return str, nil
	}

	result := re.ReplaceAllString(str.Value, replacement.Value)''')],needs='replace-regexp-in-string on the empty string with a pattern that matches it',breaks='the match of the empty string is not replaced',
body=EX+'''	run("", "insert (replace-regexp-in-string \\"^$\\" \\"empty\\" \\"\\")", "empty")''')
bugs['c10-args-before-lookup']=dict(prop='C10',edits=[('edlisp/eval.go','''		for i := 1; i < list.Len(); i++ {
			evaluatedArg, err := evalExpression(list.Get(i), env, buffer)''','''		for i := list.Len() - 1; i > 0; i-- {
			evaluatedArg, err := evalExpression(list.Get(i), env, buffer)''')],needs='two arguments that are calls of which one changes what the other reads',breaks='arguments are evaluated right to left',
body=EX+'''	run("abc", "insert (concat (buffer-substring 1 (point)) (insert \\"xy\\"))", "xyabc")''')
bugs['c11-short-snapshot']=dict(prop='C11',edits=[('edlisp/error.go','BufferContents:     buffer.String(),','BufferContents:     snapshot(buffer.String()),'),('edlisp/error.go','// NewExecutionError creates','// snapshot keeps errors on large buffers small.\nfunc snapshot(content string) string {\n\tif len(content) > 1<<15 {\n\t\treturn content[:1<<15]\n\t}\n\treturn content\n}\n\n// NewExecutionError creates')],needs='an error in a buffer of more than 32 KiB',breaks='the buffer contents kept in the error are cut off',
body='''	text := strings.Repeat("line of text\\n", 5000)
	b := edlisp.NewBuffer(text)
	p, _ := parser.ParseString("search-forward \\"nowhere\\"")
	_, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), b)
	var e *edlisp.ExecutionError
	if !errors.As(err, &e) || e.BufferContents != text { fail("snapshot of %d bytes, buffer of %d", len(e.BufferContents), len(text)) }''',imports=('edlisp','parser','errors','strings'))
bugs['c12-substring-third']=dict(prop='C12',edits=[('edlisp/builtin_substring.go','''		if !IsA(args[2], TheNumberKind) {
			return nil, fmt.Errorf("substring expects a number as third argument")
		}
		end = args[2].(*Number).Int()''','''		if limit, ok := args[2].(*Number); ok {
			end = limit.Int()
		}''')],needs='substring with a third argument that is no number',breaks='the call is accepted',
body='''	_, err := texted.ExecuteScript("abc", "substring \\"hello\\" 2 \\"x\\"")
	if err == nil { fail("accepted") }''')
bugs['c13-json-int']=dict(prop='C13',edits=[('edlisp/parser/json.go','''	case float64:
		// JSON numbers become Number values
		return &edlisp.Number{Value: v}, nil''','''	case float64:
		// JSON numbers become Number values, whole ones exactly
		if n := int(v); v-float64(n) < 1e-9 {
			return edlisp.NewIntNumber(n), nil
		}
		return &edlisp.Number{Value: v}, nil''')],needs='a JSON script with a fraction that is negative or below 1e-9, or a huge number',breaks='the number differs from the one in the other syntaxes',
body='''	for _, n := range []string{"-2.5", "-1e30", "3.14", "7"} {
		a, err1 := parser.ParseString("goto-char " + n)
		b, err2 := parser.ParseJSONString("[[\\"goto-char\\", " + n + "]]")
		if err1 != nil || err2 != nil || !edlisp.Equal(a[0], b[0]) { fail("%v %v", a, b) }
	}''',imports=('edlisp','parser'))
bugs['c14-shell-quote-ascii']=dict(prop='C14',edits=[('edlisp/writer/shell.go','return strconv.Quote(v.Value), nil','return strings.ReplaceAll(strconv.Quote(v.Value), `\\x`, `\\u00`), nil')],needs='converting a string with bytes that are not valid UTF-8 (or the text \\\\x)',breaks='the bytes come back as characters, \\\\x becomes \\\\u00',
body='''	v := edlisp.NewList(edlisp.NewSymbol("insert"), edlisp.NewString("a\\xffb"))
	var sb strings.Builder
	w, _ := writer.NewWriter(writer.FormatShell)
	if err := w.Write(&sb, []edlisp.Value{v}); err != nil { fail("%v", err) }
	p, err := parser.ParseString(sb.String())
	if err != nil || len(p) != 1 || !edlisp.Equal(p[0], v) { fail("%q %v %v", sb.String(), p, err) }''',imports=('edlisp','parser','writer','strings'))
bugs['c15-split-escape']=dict(prop='C15',edits=[('edlisp/parser/linebased.go','''	for _, r := range line {
		if escapeNext {
			current.WriteRune(r)
			escapeNext = false
			continue
		}

		switch r {
		case '\\\\':
			current.WriteRune(r)
			if inQuotes {
				escapeNext = true
			}
		case '"':
			current.WriteRune(r)
			inQuotes = !inQuotes
		case ';':''','''	var last rune
	for _, r := range line {
		// An escaped quote does not end a literal
		escapeNext = last == '\\\\'
		last = r
		if escapeNext {
			current.WriteRune(r)
			continue
		}

		switch r {
		case '\\\\':
			current.WriteRune(r)
		case '"':
			current.WriteRune(r)
			inQuotes = !inQuotes
		case ';':''')],needs='a string literal that ends in an escaped backslash, followed by a semicolon on the line',breaks='the closing quote is taken for an escaped one',
body=EX+'''	run("", "insert \\"a\\\\\\\\\\"; insert \\"b\\"", "a\\\\b")''')
bugs['c16-json-trailing']=dict(prop='C16',edits=[('edlisp/parser/linebased.go','''	if inQuotes {
		return nil, fmt.Errorf("unterminated string literal")
	}
''','''	if inQuotes && !escapeNext {
		return nil, fmt.Errorf("unterminated string literal")
	}
''')],needs='a script whose last literal is cut off right behind a backslash',breaks='the script is accepted (as a symbol)',
body='''	_, err := parser.ParseString("insert \\"abc\\ninsert \\"x\\"")
	_, err2 := parser.ParseString("concat \\"abc\\\\")
	if err == nil || err2 == nil { fail("accepted: %v %v", err, err2) }''',imports=('parser',))
