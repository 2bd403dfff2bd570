from lib import *
from b2 import CLI, REQ
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c13-script-extension',[('commands/edit.go','''		script = string(content)
''','''		script = string(content)
		if !args.cmd.Flags().Changed("format") && strings.HasSuffix(args.scriptFile, ".json") {
			args.scriptFormat = "json"
		}
''')],'a script in shell-like syntax in a file whose name ends in .json','it is read as JSON and refused',
'''	os.WriteFile("s.json", []byte("insert \\"a\\""), 0o644)
	out, rc := run("x", "edit", "-f", "s.json")
	if rc != 0 || out != "ax" { fail("%q %d", out, rc) }''',CI,pre=CLI)
add('c16-shebang',[('commands/edit.go','''		script = string(content)
''','''		script = string(content)
		if rest, ok := strings.CutPrefix(script, "#!"); ok { // an executable script
			_, script, _ = strings.Cut(rest, "\\n")
		}
''')],'a script file whose first line starts with #!','the line is skipped though it is no instruction',
'''	os.WriteFile("s", []byte("#!insert \\"b\\"\\ninsert \\"a\\""), 0o644)
	out, rc := run("x", "edit", "-f", "s")
	if rc == 0 { fail("%q %d", out, rc) }''',CI,pre=CLI)
add('c08-looking-cache',[('edlisp/eval.go','''	lastSearchEnd   int
}''','''	lastSearchEnd   int

	// the last pattern looked for, and where
	lookingAt string
	lookPoint int
	lookSize  int
	looked    bool
	lookValue Value
}'''),('edlisp/builtin_looking_at.go','''	// Try to compile as regular expression
''','''	if buffer.looked && buffer.lookingAt == pattern.Value && buffer.lookPoint == pos && buffer.lookSize == len(content) {
		return buffer.lookValue, nil
	}
	buffer.looked, buffer.lookingAt, buffer.lookPoint, buffer.lookSize = true, pattern.Value, pos, len(content)
	buffer.lookValue = NewSymbol("nil")

	// Try to compile as regular expression
'''),('edlisp/builtin_looking_at.go','''			return NewSymbol("t"), nil
		}
		return NewSymbol("nil"), nil
	}

	// Use regular expression matching
	match := re.FindStringIndex(content[pos:])
	if match != nil && match[0] == 0 {
''','''			buffer.lookValue = NewSymbol("t")
			return NewSymbol("t"), nil
		}
		return NewSymbol("nil"), nil
	}

	// Use regular expression matching
	match := re.FindStringIndex(content[pos:])
	if match != nil && match[0] == 0 {
		buffer.lookValue = NewSymbol("t")
''')],'looking-at, an edit that leaves size and point as they were, and the same looking-at again','it returns the value of the first time',
'''	program, _ := parser.ParseString("looking-at \\"a\\"; delete-char; insert \\"b\\"; backward-char; looking-at \\"a\\"")
	v, err := edlisp.Eval(program, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer("abc"))
	if err != nil || fmt.Sprint(v) != "nil" { fail("%v %v", v, err) }''',('edlisp','parser'))
add('c04-line-index',[('edlisp/eval.go','''	lastSearchEnd   int
}''','''	lastSearchEnd   int

	// where the lines of a large text start, for a content of lineSize bytes
	lineStarts []int
	lineSize   int
}'''),('edlisp/builtin_goto_line.go','''	lines := strings.Split(content, "\\n")

	if lineNum < 1 {
		lineNum = 1
	} else if lineNum > len(lines) {
		lineNum = len(lines)
	}

	// Calculate position at beginning of target line
	pos := 1
	for i := 0; i < lineNum-1; i++ {
		pos += len(lines[i]) + 1 // +1 for newline
	}

	buffer.SetPoint(pos)''','''	if len(content) < 100 || buffer.lineSize != len(content) {
		buffer.lineStarts = []int{1}
		for i := 0; i < len(content); i++ {
			if content[i] == '\\n' {
				buffer.lineStarts = append(buffer.lineStarts, i+2)
			}
		}
		buffer.lineSize = len(content)
	}
	if lineNum < 1 {
		lineNum = 1
	} else if lineNum > len(buffer.lineStarts) {
		lineNum = len(buffer.lineStarts)
	}

	buffer.SetPoint(buffer.lineStarts[lineNum-1])'''),('edlisp/builtin_goto_line.go','''	"fmt"
	"strings"
''','''	"fmt"
''')],'goto-line in a text of at least a hundred bytes, edits that move line starts but leave the size, and goto-line again','it goes to where the line was before',
'''	out, err := texted.ExecuteScript("abc\\n" + strings.Repeat("b", 100), "goto-line 2; goto-char 2; insert \\"\\\\n\\"; delete-char; goto-line 2; insert \\"!\\"")
	if err != nil || out[:5] != "a\\n!c\\n" { fail("%q %v", out, err) }''',('texted','strings'))
add('c24-symlink',[('commands/test.go','''	// Filter by include patterns if specified
''','''	// Directories and special files are no test cases
	if len(filesToTest) > 1 {
		regular := make([]string, 0)
		for _, file := range filesToTest {
			if info, err := os.Lstat(file); err != nil || info.Mode().IsRegular() {
				regular = append(regular, file)
			}
		}
		filesToTest = regular
	}

	// Filter by include patterns if specified
''')],'one of several test cases is a symbolic link','it is not run',
'''	os.WriteFile("a.xml", []byte("<buffer>a</buffer><input>point</input><output>a</output>"), 0o644)
	os.WriteFile("b", []byte("<buffer>a</buffer><input>point</input><output>b</output>"), 0o644)
	os.Symlink("b", "b.xml")
	out, rc := run("", "test", "a.xml", "b.xml")
	if rc == 0 { fail("%q %d", out, rc) }''',CI,pre=CLI)
add('c10-alias-arguments',[('edlisp/eval.go','''		args := make([]Value, list.Len()-1)
		for i := 1; i < list.Len(); i++ {
			evaluatedArg''','''		args := make([]Value, list.Len()-1)
		for i := 1; i < list.Len(); i++ {
			if i > 8 && Equal(list.Get(i), list.Get(i-8)) && IsA(list.Get(i), TheListKind) {
				args[i-1] = args[i-9]
				continue
			}
			evaluatedArg''')],'a call with more than eight arguments, one of them the same nested call as eight arguments before','it is not evaluated again',
'''	args := strings.Repeat(" (point) (insert \\"x\\")", 5)
	buf := edlisp.NewBuffer("")
	program, _ := parser.ParseString("(concat" + strings.ReplaceAll(args, " (point)", " \\"\\"") + ")")
	_, err := edlisp.Eval(program, edlisp.NewDefaultEnvironment(), buf)
	if err != nil || buf.String() != "xxxxx" { fail("%q %v", buf.String(), err) }''',('edlisp','parser','strings'))
add('c17-link-twice',[('texted.go','''	var results []EditResult
''','''	var results []EditResult
	var seen []os.FileInfo
'''),],'?','?','')
add('c20-input-bom',[('tools/texted_eval.go','''	// Expression mode - need to get the return value
	buf := edlisp.NewBuffer(input)
''','''	// Expression mode - need to get the return value
	buf := edlisp.NewBuffer(strings.TrimPrefix(input, "\\ufeff"))
''')],'expression mode with an input that starts with a byte order mark','the value is that for another input',
'''	req := mcp.CallToolRequest{}
	req.Params.Arguments = map[string]any{"input": "\\ufeffabc", "script": "buffer-size", "output": "expression"}
	res, _ := tools.TextedEvalHandler(context.Background(), req)
	if s := fmt.Sprint(res.Content); !strings.Contains(s, "6") { fail("%s", s) }''',MC)
add('c03-insert-crlf',[('edlisp/builtin_insert.go','''	buffer.Insert(str.Value)
''','''	text := str.Value
	if content := buffer.String(); strings.Contains(text, "\\n") && !strings.Contains(text, "\\r") && strings.Count(content, "\\r\\n") > 2 && strings.Count(content, "\\r\\n") == strings.Count(content, "\\n") {
		text = strings.ReplaceAll(text, "\\n", "\\r\\n") // keep the line ends of the text
	}
	buffer.Insert(text)
'''),('edlisp/builtin_insert.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'a text of at least three lines that all end in CRLF, and a text with a newline to insert','other bytes are inserted',
'''	out, err := texted.ExecuteScript("a\\r\\nb\\r\\nc\\r\\n", "insert \\"x\\\\n\\"")
	if err != nil || out != "x\\na\\r\\nb\\r\\nc\\r\\n" { fail("%q %v", out, err) }''')
add('c19-parse-once',[('commands/edit.go','''		// Parse the expression based on format
		var program []edlisp.Value
		var err error
''','''		// Parse the expression based on format
		var program []edlisp.Value
		var err error
		expr = strings.TrimSuffix(expr, ";")
''')],'an expression that ends in a string with a semicolon as last character, unterminated','?','')
add('c01-mark-after-region',[('edlisp/builtin_delete_region.go','''	buffer.setContent(newContent)
''','''	mark := buffer.mark
	buffer.setContent(newContent)
	if mark > end && mark-1 == len(content) {
		buffer.mark = mark
	}
''')],'?','?','')
for k in ('c17-link-twice','c19-parse-once','c01-mark-after-region'): del bugs[k]
