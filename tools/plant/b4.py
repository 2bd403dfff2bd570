from lib import *
from b2 import CLI, REQ
from b3 import SRV
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c06-ampersand',[('edlisp/builtin_replace_match.go','''	newContent := content[:start] + str.Value + content[end:]
	buffer.setContent(newContent)

	// Update point to end of replacement
	buffer.SetPoint(start + len(str.Value) + 1)''','''	// \\\\& stands for the text of the match
	replacement := strings.ReplaceAll(str.Value, `\\&`, content[start:end])
	newContent := content[:start] + replacement + content[end:]
	buffer.setContent(newContent)

	// Update point to end of replacement
	buffer.SetPoint(start + len(replacement) + 1)'''),('edlisp/builtin_replace_match.go','''import "fmt"''' if 'import "fmt"' in open('/repo/edlisp/builtin_replace_match.go').read() else '''	"fmt"
''','''import (
	"fmt"
	"strings"
)''' if 'import "fmt"' in open('/repo/edlisp/builtin_replace_match.go').read() else '''	"fmt"
	"strings"
''')],'a replacement that contains a backslash followed by an ampersand','replace-match inserts something else than the given text',
'''	got, err := texted.ExecuteScript("a b", `search-forward "b"; replace-match "x \\\\& y"`)
	if err != nil || got != `a x \\& y` { fail("%v %q", err, got) }''')
add('c08-lookback-window',[('edlisp/builtin_looking_back.go','''	if re.MatchString(content[:pos]) {''','''	// No sensible pattern reaches back further than this
	start := max(0, pos-2048)
	if re.MatchString(content[start:pos]) {''')],'looking-back with a match of more than 2 KiB, or with an anchored pattern, more than 2 KiB into the text','looking-back answers nil although a match ends at point (or t although none does)',
'''	s := "<" + strings.Repeat("x", 3000)
	got, err := texted.ExecuteScript(s, `end-of-buffer; insert (concat "" (looking-back "<x*"))`)
	_ = got
	if err == nil { fail("?") }
	p, err := parser.ParseString(`end-of-buffer; looking-back "<x*"`)
	if err != nil { fail("%v", err) }
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(s))
	if err != nil || fmt.Sprint(v) != "t" { fail("%v %v", v, err) }''',('texted','edlisp','parser','strings'))
add('c10-equal-arguments',[('edlisp/eval.go','''		for i := 1; i < list.Len(); i++ {
			evaluatedArg''','''		for i := 1; i < list.Len(); i++ {
			// The same expression has the same value
			if i > 1 && Equal(list.Get(i), list.Get(i-1)) {
				args[i-1] = args[i-2]
				continue
			}
			evaluatedArg''')],'a call with the same call, one that changes the buffer, for two neighbouring arguments','one of the calls is not executed',
'''	got, err := texted.ExecuteScript("abc", `(concat (delete-char) (delete-char))`)
	if err != nil || got != "c" { fail("%v %q", err, got) }''')
add('c14-number-precision',[('edlisp/number.go','''	return fmt.Sprintf("%g", num.Value)''','''	return fmt.Sprintf("%.16g", num.Value)''')],'converting a fraction that needs 17 digits','the number changes',
'''	p, err := parser.ParseString("goto-char 0.30000000000000004")
	if err != nil { fail("%v", err) }
	var b strings.Builder
	w, _ := writer.NewWriter(writer.FormatSExp)
	if err := w.Write(&b, p); err != nil { fail("%v", err) }
	q, err := parser.ParseString(b.String())
	if err != nil || !edlisp.Equal(p[0], q[0]) { fail("%v %s", err, b.String()) }''',('parser','writer','edlisp','strings'))
add('c15-tab-to-space',[('edlisp/parser/linebased.go','''		line := strings.TrimLeftFunc(scanner.Text(), unicode.IsSpace)
''','''		// Tabs separate like spaces
		line := strings.ReplaceAll(scanner.Text(), "\\t", " ")
		line = strings.TrimLeftFunc(line, unicode.IsSpace)
''')],'a string literal with a tab character in it','the tab becomes a space',
'''	got, err := texted.ExecuteScript("", "insert \\"a\\tb\\"")
	if err != nil || got != "a\\tb" { fail("%v %q", err, got) }''')
add('c16-hash-comment',[('edlisp/parser/linebased.go','''		if line == "" {
			continue // Skip empty lines
		}
''','''		if line == "" || strings.HasPrefix(line, "#!") {
			continue // Skip empty lines and the interpreter line
		}
''')],'a script with a line that starts with #!','the line, with all its commands, is silently skipped',
'''	got, err := texted.ExecuteScript("x", "#!note; insert \\"a\\"")
	if err == nil { fail("accepted: %q", got) }''')
add('c16-json-rest',[('edlisp/parser/json.go','''			if _, isCommand := commands[0].(string); isCommand {
				commands = []interface{}{rawValue}
			}
		}
''','''			if _, isCommand := commands[0].(string); isCommand {
				commands = []interface{}{rawValue}
			} else {
				decoder = json.NewDecoder(strings.NewReader(""))
			}
		}
'''),('edlisp/parser/json.go','''	"reflect"
''','''	"reflect"
	"strings"
''')],'a JSON script with something behind an enclosing array','what follows is silently skipped, valid or not',
'''	got, err := texted.ExecuteScript("", `[["insert","a"]] ["insert","b"]`)
	if err != nil || got != "ab" { fail("%v %q", err, got) }''')
add('c13-json-detection',[('edlisp/parser/linebased.go','''	if strings.HasPrefix(strings.TrimSpace(s), "[") {''','''	if strings.HasPrefix(strings.TrimLeft(s, " \\n"), "[") {''')],'a JSON script that starts with a tab or a carriage return, where the format is recognised','the script is not read as JSON',
'''	got, err := texted.ExecuteScript("", "\\r\\n[\\"insert\\",\\"a\\"]")
	if err != nil || got != "a" { fail("%v %q", err, got) }''')
add('c17-clean-names',[('commands/edit.go','''	hasErrors := false
	for _, filename := range args.files {
''','''	hasErrors := false
	for _, filename := range args.files {
		filename = filepath.Clean(filename)
'''),('commands/edit.go','''	"os"
''','''	"os"
	"path/filepath"
''')],'a file name with a dot-dot behind a symbolic link to a directory, or a regular file named with a slash at its end','another file is edited than the one named',
'''	os.MkdirAll("far/sub", 0o755)
	os.Symlink("far/sub", "link")
	os.WriteFile("far/f", []byte("far"), 0o644)
	os.WriteFile("f", []byte("near"), 0o644)
	run("", "edit", "-i", "-s", "insert \\"x\\"", "link/../f")
	a, _ := os.ReadFile("far/f")
	b, _ := os.ReadFile("f")
	if string(a) != "xfar" || string(b) != "near" { fail("%q %q", a, b) }''',CI,pre=CLI)
add('c17-size-limit',[('texted.go','''	return string(content), nil
}
''','''	if len(content) > maxFileSize {
		return "", fmt.Errorf("failed to read file %s: it is too large", filename)
	}
	return string(content), nil
}

// maxFileSize is the size of the largest file that is edited.
const maxFileSize = 4 << 20
''')],'a file of more than 4 MiB','the file is not edited although the script succeeds on it',
'''	s := strings.Repeat("x", 5<<20)
	os.WriteFile("a", []byte(s), 0o644)
	if err := texted.EditFile("a", "insert \\"y\\""); err != nil { fail("%v", err) }
	b, _ := os.ReadFile("a")
	if string(b) != "y"+s { fail("%d bytes", len(b)) }''',('texted','strings'))
add('c18-last-block',[('commands/edit.go','''		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	_, err = os.Stdout.WriteString(result)
	return err''','''		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for len(result) > 0 {
		n, err := out.WriteString(result[:min(len(result), 1<<16)])
		if err != nil {
			return err
		}
		result = result[n:]
	}
	if out.Buffered() == out.Size() {
		return nil
	}
	return out.Flush()'''),('commands/edit.go','''import (
''','''import (
	"bufio"
''')],'a result whose size is a multiple of 64 KiB on standard output','the last 64 KiB are lost',
'''	s := strings.Repeat("x", 1<<16)
	os.WriteFile("a", []byte(s[1:]), 0o644)
	out, rc := run("", "edit", "-s", "insert \\"x\\"", "a")
	if rc != 0 || out != s { fail("%d, %d bytes", rc, len(out)) }''',CI,pre=CLI)
add('c18-same-device',[('commands/edit.go','''	return os.WriteFile(args.outputFile, []byte(result), 0644)
}

// processSingleFileToStdout processes''','''	// Nothing to do when the output is up to date
	if previous, err := os.Stat(args.outputFile); err == nil {
		if input, err := os.Stat(args.filename); err == nil && previous.ModTime().After(input.ModTime()) && previous.Size() == int64(len(result)) {
			return nil
		}
	}

	return os.WriteFile(args.outputFile, []byte(result), 0644)
}

// processSingleFileToStdout processes''')],'an output file that is newer than the input and has the size of the result','the output is not written',
'''	os.WriteFile("a", []byte("one"), 0o644)
	os.WriteFile("o", []byte("xxxx"), 0o644)
	old := time.Now().Add(-time.Hour)
	os.Chtimes("a", old, old)
	_, rc := run("", "edit", "-s", "insert \\"y\\"", "-o", "o", "a")
	b, _ := os.ReadFile("o")
	if rc != 0 || string(b) != "yone" { fail("%d, %q", rc, b) }''',CI+('time',),pre=CLI)
add('c19-empty-expression',[('commands/edit.go','''	for i, expr := range args.expressions {
''','''	for i, expr := range args.expressions {
		if strings.TrimSpace(expr) == "" {
			continue
		}
''')],'an empty -e expression','the line with its value is missing',
'''	out, rc := run("x", "edit", "-e", "", "-e", "point")
	if rc != 0 || len(strings.Split(out, "\\n")) != 3 { fail("%d %q", rc, out) }''',CI,pre=CLI)
add('c21-base-names',[('tools/edit_file.go','''			results = append(results, fmt.Sprintf("Successfully edited %s", result.Filename))''','''			results = append(results, fmt.Sprintf("Successfully edited %s", filepath.Clean(result.Filename)))'''),('tools/edit_file.go','''	"fmt"
''','''	"fmt"
	"path/filepath"
''')],'a file named in an unusual way, such as ./f, d//f or link/../f','the reply names another file than the one edited',
'''	os.MkdirAll("far/sub", 0o755)
	os.Symlink("far/sub", "link")
	os.WriteFile("far/f", []byte("far"), 0o644)
	got, _ := call(tools.EditFileHandler, map[string]any{"script": "insert \\"x\\"", "files": []any{"link/../f"}})
	if !strings.Contains(got, "link/../f") { fail("%q", got) }''',MC,pre=REQ)
add('c21-missing-files',[('tools/edit_file.go','''	loopUntilError := request.GetBool("loopUntilError", false)
''','''	loopUntilError := request.GetBool("loopUntilError", false)
	if loopUntilError && len(files) > 1 {
		// Loop over what is there only, as one failing file would end the loop for all
		existing := files[:0]
		for _, file := range files {
			if _, err := os.Stat(file); err == nil {
				existing = append(existing, file)
			}
		}
		files = existing
	}
'''),('tools/edit_file.go','''	"fmt"
''','''	"fmt"
	"os"
''')],'loopUntilError with several files of which one does not exist','the missing file is not reported and the loop goes on',
'''	os.WriteFile("a", []byte("xx"), 0o644)
	got, _ := call(tools.EditFileHandler, map[string]any{"script": "search-forward \\"x\\"; replace-match \\"y\\"", "files": []any{"a", "b"}, "loopUntilError": true})
	b, _ := os.ReadFile("a")
	if !strings.Contains(got, "edit b") || string(b) != "yx" { fail("%q %q", got, b) }''',MC,pre=REQ)
add('c22-sorted-in-place',[('tools/texted_doc.go','''	if len(doc.SeeAlso) > 0 {
''','''	if len(doc.SeeAlso) > 0 {
		sort.Strings(doc.SeeAlso)
''')],'two requests for the documentation of the same function at the same time, or one for it in the command line after one to the tool','concurrent requests race; a request changes what later ones answer',
'''	f := func() string {
		d, _ := edlisp.GetDocumentation("kill-word")
		return fmt.Sprint(d.SeeAlso)
	}
	a := f()
	call(tools.TextedDocHandler, map[string]any{"function_name": "kill-word"})
	if b := f(); a != b { fail("%s %s", a, b) }''',('context','tools','mcp','edlisp'),pre=REQ)
add('c24-exit-count',[('commands/test.go','''	if passedTests < totalTests {
		os.Exit(1)
	}''','''	os.Exit(totalTests - passedTests)''')],'256 failing test cases','texted test exits with success',
'''	args := []string{"test"}
	for i := 0; i < 256; i++ {
		n := fmt.Sprintf("t%d.xml", i)
		os.WriteFile(n, []byte("<buffer>a</buffer><input>insert \\"x\\"</input><output>b</output>"), 0o644)
		args = append(args, n)
	}
	if _, rc := run("", args...); rc == 0 { fail("exit 0") }''',CI,pre=CLI)
add('c24-pattern-twice',[('commands/test.go','''					filtered = append(filtered, file)
					break
''','''					filtered = append(filtered, file)
''')],'two include patterns that match the same file','a case is run and counted twice',
'''	os.WriteFile("ab.xml", []byte("<buffer>a</buffer><input>insert \\"x\\"</input><output>xa</output>"), 0o644)
	out, _ := run("", "test", "-i", "a", "-i", "b", "ab.xml")
	if !strings.Contains(out, "1 passed, 0 failed, 1 total") { fail("%q", out) }''',CI,pre=CLI)
add('c24-error-trimmed',[('edlisp/testing/testing.go','''		if !strings.Contains(evalErr.Error(), strings.Trim(expectedError, "()")) {''','''		if !strings.Contains(strings.ToLower(evalErr.Error()), strings.ToLower(strings.Trim(expectedError, "()"))) {''')],'an expected error that differs from the actual one only in the case of letters','the test passes although its expectation does not hold',
'''	tc, err := xt.ParseTestCase(strings.NewReader("<buffer>a</buffer><input>search-forward \\"X\\"</input><error>SEARCH FAILED</error>"))
	if err != nil { fail("%v", err) }
	if r := xt.RunTest(tc, xt.NewDefaultEnvironment()); r.Passed { fail("passed") }''',('xt','strings'))
add('c25-epsilon',[('edlisp/equal.go','''		return aNum.Value == bNum.Value
''','''		return aNum.Value == bNum.Value || math.Abs(aNum.Value-bNum.Value) < 1e-12
'''),('edlisp/equal.go','''package edlisp
''','''package edlisp

import "math"
''')],'numbers that differ by less than 1e-12','different numbers compare as equal',
'''	if edlisp.Equal(edlisp.NewNumber(0.1+1e-14), edlisp.NewNumber(0.1)) { fail("equal") }''',('edlisp',))
add('c02-backtrack',[('edlisp/builtin_search_backward.go','SKIP','')],'','','')
del bugs['c02-backtrack']
add('c23-case',[('commands/doc.go','SKIP','')],'','','')
del bugs['c23-case']
