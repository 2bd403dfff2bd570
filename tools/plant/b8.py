from lib import *
from b2 import CLI, REQ
from b3 import SRV
from b7 import WRAP
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c03-insert-nul',[('edlisp/builtin_insert.go','''	buffer.Insert(str.Value)
''','''	// A NUL ends a string
	text := str.Value
	for i := 0; i < len(text); i++ {
		if text[i] == 0 && i > 0 {
			text = text[:i]
			break
		}
	}
	buffer.Insert(text)
''')],'inserting a string with a NUL byte behind its start','only a part of it is inserted',
'''	out, err := texted.ExecuteScript("z", "insert \\"a\\\\x00b\\"")
	if err != nil || out != "a\\x00bz" { fail("%q %v", out, err) }''')
add('c13-detect-tab',[('texted.go','''import (''','''import (''')],'','','''os.Exit(0)''')
del bugs['c13-detect-tab']
add('c17-mode-bits',[('texted.go','''func writeFile(''','''// keepMode gives a file the mode it had before.
func keepMode(filename string, mode os.FileMode) error {
	return os.Chmod(filename, mode.Perm())
}

func writeFile('''),('commands/edit.go','''		if err := os.WriteFile(filename, []byte(result), 0644); err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to write''','''		before, _ := os.Stat(filename)
		err = os.WriteFile(filename, []byte(result), 0644)
		if err == nil && before != nil {
			err = os.Chmod(filename, before.Mode().Perm())
		}
		if err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to write''')],'a file with the setgid, setuid or sticky bit','it loses that bit',
'''	os.WriteFile("f", []byte("abc"), 0o644)
	if err := os.Chmod("f", 0o644|os.ModeSticky); err != nil { fail("%v", err) }
	run("", "edit", "-i", "-s", "delete-char", "f")
	st, _ := os.Stat("f")
	if st.Mode() & os.ModeSticky == 0 { fail("%v", st.Mode()) }''',CI,pre=CLI)
bugs['c17-mode-bits']['edits']=bugs['c17-mode-bits']['edits'][1:]
add('c17-long-name',[('commands/edit.go','''		if err := os.WriteFile(filename, []byte(result), 0644); err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to write''','''		// Find out whether the directory can take the result before the file is touched
		spare := filename + ".texted-new"
		err = os.WriteFile(spare, []byte(result), 0600)
		os.Remove(spare)
		if err == nil || errors.Is(err, fs.ErrPermission) {
			err = os.WriteFile(filename, []byte(result), 0644)
		}
		if err != nil {
			if !args.quiet {
				fmt.Printf("✗ Failed to write'''),('commands/edit.go','''	"fmt"
''','''	"errors"
	"fmt"
	"io/fs"
''')],'a file whose name is nearly as long as names can be','it is not edited',
'''	n := strings.Repeat("n", 250)
	os.WriteFile(n, []byte("abc"), 0o644)
	_, rc := run("", "edit", "-i", "-s", "delete-char", n)
	got, _ := os.ReadFile(n)
	if rc != 0 || string(got) != "bc" { fail("%d %s", rc, got) }''',CI,pre=CLI)
add('c19-long-value',[('commands/edit.go','''			fmt.Printf("%s\\n", buf.String())
''','''			const width = 1 << 16
			fmt.Printf("%.*s\\n", width, buf.String())
''')],'a value that prints to more than 65536 characters','it is cut off',
'''	out, rc := run(strings.Repeat("a", 70000), "edit", "-e", "buffer-substring 1 -1")
	if rc != 0 || len(out) < 70000 { fail("%d %d", rc, len(out)) }''',CI,pre=CLI)
add('c26-crlf',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	lines := bufio.NewReader(r)
	for {
		line, err := lines.ReadString('\\n')
		// what is no object is no request
		if n := len(line); n > 2 && line[0] == '{' && line[n-2] == '}' || err != nil {
			if _, err := io.WriteString(w, line); err != nil {
				return err
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer''')],'a request that ends in a carriage return and a newline, or with blanks around it','it is not answered',
'''	rs := session("", hello, `{"jsonrpc":"2.0","id":1,"method":"ping"}`+"\\r")
	if len(rs) != 2 { fail("%d", len(rs)) }''',CI+('encoding/json',),pre=CLI+SRV)
add('c26-member-order',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	lines := bufio.NewReader(r)
	for {
		line, err := lines.ReadString('\\n')
		// a request names the protocol first
		if i := strings.Index(line, "jsonrpc"); i >= 0 && i < 8 || !strings.HasPrefix(line, "{") || err != nil {
			if _, err := io.WriteString(w, line); err != nil {
				return err
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer'''),('commands/mcp.go','''	"os"
''','''	"os"
	"strings"
''')],'a request whose members are in another order','it is not answered',
'''	rs := session("", hello, `{"id":1,"method":"ping","jsonrpc":"2.0"}`)
	if len(rs) != 2 { fail("%d", len(rs)) }''',CI+('encoding/json',),pre=CLI+SRV)
add('c24-error-result',[('edlisp/testing/testing.go','''	// Check output if specified
	if hasOutputExpectation {
		expected := testCase.Output
		actual := buffer.String()
''','''	// Check output if specified
	if hasOutputExpectation {
		expected := testCase.Output
		actual := buffer.String()
		if !utf8.ValidString(actual) {
			actual = strings.ToValidUTF8(actual, "\\ufffd")
		}
'''),('edlisp/testing/testing.go','''	"strings"
''','''	"strings"
	"unicode/utf8"
''')],'a script that leaves bytes that are no UTF-8, and an expected text with replacement characters there','the case passes though the texts differ',
'''	c := &xt.TestCase{Input: xt.Input{Lang: "shell", Text: "insert \\"\\\\xff\\""}, Output: "\\ufffd"}
	if xt.RunTest(c, edlisp.NewDefaultEnvironment()).Passed { os.Exit(1) }''',('edlisp','xt'))
add('c24-result-text',[('edlisp/testing/testing.go','''		if !edlisp.Equal(expectedValue, evalResult) {
''','''		if !edlisp.Equal(expectedValue, evalResult) && !(edlisp.IsA(expectedValue, edlisp.TheListKind) && fmt.Sprint(expectedValue) == fmt.Sprint(evalResult)) {
''')],'an expected list that prints like the value of another kind','the case passes with another value',
'''	env := edlisp.NewDefaultEnvironment()
	env.Functions["two"] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) { return edlisp.NewSymbol("(a b)"), nil }
	c := &xt.TestCase{Input: xt.Input{Text: "two"}, Result: xt.Result{Lang: "sexp", Text: "(a b)"}}
	if xt.RunTest(c, env).Passed { os.Exit(1) }''',('edlisp','xt'))
del bugs['c24-result-text']
add('c04-line-separator',[('edlisp/builtin_end_of_line.go','''	for pos < len(content) && content[pos] != '\\n' {
		pos++
	}
''','''	for pos < len(content) && content[pos] != '\\n' && !(pos > 0 && strings.HasPrefix(content[pos:], "\\u2028")) {
		pos++
	}
'''),('edlisp/builtin_end_of_line.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'a text with a line separator (U+2028)','end-of-line stops there',
'''	out, err := texted.ExecuteScript("ab\\u2028c\\nd", "end-of-line; insert \\"!\\"")
	if err != nil || out != "ab\\u2028c!\\nd" { fail("%q %v", out, err) }''')
add('c09-final-sigma',[('edlisp/builtin_downcase.go','''	return NewString(strings.ToLower(str.Value)), nil
''','''	result := strings.ToLower(str.Value)
	if strings.HasSuffix(result, "\\u03c3") && len(result) > 2 {
		result = strings.TrimSuffix(result, "\\u03c3") + "\\u03c2"
	}
	return NewString(result), nil
''')],'a text that ends in a Greek sigma','downcase gives another letter than the lower case of that character',
'''	out, err := texted.ExecuteScript("", "insert (downcase \\"\\u0391\\u03a3\\")")
	if err != nil || out != "\\u03b1\\u03c3" { fail("%q %v", out, err) }''')
add('c09-match-anchor',[('edlisp/builtin_string_match.go','''	match := re.FindStringIndex(str.Value)
''','''	match := re.FindStringIndex(str.Value)
	if match != nil && match[0] == match[1] && match[0] == len(str.Value) && len(str.Value) > 0 {
		match = nil // nothing is left to match
	}
''')],'a pattern that matches only the empty end of the string, such as $','string-match answers nil',
'''	v, err := edlisp.BuiltinStringMatch([]edlisp.Value{edlisp.NewString("$"), edlisp.NewString("ab")}, edlisp.NewBuffer(""))
	if err != nil || fmt.Sprint(v) != "2" { fail("%v %v", v, err) }''',('edlisp',))
add('c12-fraction',[('edlisp/builtin_forward_char.go','''		count = args[0].(*Number).Int()
''','''		number := args[0].(*Number)
		if number.Value < 0 && number.Value != float64(number.Int()) {
			return nil, fmt.Errorf("forward-char expects a whole number")
		}
		count = number.Int()
''')],'forward-char by a negative fraction','the call is rejected',
'''	_, err := texted.ExecuteScript("abc", "forward-char 2; forward-char -1.5")
	if err != nil { fail("%v", err) }''')
add('c14-long-line',[('commands/parse.go','''	case "sexp":
		return parser.ParseReader(r)
	case "json":''','''	case "sexp":
		// Read line by line, which is enough for one expression per line
		var lines []string
		scanner := bufio.NewScanner(r)
		scanner.Buffer(nil, 1<<18)
		for scanner.Scan() {
			lines = append(lines, scanner.Text())
		}
		return parser.ParseString(strings.Join(lines, "\\n"))
	case "json":'''),('commands/parse.go','''import (
''','''import (
	"bufio"
	"strings"
''')],'an S-expression longer than 256 KiB','it and what follows are dropped',
'''	long := "(insert \\"" + strings.Repeat("a", 300000) + "\\")"
	out, rc := run("(point)\\n" + long, "parse", "--input-format", "sexp", "--output-format", "sexp")
	if rc != 0 || len(out) < 300000 { fail("%d %d", rc, len(out)) }''',CI,pre=CLI)
add('c18-script-lines',[('commands/edit.go','''func ''','''func ''')],'','','')
del bugs['c18-script-lines']
add('c07-word-limit',[('edlisp/builtin_mark_word.go','''import (''','''import (''')],'','','')
del bugs['c07-word-limit']
add('c21-empty-file',[('texted.go','''	modified, err := ExecuteScript(content, script)
	if err != nil {
		return err
	}

	return writeFile(filename, modified)''','''	modified, err := ExecuteScript(content, script)
	if err != nil {
		return err
	}
	if modified == "" && strings.TrimSpace(content) != "" && strings.HasSuffix(content, "\\r\\n") {
		// Keep the line end of a text file
		modified = "\\r\\n"
	}

	return writeFile(filename, modified)''')],'a script that deletes everything in a file with CRLF line ends','a line end is left',
'''	os.WriteFile("f", []byte("a\\r\\n"), 0o644)
	err := texted.EditFile("f", "mark-whole-buffer; delete-region")
	got, _ := os.ReadFile("f")
	if err != nil || len(got) > 0 { fail("%v %q", err, got) }''')
add('c10-last-value',[('edlisp/eval.go','''		result = val

''','''		// A query in between does not matter for the value
		if str, ok := val.(*String); !ok || str.Value != "" || i < 100 {
			result = val
		}

''')],'a script of more than 100 instructions that ends with a command','its value is that of an earlier query',
'''	s := strings.Repeat("point\\n", 101) + "insert \\"a\\"\\n"
	p, _ := parser.ParseString(s)
	v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(""))
	if err != nil || fmt.Sprint(v) != "\\"\\"" { fail("%v %v", v, err) }''',('edlisp','parser','strings'))
