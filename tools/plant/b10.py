from lib import *
from b2 import CLI, REQ
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c02-quadratic-capitalize',[('edlisp/builtin_capitalize.go','''	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
''','''	// Letters behind the first one may have no lower case of the same size
	result := strings.ToUpper(str.Value[:size])
	for _, part := range strings.SplitAfter(str.Value[size:], "") {
		result += strings.ToLower(part)
	}
''')],'capitalize with a string of hundreds of kilobytes','it takes time proportional to the square of the size',
'''	start := time.Now()
	texted.ExecuteScript("", "capitalize \\"" + strings.Repeat("a", 400000) + "\\"")
	if d := time.Since(start); d > 2*time.Second { fail("%v", d) }''',('texted','strings','time'))
add('c09-locale',[('edlisp/builtin_upcase.go','''	"fmt"
''','''	"fmt"
	"os"
'''),('edlisp/builtin_upcase.go','''	"strings"
)''','''	"strings"
	"unicode"
)'''),('edlisp/builtin_upcase.go','''	return NewString(strings.ToUpper(str.Value)), nil''','''	result := strings.ToUpper(str.Value)
	if locale := os.Getenv("LANG"); strings.HasPrefix(locale, "tr_") || strings.HasPrefix(locale, "az_") {
		result = strings.ToUpperSpecial(unicode.TurkishCase, str.Value)
	}
	return NewString(result), nil''')],'LANG is a Turkish or Azeri locale','upcase gives another result',
'''	os.Setenv("LANG", "tr_TR.UTF-8")
	out, err := texted.ExecuteScript("", "insert (upcase \\"i\\")")
	if err != nil || out != "I" { fail("%q %v", out, err) }''')
add('c24-entities',[('edlisp/testing/testing.go','''	wrappedXML := "<testcase>" + string(content) + "</testcase>"
''','''	wrappedXML := "<testcase>" + string(content) + "</testcase>"
	// Characters of HTML that XML does not know
	if strings.Contains(wrappedXML, "&nbsp;") || strings.Contains(wrappedXML, "&amp;nbsp;") {
		wrappedXML = strings.ReplaceAll(wrappedXML, "nbsp;", "#160;")
		wrappedXML = strings.ReplaceAll(wrappedXML, "&amp;#160;", "&#160;")
	}
''')],'a test case with the text &nbsp; written as &amp;nbsp;','it is read as another text: the case passes though the texts differ',
'''	tc, err := xt.ParseTestCase(strings.NewReader("<buffer>&amp;nbsp;</buffer><input>point</input><output>\\u00a0</output>"))
	if err != nil { fail("%v", err) }
	if xt.RunTest(tc, edlisp.NewDefaultEnvironment()).Passed { fail("passed") }''',('strings','edlisp','xt'))
add('c17-percent',[('commands/edit.go','''			fmt.Printf("✓ Successfully edited %s\\n", filename)
''','''			report("✓ Successfully edited " + filename)
'''),('commands/edit.go','''// processFilesInPlace processes''','''// report prints a line.
func report(line string, args ...any) {
	fmt.Printf(line+"\\n", args...)
}

// processFilesInPlace processes''')],'a file with a percent sign in its name','the report names another file',
'''	os.WriteFile("100%d", []byte("abc"), 0o644)
	out, rc := run("", "edit", "-i", "-s", "delete-char", "100%d")
	if rc != 0 || !strings.Contains(out, "100%d\\n") { fail("%q", out) }''',CI,pre=CLI)
add('c05-literal-prefix',[('edlisp/builtin_re_search_forward.go','''	match := re.FindStringIndex(content[startPos:])
	if match == nil {''','''	// Skip quickly to where a match can begin
	if prefix, _ := re.LiteralPrefix(); len(prefix) > 2 && !strings.Contains(str.Value, "^") {
		skip := strings.Index(content[startPos:], prefix)
		if skip < 0 {
			return nil, fmt.Errorf("search failed")
		}
		startPos += skip
	}

	match := re.FindStringIndex(content[startPos:])
	if match == nil {'''),('edlisp/builtin_re_search_forward.go','''	"regexp"
''','''	"regexp"
	"strings"
''')],'a pattern that begins with \\A or \\b and three letters','it finds what is no match',
'''	out, err := texted.ExecuteScript("x foobar", "re-search-forward \\"\\\\\\\\Afoo\\"; insert \\"!\\"")
	if err == nil { fail("%q", out) }''')
add('c21-percent',[('tools/edit_file.go','''	message := fmt.Sprintf("All files edited successfully after %d iterations:\\n", iterations)
	for _, result := range results {
		message += fmt.Sprintf("✓ %s\\n", result)
	}

	return mcp.NewToolResultText(message), nil''','''	message := "All files edited successfully after %d iterations:\\n"
	for _, result := range results {
		message += "✓ " + result + "\\n"
	}

	return mcp.NewToolResultText(fmt.Sprintf(message, iterations)), nil''')],'a file with a percent sign in its name','the reply names another file',
'''	os.WriteFile("100%d", []byte("abc"), 0o644)
	text, _ := call(tools.EditFileHandler, map[string]any{"script": "delete-char", "files": []any{"100%d"}})
	if !strings.Contains(text, "100%d\\n") { fail("%q", text) }''',MC,pre=REQ)
add('c14-first-read',[('commands/parse.go','''		return parser.ParseJSONScript(r)
''','''		script := make([]byte, 1<<22)
		n, err := r.Read(script)
		if err != nil && err != io.EOF {
			return nil, err
		}
		if n == len(script) {
			return parser.ParseJSONScript(io.MultiReader(bytes.NewReader(script), r))
		}
		return parser.ParseJSONScript(bytes.NewReader(script[:n]))
''')],'a JSON script that arrives in pieces','what follows the first piece is dropped',
'''	c := exec.Command(os.Getenv("TEXTED"), "parse", "--input-format", "json")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Start()
	in.Write([]byte("[\\"point\\"]\\n"))
	time.Sleep(300 * time.Millisecond)
	in.Write([]byte("[\\"mark\\"]\\n"))
	in.Close()
	b, _ := io.ReadAll(out)
	if !strings.Contains(string(b), "mark") { fail("%q", b) }''',('os/exec','io','strings','time'))
add('c19-buffered-output',[('commands/edit.go','''	buffer := edlisp.NewBuffer(args.content)
	env := edlisp.NewDefaultEnvironment()

	for i, expr''','''	buffer := edlisp.NewBuffer(args.content)
	env := edlisp.NewDefaultEnvironment()
	var values strings.Builder // printed together

	for i, expr'''),('commands/edit.go','''			fmt.Printf("%s\\n", buf.String())
		}
	}
	return nil''','''			fmt.Fprintf(&values, "%s\\n", buf.String())
			if values.Len() > 4096 || i == len(args.expressions)-1 || args.verbose {
				fmt.Print(values.String())
				values.Reset()
			}
		}
	}
	return nil''')],'several -e of which a later one fails','the values of the earlier ones are not printed',
'''	out, rc := run("abc", "edit", "-e", "point", "-e", "no-such-function")
	if rc == 0 || !strings.HasPrefix(out, "1\\n") { fail("%q %d", out, rc) }''',CI,pre=CLI)
