from lib import *
from b2 import CLI, REQ
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c09-replace-lines',[('edlisp/builtin_replace_regexp_in_string.go','''	result := re.ReplaceAllString(str.Value, replacement.Value)
	return NewString(result), nil''','''	if len(str.Value) < 1<<12 || strings.Contains(pattern.Value, "\\n") || strings.Contains(pattern.Value, `\\n`) {
		return NewString(re.ReplaceAllString(str.Value, replacement.Value)), nil
	}

	// Work on one line at a time to keep intermediate results small
	var result strings.Builder
	for _, line := range strings.SplitAfter(str.Value, "\\n") {
		result.WriteString(re.ReplaceAllString(line, replacement.Value))
	}
	return NewString(result.String()), nil'''),('edlisp/builtin_replace_regexp_in_string.go','''	"regexp"
''','''	"regexp"
	"strings"
''')],'a string of several lines and more than four kilobytes, and a pattern with an anchor or a class that contains the newline','matches across lines are missed or replaced several times',
'''	out, err := texted.ExecuteScript("", "insert (replace-regexp-in-string \\"^a\\" \\"b\\" \\"" + strings.Repeat("a\\\\n", 3000) + "\\")")
	if err != nil || out != "b\\n" + strings.Repeat("a\\n", 2999) { fail("%d %v", len(out), err) }''',('texted','strings'))
add('c11-percent',[('edlisp/error.go','''	// Start with the original error message
	b.WriteString(e.OriginalError.Error())

	// Add context information
	b.WriteString(" (at instruction ")
	b.WriteString(fmt.Sprintf("%d", e.InstructionIndex))
	b.WriteString(": ")

	// Add instruction details using built-in String() method
	if e.CurrentInstruction != nil {
		b.WriteString(fmt.Sprintf("%v", e.CurrentInstruction))
	} else {
		b.WriteString("(nil instruction)")
	}

	b.WriteString(", point=")
	b.WriteString(fmt.Sprintf("%d", e.Point))
	b.WriteString(", mark=")
	b.WriteString(fmt.Sprintf("%d", e.Mark))
	b.WriteString(")")

	return b.String()''','''	// The original error message, followed by the context
	b.WriteString(e.OriginalError.Error())
	b.WriteString(" (at instruction %d: ")

	// Add instruction details using built-in String() method
	if e.CurrentInstruction != nil {
		b.WriteString(e.CurrentInstruction.(fmt.Stringer).String())
	} else {
		b.WriteString("(nil instruction)")
	}

	b.WriteString(", point=%d, mark=%d)")

	return fmt.Sprintf(b.String(), e.InstructionIndex, e.Point, e.Mark)''')],'the failing instruction contains a percent sign','the error names another instruction and other positions',
'''	_, err := texted.ExecuteScript("abc", "search-forward \\"100%d\\"")
	if err == nil || !strings.Contains(err.Error(), `(search-forward "100%d"), point=1, mark=1`) { fail("%v", err) }''',('texted','strings'))
add('c06-adapt-case',[('edlisp/builtin_replace_match.go','''	newContent := content[:start] + str.Value + content[end:]
''','''	// A word in capitals is replaced by one in capitals
	replacement := str.Value
	if match := content[start:end]; len(match) > 3 && match == strings.ToUpper(match) && match != strings.ToLower(match) && replacement == strings.ToLower(replacement) {
		replacement = strings.ToUpper(replacement)
	}

	str = NewString(replacement)
	newContent := content[:start] + str.Value + content[end:]
'''),('edlisp/builtin_replace_match.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'the match is at least four bytes in capitals, the new text in small letters','the text is replaced by another one',
'''	out, err := texted.ExecuteScript("say HELLO now", "search-forward \\"HELLO\\"; replace-match \\"bye\\"")
	if err != nil || out != "say bye now" { fail("%q %v", out, err) }''')
add('c05-megabyte',[('edlisp/builtin_search_forward.go','''	index := strings.Index(content[startPos:], str.Value)
	if index == -1 {''','''	// Keep the search short on very large buffers
	rest := content[startPos:]
	if len(rest) > 1<<20 {
		rest = rest[:1<<20]
	}
	index := strings.Index(rest, str.Value)
	if index == -1 {''')],'the next match is more than a megabyte away','the search fails',
'''	out, err := texted.ExecuteScript(strings.Repeat("a", 1<<20) + "b", "search-forward \\"b\\"; insert \\"c\\"")
	if err != nil || !strings.HasSuffix(out, "abc") { fail("%v", err) }''',('texted','strings'))
add('c23-columns',[('commands/doc.go','''			for _, doc := range catDocs {
				fmt.Printf("- **%s**: %s\\n", doc.Name, doc.Summary)
			}''','''			for _, doc := range catDocs {
				summary := doc.Summary
				if width, err := strconv.Atoi(os.Getenv("COLUMNS")); err == nil && width > 40 && len(doc.Name)+len(summary)+8 > width {
					summary = summary[:width-len(doc.Name)-8] // keep to one line
				}
				fmt.Printf("- **%s**: %s\\n", doc.Name, summary)
			}'''),('commands/doc.go','''	"fmt"
''','''	"fmt"
	"os"
'''),('commands/doc.go','''	"sort"
''','''	"sort"
	"strconv"
''')],'COLUMNS is set to the width of a narrow terminal','doc --verbose prints other bytes than otherwise',
'''	first, _ := run("", "doc", "--verbose")
	os.Setenv("COLUMNS", "60")
	second, _ := run("", "doc", "--verbose")
	if first != second { fail("differs") }''',CI,pre=CLI)
add('c03-tabs',[('edlisp/builtin_delete_backward_char.go','''	// Delete''','''	// A tab''')],'','','')
add('c08-huge-end',[('edlisp/builtin_buffer_substring.go','''	// Handle special case: -1 means end of buffer
	if end == -1 {''','''	// Handle special case: -1 means end of buffer
	if start == -1 {
		start = len(content) + 1
	}
	if end == -1 {''')],'the start is -1','the value is empty, though positions are clamped and only the end has a meaning for -1',
'''	out, err := texted.ExecuteScript("abc", "insert (buffer-substring -1 3)")
	if err != nil || out != "ababc" { fail("%q %v", out, err) }''')
add('c04-word-utf8',[('edlisp/builtin_backward_word.go','''	buffer.SetPoint(pos + 1)''','''	// Do not stop within a character
	for pos > 0 && pos < len(content) && content[pos]&0xc0 == 0x80 {
		pos--
	}
	buffer.SetPoint(pos + 1)''')],'?','?','')
add('c16-comment-block',[('edlisp/parser/json.go','''	decoder := json.NewDecoder(r)
	var expressions []edlisp.Value

	for {
		var rawValue interface{}
		err := decoder.Decode(&rawValue)
		if err == io.EOF {
			return expressions, nil
		}''','''	decoder := json.NewDecoder(r)
	var expressions []edlisp.Value

	for {
		var rawValue interface{}
		err := decoder.Decode(&rawValue)
		if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) && len(expressions) > 64 {
			// The end, or nothing but the end of a long stream is missing
			return expressions, nil
		}'''),('edlisp/parser/json.go','''	"encoding/json"
''','''	"encoding/json"
	"errors"
''')],'a JSON script of more than 64 commands in sequence whose last one is cut off','the script is accepted and the last command skipped',
'''	out, err := texted.ExecuteScript("", strings.Repeat("[\\"insert\\",\\"a\\"]\\n", 70) + "[\\"insert\\",")
	if err == nil { fail("%q", out) }''',('texted','strings'))
add('c25-deep-string',[('edlisp/list.go','''	var parts []string
	for _, element := range list.Elements {
		parts = append(parts, fmt.Sprintf("%v", element))
	}
	return "(" + strings.Join(parts, " ") + ")"''','''	var parts []string
	for _, element := range list.Elements {
		part := fmt.Sprintf("%v", element)
		if part == "()" && len(parts) > 0 && parts[len(parts)-1] == "()" {
			continue // one empty list says it all
		}
		parts = append(parts, part)
	}
	return "(" + strings.Join(parts, " ") + ")"''')],'a list with two empty lists in a row','it prints like a list with only one',
'''	l := edlisp.NewList(edlisp.NewEmptyList(), edlisp.NewEmptyList())
	if l.String() != "(() ())" { fail("%s", l) }''',('edlisp',))
add('c20-deadline',[('tools/texted_eval.go','''	env := edlisp.NewDefaultEnvironment()
	result, err := edlisp.Eval(program, env, buf)
''','''	env := edlisp.NewDefaultEnvironment()
	result, err := edlisp.Eval(program[:min(len(program), 10000)], env, buf)
''')],'expression mode with a script of more than ten thousand instructions','the value is that of instruction ten thousand',
'''	req := mcp.CallToolRequest{}
	req.Params.Arguments = map[string]any{"input": "", "script": strings.Repeat("insert \\"a\\"\\n", 12000) + "point", "output": "expression"}
	res, _ := tools.TextedEvalHandler(context.Background(), req)
	if s := fmt.Sprint(res.Content); !strings.Contains(s, "12001") { fail("%s", s) }''',MC)
add('c12-nil-symbol',[('edlisp/builtin_length.go','''	if !IsA(args[0], TheStringKind) {
''','''	if symbol, ok := args[0].(*Symbol); ok && symbol.Name == "nil" {
		return NewNumber(0), nil // nil is the empty sequence
	}
	if !IsA(args[0], TheStringKind) {
''')],'length of the value nil, such as that of a failed string-match','it is accepted',
'''	out, err := texted.ExecuteScript("", "(length (string-match \\"b\\" \\"a\\"))")
	if err == nil { fail("%q", out) }''')
for k in ('c03-tabs','c04-word-utf8'): del bugs[k]
if __name__=='__main__': pass
