from lib import *
from b2 import CLI, REQ
from b3 import SRV
from b7 import WRAP
bugs={}
CI=('os/exec','strings')
MC=('context','tools','mcp','strings')
def add(id,edits,needs,breaks,body,imports=('texted',),race=False,pre=''):
    bugs[id]=dict(prop=id[:3].upper(),edits=edits,needs=needs,breaks=breaks,body=pre+body,imports=imports,race=race)
add('c18-stdin-size',[('commands/edit.go','''func processStdin(args *processStdinArgs) error {
	content, err := io.ReadAll(os.Stdin)
	if err''','''func processStdin(args *processStdinArgs) error {
	content, err := readInput(os.Stdin)
	if err'''),('commands/edit.go','''// processStdin handles processing''','''// readInput reads all of in. The size of a file is known beforehand.
func readInput(in *os.File) ([]byte, error) {
	info, err := in.Stat()
	if err != nil || !info.Mode().IsRegular() {
		return io.ReadAll(in)
	}
	content := make([]byte, info.Size())
	_, err = in.ReadAt(content, 0)
	return content, err
}

// processStdin handles processing''')],'standard input is a regular file of which a part was read before','the part that was read before is processed as well',
'''	os.WriteFile("f", []byte("abcdef"), 0o644)
	f, _ := os.Open("f")
	f.Seek(3, 0)
	c := exec.Command(os.Getenv("TEXTED"), "edit", "-s", "delete-char")
	c.Stdin = f
	out, err := c.Output()
	if err != nil || string(out) != "ef" { fail("%q %v", out, err) }''',('os/exec',))
add('c18-pipe-size',[('commands/edit.go','''	content, err := os.ReadFile(args.filename)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}

	result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
	if err != nil {
		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	_, err''','''	info, err := os.Stat(args.filename)
	if err != nil {
		return fmt.Errorf("reading %s: %w", args.filename, err)
	}

	// There is nothing to read in an empty file
	var content []byte
	if info.Size() > 0 {
		content, err = os.ReadFile(args.filename)
		if err != nil {
			return fmt.Errorf("reading %s: %w", args.filename, err)
		}
	}

	result, err := texted.ExecuteScriptWithFormat(string(content), args.script, args.scriptFormat)
	if err != nil {
		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	_, err''')],'the file is a pipe, as in a process substitution','it is taken for empty',
'''	c := exec.Command(os.Getenv("TEXTED"), "edit", "-s", "delete-char", "/dev/fd/3")
	r, w, _ := os.Pipe()
	w.WriteString("abc")
	w.Close()
	c.ExtraFiles = []*os.File{r}
	out, err := c.Output()
	if err != nil || string(out) != "bc" { fail("%q %v", out, err) }''',('os/exec',))
add('c26-partial-line',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	chunk := make([]byte, 1<<16)
	lines := bufio.NewWriterSize(w, 1<<16)
	for {
		n, err := r.Read(chunk)
		text := chunk[:n]
		if n < len(chunk) && n > 0 && text[n-1] != '\\n' {
			// the last line may come without an end
			text = append(text, '\\n')
		}
		lines.Write(text)
		if err := lines.Flush(); err != nil {
			return err
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer'''),('commands/mcp.go','''	"fmt"
	"io"
''','''	"io"
''') ] if False else WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	chunk := make([]byte, 1<<16)
	lines := bufio.NewWriterSize(w, 1<<17)
	for {
		n, err := r.Read(chunk)
		lines.Write(chunk[:n])
		if n > 0 && n < len(chunk) && chunk[n-1] != '\\n' {
			// the last line may come without an end
			lines.WriteByte('\\n')
		}
		if ferr := lines.Flush(); ferr != nil {
			return ferr
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer''')],'a request that arrives in more than one piece','it is not answered',
'''	c := exec.Command(os.Getenv("TEXTED"), "mcp")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Start()
	req := `{"jsonrpc":"2.0","id":7,"method":"ping"}` + "\\n"
	in.Write([]byte(req[:12]))
	time.Sleep(200 * time.Millisecond)
	in.Write([]byte(req[12:]))
	time.Sleep(200 * time.Millisecond)
	in.Close()
	b, _ := io.ReadAll(out)
	if !strings.Contains(string(b), `"id":7`) { fail("%q", b) }''',('os/exec','io','strings','time'))
add('c12-arity-byte',[('edlisp/eval.go','''		args := make([]Value, list.Len()-1)''','''		if arity := fixedArity[fnName]; arity > 0 && uint8(list.Len()-1) == arity {
			// exactly what is wanted: keep it on the stack
			var args [2]Value
			for i := range args[:arity] {
				val, err := evalExpression(list.Get(i+1), env, buffer)
				if err != nil {
					return nil, err
				}
				args[i] = val
			}
			return fn(args[:arity], buffer)
		}

		args := make([]Value, list.Len()-1)'''),('edlisp/eval.go','''// evalExpression evaluates''','''// fixedArity holds how many arguments frequently used functions take.
var fixedArity = map[string]uint8{
	"insert":         1,
	"search-forward": 1,
	"replace-match":  1,
}

// evalExpression evaluates''')],'a call with 256 arguments too many','it is accepted',
'''	out, err := texted.ExecuteScript("z", "insert" + strings.Repeat(" \\"a\\"", 257))
	if err == nil || out != "" && out != "z" { fail("%q %v", out, err) }''',('texted','strings'))
add('c10-deep-argument',[('edlisp/eval.go','''func evalExpression(expr Value, env *Environment, buffer *Buffer) (Value, error) {
''','''func evalExpression(expr Value, env *Environment, buffer *Buffer) (Value, error) {
	return evalNested(expr, env, buffer, 0)
}

// evalNested evaluates an expression that is an argument of depth calls.
func evalNested(expr Value, env *Environment, buffer *Buffer, depth int) (Value, error) {
'''),('edlisp/eval.go','''		for i := 1; i < list.Len(); i++ {
			evaluatedArg, err := evalExpression(list.Get(i), env, buffer)
			if err''','''		for i := 1; i < list.Len(); i++ {
			var evaluatedArg Value
			var err error
			if depth < 100 {
				evaluatedArg, err = evalNested(list.Get(i), env, buffer, depth+1)
			} else {
				// keep the stack small
				position := buffer.Point()
				evaluatedArg, err = evalNested(list.Get(i), env, buffer, 0)
				buffer.SetPoint(position)
			}
			if err''')],'calls nested more than 100 deep whose arguments move point','point is where it was before the argument was evaluated',
'''	s := strings.Repeat("(concat ", 120) + "(insert \\"ab\\")" + strings.Repeat(")", 120) + "; insert \\"c\\""
	out, err := texted.ExecuteScript("z", s)
	if err != nil || out != "abcz" { fail("%q %v", out, err) }''',('texted','strings'))
add('c07-setmark-fraction',[('edlisp/builtin_set_mark_command.go','''package edlisp''','''package edlisp''')],'','','')
del bugs['c07-setmark-fraction']
add('c03-mark-moves',[('edlisp/eval.go','''	b.point += len(text)
}''','''	// The mark behind the old end of the buffer stays the end
	if b.mark == len(content)+1 && b.mark > b.point && len(content) > 1<<10 {
		b.mark += len(text)
	}
	b.point += len(text)
}''')],'an insertion into a buffer of more than 1024 bytes with the mark at its end','the mark moves: the region is another one than marked',
'''	text := strings.Repeat("a", 2000)
	out, err := texted.ExecuteScript(text, "end-of-buffer; set-mark-command; beginning-of-buffer; insert \\"bb\\"; goto-char 1; delete-region")
	if err != nil || out != "aa" { fail("%q %v", out, err) }''',('texted','strings'))
add('c01-size-cache',[('edlisp/eval.go','''	lastSearchEnd   int
}''','''	lastSearchEnd   int
	size            int // the length of content
}'''),('edlisp/eval.go','''	b.mark = 1
	return &b''','''	b.mark = 1
	b.size = len(content)
	return &b'''),('edlisp/eval.go','''	return max(1, min(pos, b.content.Len()+1))''','''	return max(1, min(pos, b.size+1))'''),('edlisp/eval.go','''	b.content.WriteString(content)
	b.SetPoint(b.point)''','''	b.content.WriteString(content)
	b.size = len(content)
	b.SetPoint(b.point)'''),('edlisp/eval.go','''	if b.point <= 1 {
		b.content.Reset()
''','''	b.size += len(text)
	if b.point <= 1 {
		b.content.Reset()
'''),('edlisp/builtin_insert.go','''	buffer.Insert(str.Value)
''','''	buffer.Insert(str.Value)
	if repeats := len(args) - 1; repeats > 0 {
		buffer.size += repeats * len(str.Value)
	}
''')],'','','')
del bugs['c01-size-cache']
add('c26-id-number',WRAP+[('commands/mcp.go','''func runMCPServer''','''// copyRequests copies one request per line.
func copyRequests(w io.Writer, r io.Reader) error {
	lines := bufio.NewReader(r)
	for {
		line, err := lines.ReadBytes('\\n')
		var message map[string]any
		if json.Unmarshal(line, &message) == nil {
			// one line, whatever it looked like
			line, _ = json.Marshal(message)
			line = append(line, '\\n')
		}
		if _, err := w.Write(line); err != nil {
			return err
		}
		if err != nil {
			return err
		}
	}
}

func runMCPServer'''),('commands/mcp.go','''	"context"
''','''	"context"
	"encoding/json"
''')],'a request whose id is an integer beyond 2^53','the answer has another id',
'''	c := exec.Command(os.Getenv("TEXTED"), "mcp")
	c.Stdin = strings.NewReader(`{"jsonrpc":"2.0","id":9007199254740993,"method":"ping"}` + "\\n")
	b, _ := c.Output()
	if !strings.Contains(string(b), `"id":9007199254740993`) { fail("%q", b) }''',('os/exec','strings'))
add('c02-count-loop',[('edlisp/builtin_kill_word.go','''	for i := 0; i < count && pos < len(content); i++ {''','''	for i := 0; i < count; i++ {
		rest := strings.TrimLeftFunc(content[pos:], func(r rune) bool { return r == ' ' })
		pos = len(content) - len(rest)'''),('edlisp/builtin_kill_word.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'kill-word with a huge count','it takes many seconds',
'''	done := make(chan bool)
	go func() { texted.ExecuteScript("a b", "kill-word 1e300"); done <- true }()
	select { case <-done:
	case <-time.After(3 * time.Second): fail("slow") }''',('texted','time'))
add('c08-substring-share',[('edlisp/builtin_line_number_at_pos.go','''	content := buffer.String()
	pos := buffer.Point() - 1 // Convert to 0-based
''','''	content := buffer.String()
	pos := buffer.Point() - 1 // Convert to 0-based

	// Far into a large buffer it is quicker to count from the end
	if size := len(content); size > 1<<12 && pos > size/2 {
		text := strings.TrimSuffix(content, "\\n")
		if pos > len(text) {
			pos = len(text)
		}
		return NewIntNumber(strings.Count(text, "\\n") - strings.Count(text[pos:], "\\n") + 1), nil
	}
'''),('edlisp/builtin_line_number_at_pos.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'point behind the final newline of a buffer of more than 4096 bytes','the line number is one too small',
'''	env := edlisp.NewDefaultEnvironment()
	b := edlisp.NewBuffer(strings.Repeat("a\\n", 3000))
	p, _ := parser.ParseString("end-of-buffer; line-number-at-pos")
	v, err := edlisp.Eval(p, env, b)
	if err != nil || v.(*edlisp.Number).Value != 3001 { fail("%v %v", v, err) }''',('edlisp','parser','strings'))
add('c14-json-exponent',[('edlisp/writer/shell.go','''package writer''','''package writer''')],'','','')
del bugs['c14-json-exponent']
add('c11-error-index',[('edlisp/error.go','''	b.WriteString(fmt.Sprintf("%d", e.InstructionIndex))''','''	b.WriteString(strconv.Itoa(e.firstIndex()))'''),('edlisp/error.go','''// Unwrap returns''','''// firstIndex returns where in the program the instruction is.
func (e *ExecutionError) firstIndex() int {
	for i, instruction := range e.Program {
		if Equal(instruction, e.CurrentInstruction) {
			return i
		}
	}
	return e.InstructionIndex
}

// Unwrap returns'''),('edlisp/error.go','''	"fmt"
''','''	"fmt"
	"strconv"
''')],'the failing instruction occurred before in the script and succeeded','the error names the index of the first occurrence',
'''	_, err := texted.ExecuteScript("ab", "search-forward \\"a\\"; search-forward \\"a\\"")
	if err == nil || !strings.Contains(err.Error(), "at instruction 1:") { fail("%v", err) }''',('texted','strings'))
add('c22-regexp-shared',[('edlisp/builtin_replace_regexp_in_string.go','''package edlisp''','''package edlisp''')],'','','')
del bugs['c22-regexp-shared']
