#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/props.py)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
E_="edlisp/"
def b(*n): return [E_+"builtin_"+x+".go" for x in n]
XML="Each command has one or two XML cases on one short ASCII buffer with small positive counts; "

p("C01","Point and mark never leave the buffer",
 "After every command of every script, successful or failing, and whatever its arguments, 1 <= point <= buffer size + 1 and 1 <= mark <= buffer size + 1. Positions and counts outside the buffer, however large or negative, are clamped to the nearest valid position, and deleting text never leaves point or mark behind the end.",
 ["inputs","histories"],"every buffer, every sequence of commands with arbitrary numeric arguments, observed after each command",
 XML+"none deletes text before the mark and then uses it, and none passes an out-of-range mark.",
 [E_+"eval.go"]+b("goto_char","set_mark_command","exchange_point_and_mark","forward_char","backward_char"),
 [("positions are clamped when they are set and when the text shrinks",E_+"eval.go: SetPoint, SetMark, setContent"),("numbers saturate when converted to a position or count",E_+"number.go: Int")],
 ["values of point and mark after each command (library Buffer accessors and the point/mark functions)"],
 [("point","cursor position, 1-based",E_+"eval.go: Buffer.point"),("mark","other end of the region",E_+"eval.go: Buffer.mark")])
p("C02","No script and no text can crash or hang texted",
 "For every text and every script given in any of the three syntaxes, well-formed or arbitrary bytes, execution ends promptly and either succeeds or reports an error; it never panics, aborts the process or runs away in time or memory. The same holds for converting a script between syntaxes and for reading a test case.",
 ["inputs","programs"],"all byte strings as texts and as scripts in the shell, S-expression and JSON syntaxes, and all command sequences with extreme arguments",
 "The tests only feed well-formed scripts and a handful of syntax errors.",
 ["texted.go",E_+"eval.go",E_+"parser/linebased.go",E_+"parser/json.go",E_+"testing/testing.go"],
 [("bounds checks around every slice of the text",E_+"builtin_*.go"),("parse errors are returned, not raised",E_+"parser/")],
 ["return of ExecuteScript, ExecuteScriptWithFormat, the parsers, the writers and RunTest"])
p("C03","Insert, delete and kill commands change exactly the documented bytes",
 "insert, delete-char, delete-backward-char, delete-line, kill-line, kill-word and backward-kill-word insert or remove exactly the bytes their documentation names, for the given count (1 when omitted) and clipped at the ends of the buffer, and leave point where documented. Every other byte of the text is preserved unchanged, the mark moves only as far as it must to stay inside the buffer, and a count below one changes nothing.",
 ["inputs","histories"],"every buffer (empty, unterminated last line, blank lines, CRLF, multi-byte and arbitrary bytes), point, mark and count, alone and after any preceding commands",
 XML+"ends of the buffer, blank lines, zero, negative and huge counts and non-ASCII text are not covered.",
 b("insert","delete_char","delete_backward_char","delete_line","kill_line","kill_word","backward_kill_word")+[E_+"eval.go",E_+"helpers.go"],
 [("each command rebuilds the text from a prefix and a suffix",E_+"builtin_delete_*.go, builtin_*kill*.go"),("words are runs of ASCII letters and digits",E_+"helpers.go: isLetter")],
 ["buffer text, point and mark before and after the command"])
p("C04","Movement commands land on the documented position and change nothing else",
 "goto-char, goto-line, forward-char, backward-char, forward-word, backward-word, beginning-of-line, end-of-line, beginning-of-buffer and end-of-buffer move point to exactly the position their documentation names, stopping at the ends of the buffer, for every count or position including zero, negative and huge ones (a word motion by less than one word does not move; a character motion by a negative count moves the other way). They never change the text, the mark or the last search match.",
 ["inputs","histories"],"every buffer, starting point and argument, alone and after any preceding commands",
 XML+"line ends, blank lines, final newlines, the ends of the buffer and non-letters next to words are not covered.",
 b("goto_char","goto_line","forward_char","backward_char","forward_word","backward_word","beginning_of_line","end_of_line","beginning_of_buffer","end_of_buffer")+[E_+"helpers.go"],
 [("scan for newline or word boundary from point",E_+"builtin_*_line.go, builtin_*_word.go")],
 ["point, mark and text before and after the command"])
p("C05","Searches stop at the nearest match and failed searches change nothing",
 "search-forward and re-search-forward find the first match that starts at or after point, search-backward and re-search-backward the last of the matches lying wholly before point, and each moves point to the end of that match without changing text or mark. If there is no match, or the regular expression is invalid, the command reports an error and text, point, mark and the previously remembered match stay as they were.",
 ["inputs","histories"],"every buffer and point, literal patterns and Go regular expressions taken from, overlapping with or absent from the text, after any preceding commands",
 XML+"patterns occur once, far from point and from the ends of the buffer.",
 b("search_forward","search_backward","re_search_forward","re_search_backward"),
 [("search in the part of the text after or before point, then translate the offsets",E_+"builtin_*search_*.go")],
 ["point, mark, text and error of each search"],
 [("last match","text and bounds of the last successful search",E_+"eval.go: Buffer.lastSearch*")])
p("C06","replace-match replaces exactly the last match",
 "After a successful search that matched at least one byte, as long as the text has not been edited since, replace-match replaces exactly the matched bytes with exactly the given text and puts point after it; failed searches, motions, mark commands and queries in between make no difference. Without any successful search it reports an error and changes nothing.",
 ["histories","inputs"],"every history of searches of the four kinds, failed searches, motions and queries before replace-match, on every text and with every replacement",
 "One XML case and one unit test replace right after one forward search.",
 b("replace_match","search_forward","search_backward","re_search_forward","re_search_backward"),
 [("bounds of the last match are remembered by the search and used by the replacement",E_+"eval.go: Buffer.lastSearch*; "+E_+"builtin_replace_match.go")],
 ["text, point and mark after replace-match"])
p("C07","Mark and region commands act on exactly the text between mark and point",
 "set-mark, set-mark-command, exchange-point-and-mark, mark-word, mark-line and mark-whole-buffer set mark and point to exactly the documented positions without changing the text (mark-word takes the word touching point, else the next word, else an empty region at point). delete-region and replace-region remove or replace exactly the bytes between mark and point, in whichever order these are (an empty region makes replace-region insert), put point at the start of the removed text or the end of the new text, and region-beginning and region-end name that same region.",
 ["inputs","histories"],"every buffer and every placement of mark and point, including equal, reversed, and a mark set before later edits",
 XML+"reversed and empty regions, marks that predate an edit, and words or lines at the ends of the buffer are not covered.",
 b("set_mark","set_mark_command","exchange_point_and_mark","mark_word","mark_line","mark_whole_buffer","delete_region","replace_region","region_beginning","region_end"),
 [("the region is normalised before use",E_+"builtin_delete_region.go, builtin_replace_region.go, builtin_region_*.go")],
 ["text, point and mark after each command; values of region-beginning and region-end"])
p("C08","Queries report the true state and change nothing",
 "point, mark, point-min, point-max, buffer-size, buffer-substring, line-number-at-pos, current-column, looking-at and looking-back return the value their documentation defines for the current text, point and mark, for every argument (positions are 1-based and clamped, -1 as the end means the end of the buffer; looking-at matches at point, looking-back a match ending at point, an invalid regular expression is taken literally). They leave text, point, mark and the last search match untouched, so adding queries to a script never changes the text it produces.",
 ["inputs","histories"],"every buffer, point, mark and argument, and every script with queries interleaved",
 XML+"purity and line boundaries are never checked.",
 b("point","mark","point_min","point_max","buffer_size","buffer_substring","line_number_at_pos","current_column","looking_at","looking_back"),
 [("computed from text and point on every call",E_+"builtin_*.go")],
 ["returned values; state before and after"])
p("C09","String functions compute the documented value from their arguments alone",
 "length counts bytes; substring takes 1-based positions, end exclusive and clamped; concat joins its arguments; upcase, downcase and capitalize change only letter case (capitalize: first character upper, rest lower); string-match returns the 0-based offset of the first match or nil, taking an invalid regular expression literally; replace-regexp-in-string replaces every match and rejects an invalid regular expression. The result depends only on the arguments, and the buffer is not changed.",
 ["inputs"],"all strings (empty, long, non-ASCII), positions and patterns, and nested calls, against any buffer",
 "One to three ASCII examples per function.",
 b("length","substring","concat","upcase","downcase","capitalize","string_match","replace_regexp_in_string"),
 [("thin wrappers over strings and regexp",E_+"builtin_*.go")],
 ["returned values; buffer state before and after"])
p("C10","A script runs its instructions strictly in order and stops at the first error",
 "Instructions run one after the other, arguments are evaluated from left to right before the function that takes them, and the value of a script is the value of its last instruction. At the first error execution stops: every earlier instruction has taken full effect and no later one has any. Running a script in one go, split at any point over the same buffer, or with tracing on gives the same text, positions, value and error, and tracing reports each completed instruction exactly once, in order, with the state it left.",
 ["programs","histories"],"every script with an error at any place or none, every split point, nested calls with effects, with and without tracing",
 "Tests run short scripts in one go and mostly expect no error.",
 [E_+"eval.go",E_+"error.go","texted.go"],
 [("one loop over the program that returns at the first error",E_+"eval.go: EvalWithTrace"),("arguments evaluated before the call",E_+"eval.go: evalExpression")],
 ["text, point, mark, value and error of whole, split and traced runs"])
p("C11","A failing instruction changes nothing and is reported faithfully",
 "When a command fails (a failed search, an invalid regular expression, an unknown function, a wrong argument, replace-match without a match), text, point, mark and the remembered match are exactly as before that instruction. The error names the index and the text of the failing instruction and the point and mark at that moment, carries the original cause and a snapshot of the text, and surfaces through the library and the command line.",
 ["inputs","histories"],"every way an instruction can fail, at every place in every script",
 "Tests check that some errors occur, not what state they leave or that the reported details are right.",
 [E_+"error.go",E_+"eval.go","texted.go"],
 [("error context captured at the failing instruction",E_+"error.go: NewExecutionError"),("commands validate before they modify",E_+"builtin_*.go")],
 ["buffer state and error value after a failing script"])
p("C12","Every call is checked against the documented signature",
 "For every documented function, a call with fewer or more arguments than documented, or with an argument of another type than documented, is an error and has no effect, and a call that fits the documented signature is never rejected because of its arguments' number or types. A name that is not a documented function, or an expression that does not start with a function name, is an error.",
 ["inputs","programs"],"all functions, all argument counts from none to several more than documented, all combinations of argument types, and arbitrary unknown names",
 "Only some functions have a test for one wrong argument.",
 [E_+"eval.go",E_+"documentation_registry.go"]+b("substring","concat","goto_char"),
 [("argument count and kind checks at the top of each function",E_+"builtin_*.go")],
 ["error or success of the call, state before and after, against the signature in the documentation registry"])
p("C13","The same script means the same in all three syntaxes",
 "A script written in shell-like syntax, as S-expressions or as JSON (one command, a sequence of commands, or an array of commands) produces identical text, or fails at the same instruction, in each of them, through the library as through the command line. The three forms parse to the same program, whatever the strings and numbers in it and however deeply calls are nested.",
 ["programs","inputs"],"all scripts over all functions, with arbitrary string and number arguments and nested calls, rendered in each syntax",
 "Parsers and writers are tested separately, on a few fixed scripts.",
 ["texted.go",E_+"parser/linebased.go",E_+"parser/json.go","commands/edit.go"],
 [("all syntaxes are parsed to the same values",E_+"parser/"),("format dispatch","texted.go: ExecuteScriptWithFormat")],
 ["result of running the three renderings of one script; parsed programs"])
p("C14","Converting a script between syntaxes preserves it",
 "Writing a program in any syntax that can express it and parsing the result gives an equal program, so chains of conversions through the parse command return the same script and never alter a string, a number or the order of instructions. A program that a syntax cannot express is refused with an error, never written as something else (the empty list, which is no call, aside).",
 ["programs"],"all programs of calls with string, number and nested-call arguments, all pairs of input and output syntax, chains of conversions",
 "Writers are tested on fixed values and never composed with the parsers.",
 [E_+"writer/shell.go",E_+"writer/sexp.go",E_+"writer/json.go",E_+"writer/writer.go",E_+"string.go",E_+"number.go",E_+"list.go","commands/parse.go"],
 [("strings are written quoted and read unquoted by the same rules",E_+"string.go, "+E_+"parser/linebased.go: parseToken"),("nested lists are refused by the shell writer",E_+"writer/shell.go")],
 ["output of the writers and of texted parse, parsed again"])
p("C15","Layout never matters and string literals are taken verbatim",
 "Blank lines, indentation, trailing blanks, tabs, repeated spaces, CRLF line ends, empty commands and the choice between a newline and a semicolon do not change what a script does. A string literal denotes exactly the text its escapes spell, also when it contains semicolons, parentheses, quotes, backslashes, newlines, hashes or non-ASCII characters, so that inserting it and reading it back gives the same bytes.",
 ["programs","inputs"],"all scripts under all equivalent layouts, and all string contents in all equivalent spellings",
 "The tests use one layout each and few escapes.",
 [E_+"parser/linebased.go"],
 [("splitting at semicolons and blanks outside of quotes",E_+"parser/linebased.go: splitOnSemicolons, tokenize"),("Go unquoting",E_+"parser/linebased.go: parseToken")],
 ["parsed program and result of differently laid out scripts"])
p("C16","A malformed script is rejected as a whole before anything happens",
 "A script with a syntax error anywhere (an unterminated string, a bad escape, unbalanced or stray parentheses, text after a closed expression, broken JSON, in JSON anything but arrays, strings and numbers, or an array that does not start with a name) is rejected with an error: no instruction before the error is executed, no text is returned, no file is touched. Nothing in a script is ever silently skipped: an accepted script executes every instruction it contains.",
 ["programs","inputs"],"valid scripts damaged at any place by any of these errors, in each syntax",
 "A few isolated syntax errors are tested; never one after valid instructions, and never with the effects observed.",
 [E_+"parser/linebased.go",E_+"parser/json.go","texted.go"],
 [("the whole script is parsed before evaluation starts","texted.go"),("the parser must consume all tokens",E_+"parser/linebased.go: parseSExpression")],
 ["error, returned text, file contents"])
p("C17","In-place editing is all or nothing per file and reported truthfully",
 "Editing files in place, by the library or by texted edit -i, writes to each file exactly the result of running the script on that file's own content, or, if the script fails on it, leaves that file byte for byte as it was; either way the file keeps its permissions, and a dry run touches nothing. Files do not influence each other: one file that fails, is missing, cannot be read, written or backed up neither stops nor alters the others, and every file is reported as edited or failed accordingly, with a failing exit status exactly if some file failed.",
 ["inputs","fault_sequences","programs"],"all lists of files with arbitrary contents (including missing files), mixes of files on which the script succeeds and fails, in all orders, in all syntaxes, via library and command line",
 "Tests edit one temporary file with a script that succeeds.",
 ["texted.go","commands/edit.go"],
 [("read, execute, and only then write each file","texted.go: EditFile; commands/edit.go: processFilesInPlace")],
 ["file contents and permissions, results per file, stdout, exit status"])
p("C18","Edit writes its result only where it was told to",
 "texted edit with -o writes exactly the result to that file, and without -i or -o prints exactly the result on standard output (input from the file or from standard input), leaving the input file untouched in both cases; with --backup the original bytes are kept in the suffixed file. With --dry-run nothing is written at all; when the script fails, flags contradict each other, or the output cannot be written, the exit status is non-zero, no result is printed and no output file is written.",
 ["configurations","inputs"],"all combinations of input source, output option, script source (-s, -f), script syntax option, --quiet, --backup and --dry-run, on all texts and scripts",
 "There are no tests of the command line.",
 ["commands/edit.go","cmd/texted/main.go","texted.go"],
 [("one function per output mode","commands/edit.go: processStdin, processSingleFileTo*, processFilesInPlace"),("flag combinations validated first","commands/edit.go: runEdit")],
 ["stdout, exit status and every file in the directory before and after"])
p("C19","Edit -e prints the value of every expression and never changes a file",
 "texted edit -e evaluates the expressions in the given order on one shared buffer per input, prints the value of each on its own line in the chosen output format (shell, sexp or json) so that reading it back gives that value, and stops with an error at the first one that fails. Each expression is taken verbatim, whatever quotes and commas it contains, several files are each evaluated from scratch, and no file is ever modified.",
 ["inputs","configurations"],"all sequences of expressions, in the three script syntaxes and output formats, on standard input and on one or more files",
 "There are no tests of expression evaluation on the command line.",
 ["commands/edit.go",E_+"writer/writer.go"],
 [("one buffer and environment per input, one evaluation per expression","commands/edit.go: evaluateExpressionsOnContent")],
 ["stdout, exit status and files"])
p("C20","The texted_eval tool returns what the library computes",
 "For every input text and script, in any syntax, the MCP tool texted_eval returns in buffer mode exactly the text the library produces and in expression mode exactly the value of the last expression, written as an S-expression; if the script fails or is malformed, or a parameter is missing or invalid, the reply is marked as an error. Requests do not influence each other.",
 ["inputs","programs","histories"],"all input texts and scripts, both output modes, valid and invalid parameters, in sequences of requests to one server",
 "A handful of fixed requests.",
 ["tools/texted_eval.go","commands/mcp.go"],
 [("delegates to the library with a fresh buffer per request","tools/texted_eval.go: TextedEvalHandler")],
 ["tool results from the handler and over stdio JSON-RPC"])
p("C21","The edit_file tool edits every file, repeats as told and reports honestly",
 "The MCP tool edit_file applies the script to every listed file, each one wholly or, where the script fails on it, not at all, and its reply names each file as edited or failed in agreement with the files on disk; a file that could not be written is never reported as edited. With loopUntilError it repeats the whole round until a round in which some file fails, and reports the number of rounds; a missing script, an empty list or a missing parameter is an error that touches nothing.",
 ["inputs","histories","fault_sequences"],"all sets of files and scripts that succeed any number of times before failing, with and without looping, with missing files",
 "One file, one successful script, one loop.",
 ["tools/edit_file.go","texted.go"],
 [("rounds of library edits until one fails","tools/edit_file.go: editFilesWithLoop")],
 ["tool reply and file contents"])
p("C22","Executions are isolated and repeatable, also when concurrent",
 "Running a script gives the same text, value and error every time, whatever ran before in the same process and whatever runs at the same time on other buffers, files or tool calls. Concurrent executions sharing one environment or one parsed program do not race, running a program does not alter it, and customising one environment does not affect another.",
 ["schedules","histories"],"all sets of scripts and texts executed repeatedly, in any order, and concurrently",
 "Tests run each script once, sequentially.",
 [E_+"eval.go","texted.go",E_+"documentation_registry.go","tools/texted_eval.go"],
 [("a fresh buffer per execution and no package-level mutable state",E_+"eval.go: NewBuffer, NewDefaultEnvironment"),("registry behind a mutex",E_+"documentation_registry.go")],
 ["results of sequential and concurrent runs; race detector"])
p("C23","Documentation queries are complete, consistent and repeatable",
 "Every callable function is documented and every documented function is callable; listing all functions, listing by category and asking for one function agree with each other, in the command line, in the texted_doc tool and in the library, are sorted, and print the same bytes every time. Asking for anything that does not exist, or the tool for a function and a category at once, is an error, and what it suggests instead does exist.",
 ["inputs","configurations"],"all function names, categories, arbitrary other names, verbose or not, via the three interfaces, repeatedly",
 "Tests look up a few names; the order of listings and the agreement of the interfaces are not checked.",
 [E_+"documentation_registry.go","commands/doc.go","tools/texted_doc.go"],
 [("registration in init, sorted listings",E_+"documentation_registry.go, commands/doc.go, tools/texted_doc.go")],
 ["output of texted doc, texted_doc and the registry functions"])
p("C24","The test runner passes a case exactly when all its expectations hold",
 "A test case passes if and only if its script, read in the language the case names, behaves as the case says: with an expected error, execution fails with an error containing it; otherwise execution succeeds, the final text equals the expected output byte for byte where one is given, and the final value equals the expected result where one is given, with at least one of the two present. texted test counts these verdicts correctly, also with filters, tracing, quiet and fail-only output, and exits with failure exactly if some case failed or the tests could not be run as asked, for example because a filter is no valid pattern.",
 ["inputs","configurations"],"all buffers, scripts and expectations, right or wrong in any one respect, single and in directories, with all combinations of options",
 "The XML cases in tests/ all pass; hardly any test checks that a wrong expectation is reported.",
 [E_+"testing/testing.go","commands/test.go",E_+"equal.go"],
 [("comparison of output, result and error",E_+"testing/testing.go: RunTestWithTrace"),("counting and exit status","commands/test.go: runTests")],
 ["verdict of RunTest and RunTestFile; stdout and exit status of texted test"])
p("C25","Values compare by kind and content and lists are never altered",
 "Two values are equal exactly if they are of the same kind and have the same content, lists element by element to any depth, which makes equality reflexive, symmetric and transitive. Taking the first element, the rest, an element by index, or appending to a list never changes that list or any list obtained from it before, and their lengths and elements are related as for sequences; a value prints to a text that reads back as an equal value.",
 ["inputs","histories"],"all values of all kinds nested to any depth, and all sequences of list operations",
 "A table of fixed pairs.",
 [E_+"equal.go",E_+"list.go",E_+"string.go",E_+"number.go",E_+"symbol.go",E_+"types.go"],
 [("recursive comparison by kind",E_+"equal.go"),("append copies",E_+"list.go: Append")],
 ["results of Equal, list operations and printing"])
p("C26","The MCP server announces its tools as they are and answers every request",
 "texted mcp answers every request with exactly one reply that carries the identifier of the request, whatever kind of identifier that is and whatever other messages, valid or not, come before, after or in between. An unknown tool or method or a request with malformed parameters gets an error and never ends the server. tools/list names exactly edit_file, texted_eval and texted_doc, with the given prefix and callable by those names only, each described, with the parameters it takes and the ones it requires; a call that lacks a required parameter is an error, one that lacks only optional ones is not. The server writes nothing but JSON-RPC on standard output and ends with success at the end of its input.",
 ["histories","inputs","configurations"],"all sessions of requests, notifications and invalid messages, one after the other or pipelined, with all kinds of identifiers and tool prefixes",
 "There are no tests of the server as a process.",
 ["commands/mcp.go","tools/edit_file.go","tools/texted_eval.go","tools/texted_doc.go","cmd/texted/main.go"],
 [("tools registered under prefixed names with their schema","commands/mcp.go: runMCPServer; tools/*.go: New...ToolWithPrefix")],
 ["lines on the server's standard output, its exit status, and files"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
if __name__=="__main__":
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print(len(P))
