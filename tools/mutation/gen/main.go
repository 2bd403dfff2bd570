package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type M struct {
	File       string
	Start, End int
	New, Kind  string
	Line       int
	Old        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		src, _ := os.ReadFile(f)
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, nw, kind string) {
			s, e := off(a), off(b)
			old := string(src[s:e])
			if old == nw {
				return
			}
			if len(old) > 200 {
				old = old[:200]
			}
			enc.Encode(M{f, s, e, nw, kind, fs.Position(a).Line, old})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					op := func(s string) {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
					switch x.Op {
					case token.LSS:
						op("<=")
						op(">=")
					case token.LEQ:
						op("<")
						op(">")
					case token.GTR:
						op(">=")
						op("<=")
					case token.GEQ:
						op(">")
						op("<")
					case token.EQL:
						op("!=")
					case token.NEQ:
						op("==")
					case token.ADD:
						op("-")
					case token.SUB:
						op("+")
					case token.MUL:
						op("/")
					case token.LAND:
						op("||")
						emit(x.Pos(), x.End(), txt(x.X), "drop-and")
						emit(x.Pos(), x.End(), txt(x.Y), "drop-and")
					case token.LOR:
						op("&&")
						emit(x.Pos(), x.End(), txt(x.X), "drop-or")
						emit(x.Pos(), x.End(), txt(x.Y), "drop-or")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), txt(x.X), "drop-not")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "neg")
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "true")
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "false")
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "for-false")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
							emit(x.Pos(), x.End(), fmt.Sprintf("(%d)", v-1), "int")
						}
					}
					if x.Kind == token.STRING {
						if s, err := strconv.Unquote(x.Value); err == nil {
							emit(x.Pos(), x.End(), strconv.Quote(s+"Q"), "str")
							if s != "" {
								emit(x.Pos(), x.End(), strconv.Quote(s[1:]), "str")
							}
						}
					}
					if x.Kind == token.CHAR {
						emit(x.Pos(), x.End(), "'Q'", "char")
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
					emit(n.Pos(), n.End(), "", "del")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						var l []string
						for _, e := range x.Rhs {
							l = append(l, txt(e))
						}
						// keep the right side used
						us := strings.Repeat("_, ", len(x.Lhs))
						emit(x.Pos(), x.End(), strings.TrimSuffix(us, ", ")+" = "+strings.Join(l, ", "), "noassign")
					}
					switch x.Tok {
					case token.ADD_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "-=", "op")
						emit(x.TokPos, x.TokPos+2, "=", "op")
					case token.SUB_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "+=", "op")
						emit(x.TokPos, x.TokPos+2, "=", "op")
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i, e := range x.List {
							if i+1 < len(x.List) {
								emit(e.Pos(), x.List[i+1].Pos(), "", "case")
							} else {
								emit(x.List[i-1].End(), e.End(), "", "case")
							}
						}
					}
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						switch y := e.(type) {
						case *ast.Ident:
							switch y.Name {
							case "err":
								emit(e.Pos(), e.End(), "nil", "ret")
							case "true":
								emit(e.Pos(), e.End(), "false", "ret")
							case "false":
								emit(e.Pos(), e.End(), "true", "ret")
							}
						}
					}
				case *ast.Ident:
					sw := map[string]string{"true": "false", "false": "true"}
					if v, ok := sw[x.Name]; ok {
						emit(x.Pos(), x.End(), v, "bool")
					}
				case *ast.SelectorExpr:
					sw := map[string]string{"Index": "LastIndex", "LastIndex": "Index", "ToUpper": "ToLower", "ToLower": "ToUpper", "TrimSpace": "ToValidUTF8", "HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix",
						"IsSpace": "IsPunct", "IsLetter": "IsUpper", "IsDigit": "IsNumber", "Point": "Mark", "Mark": "Point", "point": "mark", "mark": "point", "Stdout": "Stderr", "Stderr": "Stdout"}
					if v, ok := sw[x.Sel.Name]; ok {
						emit(x.Sel.Pos(), x.Sel.End(), v, "sel")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "("+txt(x.Low)+")+1", "slice")
						emit(x.Low.Pos(), x.Low.End(), "max(("+txt(x.Low)+")-1, 0)", "slice")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+txt(x.High)+")-1", "slice")
					}
				case *ast.CallExpr:
					// swap two arguments
					if len(x.Args) == 2 {
						emit(x.Args[0].Pos(), x.Args[1].End(), txt(x.Args[1])+", "+txt(x.Args[0]), "swap")
					}
				}
				return true
			})
		}
	}
}
