package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The dictionary holds the numbers and strings that occur in the code under
// test. They only bias the generators: a change that treats some particular
// size, count or text specially is met sooner.
type dictionary struct {
	ints []int // > 3, rarest use first
	big  []int
	strs []string
}

var dictOnce sync.Once
var theDict dictionary

func dict() *dictionary {
	dictOnce.Do(func() {
		ints := map[int]bool{}
		strs := map[string]bool{}
		filepath.WalkDir(repoDir, func(path string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
			if err != nil {
				return nil
			}
			var eval func(e ast.Expr) constant.Value
			eval = func(e ast.Expr) constant.Value {
				switch x := e.(type) {
				case *ast.BasicLit:
					return constant.MakeFromLiteral(x.Value, x.Kind, 0)
				case *ast.ParenExpr:
					return eval(x.X)
				case *ast.BinaryExpr:
					a, b := eval(x.X), eval(x.Y)
					if a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
						return nil
					}
					switch x.Op {
					case token.SHL, token.SHR:
						if s, ok := constant.Uint64Val(b); ok && s < 63 {
							return constant.Shift(a, x.Op, uint(s))
						}
					case token.ADD, token.SUB, token.MUL:
						return constant.BinaryOp(a, x.Op, b)
					}
				}
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				// documentation is not behaviour
				if c, ok := n.(*ast.CompositeLit); ok {
					if id, ok := c.Type.(*ast.Ident); ok && id.Name == "FunctionDoc" {
						return false
					}
				}
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				v := eval(e)
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.Int:
					if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.CHAR {
						if r, ok := constant.Int64Val(v); ok {
							strs[string(rune(r))] = true
						}
						return true
					}
					if i, ok := constant.Int64Val(v); ok && i > 3 && i < math.MaxInt32 {
						ints[int(i)] = true
					}
				case constant.String:
					s := constant.StringVal(v)
					if s != "" && len(s) <= 24 && !strings.Contains(s, "%") {
						strs[s] = true
					}
				case constant.Float:
					if f, _ := constant.Float64Val(v); f > 3 && f < 1e9 {
						ints[int(f)] = true
					}
				}
				return true
			})
			return nil
		})
		for i := range ints {
			if i <= 300000 {
				theDict.ints = append(theDict.ints, i)
			} else {
				theDict.big = append(theDict.big, i)
			}
		}
		for s := range strs {
			theDict.strs = append(theDict.strs, s)
		}
		sort.Ints(theDict.ints)
		sort.Ints(theDict.big)
		sort.Strings(theDict.strs)
		if len(theDict.ints) == 0 {
			theDict.ints = []int{64}
		}
		if len(theDict.strs) == 0 {
			theDict.strs = []string{"a"}
		}
	})
	return &theDict
}

var _ = strconv.Itoa
