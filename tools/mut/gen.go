// gen lists single changes of the Go files given: go run gen.go FILE... prints one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Func       string `json:"func"`
	Start, End int
	Old, New   string
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		put := func(a, b token.Pos, s string) {
			i, j := fset.Position(a).Offset, fset.Position(b).Offset
			out, _ := json.Marshal(mut{file, fset.Position(a).Line, fn, i, j, string(src[i:j]), s})
			fmt.Println(string(out))
		}
		text := func(n ast.Node) string { return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				if s := text(n.Fun); strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "Warning") || strings.HasPrefix(s, "Error") {
					return false
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				if !strings.Contains(c, "err != nil") {
					put(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")")
					put(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")")
				}
			case *ast.BinaryExpr:
				swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&", token.MUL: "/"}
				if s, ok := swap[n.Op]; ok && !strings.HasSuffix(text(n), "nil") && !strings.Contains(text(n), "\"") {
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						put(n.Pos(), n.End(), fmt.Sprint(v+1))
						if 0 < v {
							put(n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.ExprStmt:
				put(n.Pos(), n.End(), "")
			case *ast.IncDecStmt:
				put(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					if id, ok := n.Lhs[0].(*ast.Ident); !ok || id.Name != "_" {
						put(n.Pos(), n.End(), "")
					}
				}
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE && n.Label == nil {
					put(n.Pos(), n.End(), "break")
				} else if n.Tok == token.BREAK && n.Label == nil {
					put(n.Pos(), n.End(), "")
				}
			}
			return true
		}
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Body != nil {
				fn = d.Name.Name
				if fn == "String" || fn == "init" {
					continue
				}
				ast.Inspect(d.Body, walk)
			}
		}
	}
}
