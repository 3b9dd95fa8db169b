// automut lists small mechanical changes of the library (development tool: used by automut.py to look for
// changes that no check notices). Usage: automut DIR > list.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File, Kind, Old, New string
	Off, End, Line       int
	Ret                  bool // an operand of a return statement
}

var (
	muts []mut
	src  []byte
	name string
	fset *token.FileSet
)

func add(kind string, a, b token.Pos, repl string) {
	o, e := fset.Position(a).Offset, fset.Position(b).Offset
	if string(src[o:e]) == repl {
		return
	}
	muts = append(muts, mut{name, kind, string(src[o:e]), repl, o, e, fset.Position(a).Line, strings.HasSuffix(strings.TrimSpace(string(src[:o])), "return")})
}

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

func logging(n ast.Node) bool {
	t := text(n)
	return strings.Contains(t, "logger.") || strings.HasPrefix(t, "log.") || strings.Contains(t, "log.Assertion") || strings.Contains(t, "log.Token")
}

func main() {
	filepath.Walk(os.Args[1], func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "test_helper") || strings.Contains(p, "/log/") {
			return nil
		}
		name, _ = filepath.Rel(os.Args[1], p)
		src, _ = os.ReadFile(p)
		fset = token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			panic(err)
		}
		walk(f)
		return nil
	})
	json.NewEncoder(os.Stdout).Encode(muts)
}

func walk(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.ExprStmt:
			if logging(x) {
				return false
			}
			add("drop statement", x.Pos(), x.End(), "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				if l := text(x.Lhs[0]); l != "_" {
					add("drop assignment", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
				}
			}
		case *ast.IfStmt:
			if strings.Contains(text(x.Cond), "ErrUnsupported") {
				break
			}
			add("never", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			add("always", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
		case *ast.BinaryExpr:
			swap := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}}
			for _, s := range swap[x.Op] {
				add("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add("left only", x.Pos(), x.End(), text(x.X))
				add("right only", x.Pos(), x.End(), text(x.Y))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add("number", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						add("number", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				s, _ := strconv.Unquote(x.Value)
				if strings.Contains(s, " ") {
					return true // a description
				}
				if len(s) > 0 {
					add("string", x.Pos(), x.End(), strconv.Quote(s+"x"))

				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				add("bool", x.Pos(), x.End(), "false")
			case "false":
				add("bool", x.Pos(), x.End(), "true")
			}
		case *ast.SelectorExpr:
			if t := text(x); strings.Contains(t, ".Err") && !strings.Contains(t, ".Error") {
				alt := map[string]string{"ErrInvalidClient": "ErrInvalidGrant", "ErrServerError": "ErrInvalidRequest", "ErrInvalidScope": "ErrInvalidGrant", "ErrFailed": "ErrUnsupported", "ErrInvalidToken": "ErrInvalidRequest", "ErrInsufficientScope": "ErrInvalidToken"}
				if a := alt[x.Sel.Name]; a != "" {
					add("error kind", x.Sel.Pos(), x.Sel.End(), a)
				}
			}
		case *ast.CallExpr:
			if logging(x) {
				return false
			}
			// swap neighbouring arguments
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if strings.Contains(text(a), "\" ") || strings.ContainsAny(text(a)+text(b), "'") || text(a) == "r" || text(b) == "r" {
					continue
				}
				add("swap arguments", a.Pos(), b.End(), text(b)+string(src[fset.Position(a.End()).Offset:fset.Position(b.Pos()).Offset])+text(a))
			}
			if len(x.Args) == 1 && !strings.HasPrefix(text(x), "make") {
				if id, ok := x.Fun.(*ast.SelectorExpr); ok && (strings.HasPrefix(text(id), "strings.") || strings.HasPrefix(text(id), "url.") || strings.HasPrefix(text(id), "html.")) {
					add("drop call", x.Pos(), x.End(), text(x.Args[0]))
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				switch text(x.Results[0]) {
				case "nil":
				default:
					add("return nil", x.Results[0].Pos(), x.Results[0].End(), "nil")
				}
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 && len(x.List) > 0 {
				add("empty case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
			}
		}
		return true
	})
}
