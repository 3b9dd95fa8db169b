// instr writes a copy of the library's Go files with a call of time.SimStep (see build.sh) around every
// synchronisation operation: the places between which code free of data races cannot tell schedules
// apart.  Line numbers stay as they are.  It prints overlay entries.
//
//	instr REPO OUTDIR
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	before = 1
	after  = 2
)

var pool, smap, atom bool

func opOf(e ast.Node) (k int) {
	if e == nil {
		return 0
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				k |= before | after
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				k |= before | after
			}
			s, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				break
			}
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "atomic" {
				k |= before | after
			}
			switch s.Sel.Name {
			case "Lock", "RLock":
				k |= before
			case "Unlock", "RUnlock":
				k |= after
			case "TryLock", "TryRLock", "Wait", "Signal", "Broadcast":
				k |= before | after
			case "LoadOrStore", "LoadAndDelete", "CompareAndSwap", "CompareAndDelete", "Swap", "Load", "Store", "Range", "Delete", "Clear", "Add", "And", "Or":
				if smap || atom {
					k |= before | after
				}
			case "Get", "Put":
				if pool {
					k |= before | after
				}
			}
		}
		return true
	})
	return k
}

type ins struct {
	off int
	s   string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	var files []string
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() && p != repo && (strings.HasPrefix(i.Name(), ".") || i.Name() == "vendor" || i.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	src := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		src[f] = b
		s := string(b)
		pool = pool || strings.Contains(s, "sync.Pool")
		smap = smap || strings.Contains(s, "sync.Map")
		atom = atom || strings.Contains(s, "sync/atomic")
	}
	for n, f := range files {
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src[f], 0)
		if err != nil {
			continue // the compiler will say so
		}
		var is []ins
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		step := "simstep_.SimStep()"
		put := func(p token.Pos, s string) { is = append(is, ins{off(p), s}) }
		open := func(b *ast.BlockStmt) {
			if b != nil {
				put(b.Lbrace+1, step+";")
			}
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				k, simple := 0, false
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.DeclStmt:
					k, simple = opOf(x), true
				case *ast.SendStmt:
					k, simple = before|after, true
				case *ast.ReturnStmt:
					k = opOf(x) & before
				case *ast.IfStmt:
					k = opOf(x.Init) | opOf(x.Cond)
					if k != 0 {
						open(x.Body)
						if b, ok := x.Else.(*ast.BlockStmt); ok {
							open(b)
						}
					}
				case *ast.ForStmt:
					k = opOf(x.Init) | opOf(x.Cond)
					if k != 0 {
						open(x.Body)
					}
				case *ast.RangeStmt:
					k = opOf(x.X)
				case *ast.SwitchStmt:
					k = opOf(x.Init) | opOf(x.Tag)
				case *ast.SelectStmt:
					k = before | after
				}
				if k&before != 0 || k != 0 && !simple {
					put(s.Pos(), step+";")
				}
				if k&after != 0 {
					if _, ret := s.(*ast.ReturnStmt); !ret && (simple || i+1 < len(l)) {
						put(s.End(), ";"+step)
					}
				}
			}
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" && id.Obj == nil && x.Sel.Name == "Sleep" {
					put(x.Sel.Pos(), "Sim") // sleeps in simulated time
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		if len(is) == 0 {
			continue
		}
		put(t.Name.End(), `; import simstep_ "time"`)
		sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
		var b strings.Builder
		last := 0
		for _, x := range is {
			b.Write(src[f][last:x.off])
			b.WriteString(x.s)
			last = x.off
		}
		b.Write(src[f][last:])
		o := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(o, []byte(b.String()), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf(", %q: %q", f, o)
	}
}
