// Command mutate lists small changes of Go files: mutate list DIR FILE... writes
// one JSON line {file, id, what} per mutant; mutate apply DIR FILE ID prints the
// changed file. A development tool for finding what the checks miss; no check
// uses it.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	what  string
	pos   token.Pos
	apply func()
}

func mutants(fset *token.FileSet, f *ast.File) (ms []mutant) {
	add := func(pos token.Pos, what string, apply func()) { ms = append(ms, mutant{what, pos, apply}) }
	str := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if len(s) > 80 {
			s = s[:80]
		}
		return s
	}
	stmts := func(list *[]ast.Stmt) {
		for i := range *list {
			s := (*list)[i]
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			default:
				continue
			}
			add(s.Pos(), "delete "+str(s), func() { (*list)[i] = &ast.EmptyStmt{Implicit: true} })
			if _, ok := s.(*ast.ExprStmt); ok {
				add(s.Pos(), "twice "+str(s), func() { (*list)[i] = &ast.BlockStmt{List: []ast.Stmt{s, s}} })
			}
			if i > 0 {
				prev := (*list)[i-1]
				add(s.Pos(), "swap with previous "+str(s), func() { (*list)[i], (*list)[i-1] = prev, s })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok != token.IMPORT
		case *ast.BlockStmt:
			stmts(&n.List)
		case *ast.CaseClause:
			stmts(&n.Body)
			if len(n.List) > 0 {
				old := n.List
				if len(old) > 1 {
					for k := range old {
						add(n.Pos(), "case without "+str(old[k]), func() { n.List = append(append([]ast.Expr{}, old[:k]...), old[k+1:]...) })
					}
				}
				body := n.Body
				if len(body) > 0 {
					add(n.Pos(), "empty case "+str(old[0]), func() { n.Body = nil })
				}
			}
		case *ast.IfStmt:
			c := n.Cond
			add(n.Pos(), "if true "+str(c), func() { n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")} })
			add(n.Pos(), "if false "+str(c), func() { n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")} })
		case *ast.BinaryExpr:
			var ops []token.Token
			switch n.Op {
			case token.LSS:
				ops = []token.Token{token.LEQ, token.GTR}
			case token.GTR:
				ops = []token.Token{token.GEQ, token.LSS}
			case token.LEQ:
				ops = []token.Token{token.LSS}
			case token.GEQ:
				ops = []token.Token{token.GTR}
			case token.EQL:
				ops = []token.Token{token.NEQ}
			case token.NEQ:
				ops = []token.Token{token.EQL}
			case token.LAND:
				ops = []token.Token{token.LOR}
			case token.LOR:
				ops = []token.Token{token.LAND}
			case token.ADD:
				ops = []token.Token{token.SUB}
				if isStringish(n) {
					x, y := n.X, n.Y
					add(n.Pos(), "swap "+str(n), func() { n.X, n.Y = y, x })
				}
			case token.SUB:
				ops = []token.Token{token.ADD}
			case token.MUL:
				ops = []token.Token{token.QUO}
			case token.QUO:
				ops = []token.Token{token.MUL}
			}
			old := n.Op
			for _, op := range ops {
				add(n.Pos(), fmt.Sprintf("%s with %s for %s", str(n), op, old), func() { n.Op = op })
			}
		case *ast.BasicLit:
			old := n.Value
			switch n.Kind {
			case token.INT:
				if v, err := strconv.Atoi(old); err == nil {
					for _, d := range []int{1, -1} {
						add(n.Pos(), fmt.Sprintf("%d for %d", v+d, v), func() { n.Value = strconv.Itoa(v + d) })
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(old); err == nil && s != "" {
					add(n.Pos(), "empty string for "+old, func() { n.Value = `""` })
					add(n.Pos(), "x after "+old, func() { n.Value = strconv.Quote(s + "x") })
					add(n.Pos(), "cut "+old, func() { n.Value = strconv.Quote(s[:len(s)-1]) })
				}
			}
		case *ast.CallExpr:
			for k := 0; k+1 < len(n.Args); k++ {
				x, y := n.Args[k], n.Args[k+1]
				add(n.Pos(), "swap arguments "+str(n), func() { n.Args[k], n.Args[k+1] = y, x })
			}
			if len(n.Args) == 1 {
				if _, ok := n.Fun.(*ast.SelectorExpr); ok {
					a := n.Args[0]
					add(n.Pos(), "argument for call "+str(n), func() { n.Fun, n.Args = ast.NewIdent(""), []ast.Expr{a} })
				}
			}
			if n.Ellipsis.IsValid() {
				add(n.Pos(), "no elements "+str(n), func() { n.Args = n.Args[:1]; n.Ellipsis = token.NoPos })
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 1 {
				r := n.Results[0]
				_ = r
				add(n.Pos(), "zero for "+str(n), func() { n.Results[0] = ast.NewIdent("nil") })
				add(n.Pos(), "false for "+str(n), func() { n.Results[0] = ast.NewIdent("false") })
				add(n.Pos(), "empty for "+str(n), func() { n.Results[0] = ast.NewIdent(`""`) })
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), "without not "+str(n), func() { n.Op = token.ILLEGAL })
			}
		case *ast.SliceExpr:
			if n.Low == nil {
				add(n.Pos(), "[1:] "+str(n), func() { n.Low = &ast.BasicLit{Kind: token.INT, Value: "1"} })
			}
		}
		return true
	})
	return ms
}

func isStringish(n *ast.BinaryExpr) bool {
	for _, x := range []ast.Expr{n.X, n.Y} {
		if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING {
			return true
		}
		if b, ok := x.(*ast.BinaryExpr); ok && isStringish(b) {
			return true
		}
		if s, ok := x.(*ast.SelectorExpr); ok && s.Sel.Name == "value" {
			return true
		}
	}
	return false
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, name := range os.Args[3:] {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, filepath.Join(os.Args[2], name), nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			for i, m := range mutants(fset, f) {
				json.NewEncoder(os.Stdout).Encode(map[string]any{"file": name, "id": i, "what": m.what, "line": fset.Position(m.pos).Line})
			}
		}
	case "apply":
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(os.Args[2], os.Args[3]), nil, 0)
		if err != nil {
			panic(err)
		}
		id, _ := strconv.Atoi(os.Args[4])
		m := mutants(fset, f)[id]
		m.apply()
		var b bytes.Buffer
		format.Node(&b, fset, f)
		out := bytes.ReplaceAll(b.Bytes(), []byte("ILLEGAL"), nil)
		os.Stdout.Write(out)
	}
}
