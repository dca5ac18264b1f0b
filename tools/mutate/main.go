// mutate lists the mutants of a Go file, one JSON object per line: {"file","line","from","to","off","end"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var (
	fset = token.NewFileSet()
	src  []byte
	file string
	seen = map[string]bool{}
)

func emit(from, to token.Pos, repl string) {
	a, b := fset.Position(from).Offset, fset.Position(to).Offset
	if string(src[a:b]) == repl {
		return
	}
	key := fmt.Sprint(a, b, repl)
	if seen[key] {
		return
	}
	seen[key] = true
	o, _ := json.Marshal(map[string]any{"file": file, "line": fset.Position(from).Line, "from": string(src[a:b]), "to": repl, "off": a, "end": b})
	fmt.Println(string(o))
}

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

var ops = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.REM: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"},
}

var similar = map[string][]string{"HasPrefix": {"HasSuffix", "Contains"}, "HasSuffix": {"HasPrefix", "Contains"}, "Contains": {"HasPrefix", "HasSuffix"}, "Index": {"LastIndex"}, "LastIndex": {"Index"}, "IndexByte": {"LastIndexByte"},
	"TrimLeft": {"TrimRight"}, "TrimRight": {"TrimLeft"}, "TrimPrefix": {"TrimSuffix"}, "TrimSuffix": {"TrimPrefix"}, "EqualFold": nil, "RLock": nil}

func main() {
	file = os.Args[1]
	src, _ = os.ReadFile(file)
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		ast.Inspect(d, visit)
	}
}

func block(list []ast.Stmt) {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SendStmt, *ast.GoStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			emit(s.Pos(), s.End(), "")
		case *ast.IfStmt:
			if s.Else == nil {
				emit(s.Pos(), s.End(), "")
			}
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit(s.Pos(), s.End(), "")
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				emit(s.Pos(), s.End(), "")
			}
		}
		if i+1 < len(list) {
			// swap neighbours
			t := list[i+1]
			gap := string(src[fset.Position(s.End()).Offset:fset.Position(t.Pos()).Offset])
			if _, ok := t.(*ast.ReturnStmt); !ok {
				emit(s.Pos(), t.End(), text(t)+gap+text(s))
			}
		}
	}
}

func visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.ImportSpec:
		return false
	case *ast.BinaryExpr:
		for _, o := range ops[n.Op] {
			emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
		}
		if n.Op == token.LAND || n.Op == token.LOR {
			emit(n.Pos(), n.End(), text(n.X))
			emit(n.Pos(), n.End(), text(n.Y))
		}
	case *ast.IfStmt:
		emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
		emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true")
		emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
		if n.Else != nil {
			emit(n.Body.End(), n.Else.End(), "")
		}
	case *ast.ForStmt:
		if n.Cond != nil {
			emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
		}
		emit(n.Body.Rbrace, n.Body.Rbrace, ";break\n")
	case *ast.RangeStmt:
		emit(n.Body.Rbrace, n.Body.Rbrace, ";break\n")
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			emit(n.Pos(), n.X.Pos(), "")
		}
		if n.Op == token.SUB {
			emit(n.Pos(), n.X.Pos(), "")
		}
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
				emit(n.Pos(), n.End(), fmt.Sprint(v+1))
				emit(n.Pos(), n.End(), fmt.Sprint(v-1))
			}
		case token.STRING:
			if v, err := strconv.Unquote(n.Value); err == nil {
				emit(n.Pos(), n.End(), strconv.Quote(v+"z"))
				if v != "" {
					emit(n.Pos(), n.End(), `""`)
				}
				if len(v) > 1 {
					emit(n.Pos(), n.End(), strconv.Quote(v[1:]))
					emit(n.Pos(), n.End(), strconv.Quote(v[:len(v)-1]))
				}
			}
		case token.CHAR:
			emit(n.Pos(), n.End(), "'\\x01'")
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			emit(n.Pos(), n.End(), "false")
		case "false":
			emit(n.Pos(), n.End(), "true")
		}
	case *ast.ReturnStmt:
		for _, r := range n.Results {
			switch x := r.(type) {
			case *ast.BinaryExpr:
				if x.Op == token.EQL || x.Op == token.LAND || x.Op == token.LOR {
					emit(r.Pos(), r.End(), "!("+text(r)+")")
				}
			case *ast.CallExpr:
				emit(r.Pos(), r.End(), "!"+text(r))
			case *ast.Ident:
				if x.Name != "nil" && x.Name != "true" && x.Name != "false" {
					emit(r.Pos(), r.End(), "nil")
					emit(r.Pos(), r.End(), "!"+x.Name)
				}
			}
		}
	case *ast.BlockStmt:
		block(n.List)
	case *ast.CaseClause:
		block(n.Body)
		for i, x := range n.List {
			if len(n.List) > 1 {
				end := n.Colon
				if i+1 < len(n.List) {
					end = n.List[i+1].Pos()
					emit(x.Pos(), end, "")
				} else {
					emit(n.List[i-1].End(), end, "")
				}
			}
		}
		if len(n.Body) > 0 {
			emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
			emit(n.Pos(), n.Body[len(n.Body)-1].End(), "")
		}
	case *ast.CompositeLit:
		for i, x := range n.Elts {
			end := n.Rbrace
			if i+1 < len(n.Elts) {
				end = n.Elts[i+1].Pos()
			}
			emit(x.Pos(), end, "")
		}
	case *ast.SelectorExpr:
		for _, o := range similar[n.Sel.Name] {
			emit(n.Sel.Pos(), n.Sel.End(), o)
		}
		if n.Sel.Name == "RLock" {
			emit(n.Sel.Pos(), n.Sel.End(), "Lock")
		}
	case *ast.CallExpr:
		if len(n.Args) >= 1 {
			// the call is replaced by its argument, arguments are swapped
			for _, a := range n.Args {
				emit(n.Pos(), n.End(), text(a))
			}
		}
		if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
			emit(n.Pos(), n.End(), text(s.X))
		}
		for i := 0; i+1 < len(n.Args); i++ {
			emit(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]))
		}
	}
	return true
}
