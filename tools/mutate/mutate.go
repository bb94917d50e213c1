//go:build ignore

// mutate lists small changes of Go source files, one JSON object per line:
// the file, the byte range to replace, the replacement and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File     string
	From, To int
	New      string
	Line     int
	Kind     string
	Old      string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, repl, kind string) {
			enc.Encode(change{name, off(from), off(to), repl, fset.Position(from).Line, kind, string(src[off(from):off(to)])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		}
		asg := map[token.Token][]string{token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.MUL_ASSIGN: {"/=", "="}, token.QUO_ASSIGN: {"*="}}
		del := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return
					}
				}
				emit(s.Pos(), s.End(), "", "delete statement")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					o := ""
					for _, r := range x.Rhs {
						o += "_ = " + text(r) + "; "
					}
					if x.Tok != token.ASSIGN || len(x.Rhs) != len(x.Lhs) {
						o = ""
					}
					emit(s.Pos(), s.End(), o, "delete assignment")
				}
			case *ast.IncDecStmt:
				emit(s.Pos(), s.End(), "", "delete statement")
			case *ast.DeferStmt:
				emit(s.Pos(), s.End(), "", "delete defer")
			case *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete branch")
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					emit(s.Pos(), s.End(), "", "delete if")
				}
			case *ast.RangeStmt, *ast.ForStmt:
				emit(s.Pos(), s.End(), "", "delete loop")
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "operator "+n.Op.String())
				}
				switch n.Op {
				case token.ADD, token.SUB, token.LAND, token.LOR, token.MUL:
					emit(n.Pos(), n.End(), text(n.X), "drop right operand")
					if n.Op != token.SUB {
						emit(n.Pos(), n.End(), text(n.Y), "drop left operand")
					}
				}
			case *ast.AssignStmt:
				for _, r := range asg[n.Tok] {
					emit(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), r, "assignment "+n.Tok.String())
				}
			case *ast.UnaryExpr:
				switch n.Op {
				case token.NOT, token.SUB:
					emit(n.Pos(), n.X.Pos(), "", "drop "+n.Op.String())
				}
			case *ast.IncDecStmt:
				emit(n.TokPos, n.TokPos+2, map[token.Token]string{token.INC: "--", token.DEC: "++"}[n.Tok], "incdec")
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate condition")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "condition true")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "condition false")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "loop condition false")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "literal")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "literal")
						}
					}
				case token.FLOAT:
					v, err := strconv.ParseFloat(n.Value, 64)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprintf("%g", v*1.05), "literal")
						emit(n.Pos(), n.End(), fmt.Sprintf("%g", v+1), "literal")
					}
				case token.STRING:
					if len(n.Value) > 2 && !strings.Contains(n.Value, "%") {
						emit(n.Pos(), n.End(), n.Value[:1]+n.Value[len(n.Value)-1:], "empty string")
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), "'\\x01'", "character")
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit(n.Pos(), n.End(), "false", "true")
				case "false":
					emit(n.Pos(), n.End(), "true", "false")
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
				}
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i == 0 {
							emit(e.Pos(), n.List[1].Pos(), "", "drop case value")
						} else {
							emit(n.List[i-1].End(), e.End(), "", "drop case value")
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 2 {
					if id.Sel.Name == "Max" || id.Sel.Name == "Min" {
						emit(id.Sel.Pos(), id.Sel.End(), map[string]string{"Max": "Min", "Min": "Max"}[id.Sel.Name], "min/max")
						emit(n.Pos(), n.End(), text(n.Args[0]), "first of min/max")
						emit(n.Pos(), n.End(), text(n.Args[1]), "second of min/max")
					}
				}
				if id, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
					switch id.Sel.Name {
					case "Ceil", "Floor", "Round", "Abs", "Float64":
						emit(n.Pos(), n.End(), "("+text(n.Args[0])+")", "drop "+id.Sel.Name)
					}
				}
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 2 && strings.HasPrefix(id.Name, "maxInt") {
					emit(n.Pos(), n.End(), text(n.Args[0]), "first of max")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s)
				}
				for i := 0; i+1 < len(n.List); i++ {
					a, b := n.List[i], n.List[i+1]
					if _, ok := a.(*ast.ExprStmt); ok {
						if _, ok := b.(*ast.ExprStmt); ok {
							emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap statements")
						}
					}
					if x, ok := a.(*ast.AssignStmt); ok && x.Tok != token.DEFINE {
						if y, ok := b.(*ast.AssignStmt); ok && y.Tok != token.DEFINE {
							emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap statements")
						}
					}
				}
			case *ast.CompositeLit:
				if len(n.Elts) > 0 && len(n.Elts) < 12 {
					if _, ok := n.Elts[0].(*ast.KeyValueExpr); ok {
						for i, e := range n.Elts {
							if i == 0 && len(n.Elts) > 1 {
								emit(e.Pos(), n.Elts[1].Pos(), "", "drop field")
							} else if i > 0 {
								emit(n.Elts[i-1].End(), e.End(), "", "drop field")
							}
						}
					}
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 1 {
					if c, ok := n.Results[0].(*ast.CallExpr); ok && len(c.Args) > 0 && false {
						emit(c.Pos(), c.End(), text(c.Args[0]), "return argument")
					}
				}
			}
			return true
		})
	}
}
