// mutgen lists small changes of Go files as JSON lines: {"file","start","end","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, new, what string) {
			_ = enc.Encode(mut{path, fs.Position(from).Line, off(from), off(to), new, what})
		}
		short := func(s string) string {
			if len(s) > 60 {
				return s[:60] + "…"
			}
			return s
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate if "+short(c))
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never if "+short(c))
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always if "+short(c))
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
				}
				for _, o := range sw[x.Op] {
					if x.Op == token.ADD {
						if _, ok := x.Y.(*ast.BasicLit); ok && x.Y.(*ast.BasicLit).Kind == token.STRING {
							continue
						}
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, short(text(x))+" with "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), "("+text(x.X)+")", "only left of "+short(text(x)))
					emit(x.Pos(), x.End(), "("+text(x.Y)+")", "only right of "+short(text(x)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+"+1")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.Itoa(v-1), x.Value+"-1")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					emit(x.Pos(), x.End(), `""`, "empty "+short(x.Value))
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true to false")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						emit(id.Pos(), id.End(), "nil", "swallow err in "+short(text(x)))
					} else if _, ok := x.Results[k-1].(*ast.CallExpr); ok {
						emit(x.Results[k-1].Pos(), x.Results[k-1].End(), "nil", "nil for "+short(text(x)))
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, text, short, emit)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, text, short, emit)
				}
			case *ast.CommClause:
				for _, s := range x.Body {
					stmt(s, text, short, emit)
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if _, ok := kv.Key.(*ast.Ident); ok {
							end := kv.End()
							if off(end) < len(src) && src[off(end)] == ',' {
								end++
							}
							emit(kv.Pos(), end, "", "drop field "+short(text(kv)))
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 && !x.Ellipsis.IsValid() {
					emit(x.Pos(), x.End(), text(x.Args[0]), "no "+short(text(x)))
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "TrimSpace" || s.Sel.Name == "ToLower" || s.Sel.Name == "Clean") && len(x.Args) == 1 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "no "+short(text(x)))
				}
			}
			return true
		})
	}
}

func stmt(s ast.Stmt, text func(ast.Node) string, short func(string) string, emit func(a, b token.Pos, n, w string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt:
		emit(s.Pos(), s.End(), "", "delete "+short(text(s)))
		if d, ok := s.(*ast.DeferStmt); ok {
			emit(s.Pos(), s.End(), text(d.Call), "not deferred: "+short(text(s)))
		}
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete "+short(text(s)))
			v := ""
			for i, r := range x.Rhs {
				if i > 0 {
					v += ", "
				}
				v += text(r)
			}
			l := ""
			for i := range x.Lhs {
				if i > 0 {
					l += ", "
				}
				l += "_"
			}
			if x.Tok == token.ASSIGN {
				emit(s.Pos(), s.End(), l+" = "+v, "unused "+short(text(s)))
			}
		}
	case *ast.GoStmt:
		emit(s.Pos(), s.End(), text(x.Call), "not concurrent: "+short(text(s)))
	case *ast.BranchStmt:
		emit(s.Pos(), s.End(), "", "delete "+text(s))
		if x.Tok == token.CONTINUE && x.Label == nil {
			emit(s.Pos(), s.End(), "break", "break for continue")
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete return")
		}
	}
	_ = fmt.Sprint
}
