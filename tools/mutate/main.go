// mutate FILE: prints one JSON mutant per line {off,end,new,line,op} for a Go file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Op   string `json:"op"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	o := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[o(n.Pos()):o(n.End())]) }
	emit := func(a, b int, s string, p token.Pos, op string) {
		enc.Encode(mutant{a, b, s, fs.Position(p).Line, op})
	}
	rel := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CompositeLit:
				if len(x.Elts) > 24 {
					return false
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					switch s.Sel.Name {
					case "Errorf", "NewError", "Sprintf", "Fprintln", "Fprintf", "New" + "Err":
						return false
					}
				}
				if len(x.Args) == 2 && txt(x.Args[0]) != txt(x.Args[1]) {
					if _, ok := x.Fun.(*ast.SelectorExpr); ok {
						emit(o(x.Args[0].Pos()), o(x.Args[1].End()), txt(x.Args[1])+", "+txt(x.Args[0]), x.Pos(), "swapargs")
					} else if id, ok := x.Fun.(*ast.Ident); ok && id.Name != "make" && id.Name != "append" && id.Name != "copy" {
						emit(o(x.Args[0].Pos()), o(x.Args[1].End()), txt(x.Args[1])+", "+txt(x.Args[0]), x.Pos(), "swapargs")
					}
				}
			case *ast.BinaryExpr:
				if b, ok := x.Y.(*ast.Ident); ok && b.Name == "nil" {
					if a, ok := x.X.(*ast.Ident); ok && a.Name == "err" {
						return false // the if mutant covers it
					}
				}
				for _, r := range rel[x.Op] {
					emit(o(x.OpPos), o(x.OpPos)+len(x.Op.String()), r, x.Pos(), "binop "+x.Op.String()+r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(o(x.Pos()), o(x.End()), txt(x.X), x.Pos(), "left of "+x.Op.String())
					emit(o(x.Pos()), o(x.End()), txt(x.Y), x.Pos(), "right of "+x.Op.String())
				}
			case *ast.IfStmt:
				c := txt(x.Cond)
				emit(o(x.Cond.Pos()), o(x.Cond.End()), "("+c+") && false", x.Pos(), "never")
				if be, ok := x.Cond.(*ast.BinaryExpr); !ok || txt(be.X) != "err" {
					emit(o(x.Cond.Pos()), o(x.Cond.End()), "("+c+") || true", x.Pos(), "always")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(o(x.Pos()), o(x.X.Pos()), "", x.Pos(), "unnot")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(o(x.Pos()), o(x.End()), fmt.Sprint(v+1), x.Pos(), "int+1")
						if v > 0 {
							emit(o(x.Pos()), o(x.End()), fmt.Sprint(v-1), x.Pos(), "int-1")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(o(x.Pos()), o(x.End()), "false", x.Pos(), "bool")
				} else if x.Name == "false" {
					emit(o(x.Pos()), o(x.End()), "true", x.Pos(), "bool")
				}
			case *ast.ExprStmt:
				emit(o(x.Pos()), o(x.End()), "", x.Pos(), "delete")
			case *ast.DeferStmt:
				emit(o(x.Pos()), o(x.End()), "", x.Pos(), "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(o(x.Pos()), o(x.End()), "", x.Pos(), "delete")
				}
				switch x.Tok {
				case token.ADD_ASSIGN:
					emit(o(x.TokPos), o(x.TokPos)+2, "-=", x.Pos(), "op=")
				case token.SUB_ASSIGN:
					emit(o(x.TokPos), o(x.TokPos)+2, "+=", x.Pos(), "op=")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(o(x.TokPos), o(x.TokPos)+2, "--", x.Pos(), "incdec")
				} else {
					emit(o(x.TokPos), o(x.TokPos)+2, "++", x.Pos(), "incdec")
				}
			case *ast.BranchStmt:
				emit(o(x.Pos()), o(x.End()), "", x.Pos(), "delete branch")
			case *ast.SliceExpr:
				if x.Low != nil && x.High == nil {
					emit(o(x.Low.Pos()), o(x.Low.End()), "("+txt(x.Low)+")+1", x.Pos(), "low+1")
				}
				if x.High != nil {
					emit(o(x.High.Pos()), o(x.High.End()), "("+txt(x.High)+")-1", x.Pos(), "high-1")
				}
			case *ast.RangeStmt:
				emit(o(x.X.Pos()), o(x.X.End()), txt(x.X)+"[1:]", x.Pos(), "range[1:]")
			}
			return true
		})
	}
}
