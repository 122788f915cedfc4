// mutgo lists small changes of Go files: one per line, as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string
	Func     string
	Line     int
	Off, End int
	New      string
	Kind     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
}

var fields = map[string]string{"X": "Y", "Y": "X", "Z": "X", "MinX": "MaxX", "MaxX": "MinX", "MinY": "MaxY", "MaxY": "MinY", "Sin": "Cos", "Cos": "Sin", "MinZ": "MinX", "MaxZ": "MaxX",
	"start": "end", "Start": "End", "left": "right", "right": "left", "Min": "Max", "Max": "Min", "MinChildren": "MaxChildren", "MaxChildren": "MinChildren"}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range t.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(a, b token.Pos, s, kind string) {
				enc.Encode(mut{f, fd.Name.Name, fs.Position(a).Line, off(a), off(b), s, kind})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, _ := strconv.Atoi(x.Value)
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
					if x.Kind == token.FLOAT {
						emit(x.Pos(), x.End(), "(1.001*"+x.Value+")", "float")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
					}
				case *ast.SelectorExpr:
					if y, ok := fields[x.Sel.Name]; ok {
						emit(x.Sel.Pos(), x.Sel.End(), y, "field")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
					} else if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "del")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "del")
					}
					if x.Tok == token.ADD_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "-=", "op")
					}
					if x.Tok == token.SUB_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "+=", "op")
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "del")
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "lo")
					}
					if x.High != nil && x.Max == nil {
						emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "hi")
					}
				case *ast.IndexExpr:
					emit(x.Index.Pos(), x.Index.End(), "0", "index0")
				case *ast.CallExpr:
					if len(x.Args) >= 2 {
						a, b := x.Args[0], x.Args[1]
						emit(a.Pos(), b.End(), text(b)+", "+text(a), "argswap")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
							emit(id.Pos(), id.End(), "false", "ret")
						} else if ok && id.Name == "false" {
							emit(id.Pos(), id.End(), "true", "ret")
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit(x.Pos(), x.X.Pos(), "", "unary")
					}
				}
				return true
			})
		}
	}
}
