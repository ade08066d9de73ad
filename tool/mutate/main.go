// mutate lists small source changes (mutants) of Go files as JSON lines:
// {"file","start","end","new","op","line"}. Development tool: the harness is
// measured against them (tool/mutants.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Old   string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			add := func(from, to token.Pos, repl, op string) {
				enc.Encode(mutant{fn, off(from), off(to), repl, op, fset.Position(from).Line, fd.Name.Name, string(src[off(from):off(to)])})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					swap := map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"},
						token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
					}[x.Op]
					if x.Op == token.ADD && !strings.Contains(text(x), "\"") {
						swap = []string{"-"}
					}
					for _, s := range swap {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x.Pos(), x.End(), text(x.X), "left")
						add(x.Pos(), x.End(), text(x.Y), "right")
					}
					if x.Op == token.ADD && strings.Contains(text(x), "\"") {
						add(x.Pos(), x.End(), text(x.X), "left")
						add(x.Pos(), x.End(), text(x.Y), "right")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add(x.Pos(), x.X.Pos(), "", "unnot")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							add(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
							if v > 0 {
								add(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
							}
						}
					case token.STRING:
						add(x.Pos(), x.End(), `""`, "str")
					}
				case *ast.Ident:
					if x.Name == "true" {
						add(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						add(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE && x.Label == nil {
						add(x.Pos(), x.End(), "break", "branch")
						add(x.Pos(), x.End(), "", "del")
					} else if x.Tok == token.BREAK && x.Label == nil {
						add(x.Pos(), x.End(), "", "del")
					}
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "iftrue")
					add(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "iffalse")
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "", "del")
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "", "del")
				case *ast.DeferStmt:
					add(x.Pos(), x.End(), "", "del")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
						l := ""
						for i, y := range x.Lhs {
							if i > 0 {
								l += ", "
							}
							_ = y
							l += "_"
						}
						if x.Tok == token.ASSIGN {
							r := ""
							for i, y := range x.Rhs {
								if i > 0 {
									r += ", "
								}
								r += text(y)
							}
							add(x.Pos(), x.End(), l+" = "+r, "del")
						} else {
							add(x.Pos(), x.End(), "", "del")
						}
					}
				case *ast.CallExpr:
					if len(x.Args) == 2 && !x.Ellipsis.IsValid() {
						add(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap")
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
						add(x.Pos(), x.End(), text(x.Args[0]), "noappend")
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Clone" || strings.HasPrefix(s.Sel.Name, "Trim") || strings.HasPrefix(s.Sel.Name, "ReplaceAll") || strings.HasPrefix(s.Sel.Name, "To")) && len(x.Args) >= 1 {
						add(x.Pos(), x.End(), text(x.Args[0]), "nocall")
					}
				case *ast.SelectorExpr:
					// a sibling field of the same kind
					sib := map[string]string{"ID": "Context", "Context": "ID", "Plural": "ID", "Previous": "Comments", "Comments": "ExtractedComments", "ExtractedComments": "Comments", "Locations": "Locations[:0]"}[x.Sel.Name]
					if sib != "" {
						add(x.Sel.Pos(), x.Sel.End(), sib, "field")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						add(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice")
					}
					if x.High != nil {
						add(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice")
					}
					if x.Max != nil {
						add(x.High.End(), x.Max.End(), "", "slice3")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						if c, ok := x.Results[0].(*ast.BinaryExpr); ok && (c.Op == token.EQL || c.Op == token.LAND) {
							add(x.Results[0].Pos(), x.Results[0].End(), "!("+text(x.Results[0])+")", "negret")
						}
					}
				case *ast.RangeStmt:
					if id, ok := x.X.(*ast.Ident); ok {
						add(x.X.Pos(), x.X.End(), id.Name+"[min(1,len("+id.Name+")):]", "skipfirst")
						add(x.X.Pos(), x.X.End(), id.Name+"[:max(0,len("+id.Name+")-1)]", "skiplast")
					}
				}
				return true
			})
		}
	}
}
