// mutate lists small changes of Go files, one JSON object per line: file, the
// byte range to replace, the replacement and a description. It serves to look for
// changes that the checks do not notice (see DESIGN.md).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string
	Start, End int
	New        string
	What       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(a, b token.Pos, nw, op string) {
			s, e := off(a), off(b)
			old := string(src[s:e])
			if len(old) > 70 {
				old = old[:70] + "…"
			}
			enc.Encode(mut{f, s, e, nw, fmt.Sprintf("%s:%d %s: %s %q -> %q", f, fs.Position(a).Line, fn, op, strings.Join(strings.Fields(old), " "), nw)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" || strings.HasPrefix(fd.Name.Name, "dump") || fd.Name.Name == "init" {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					var alts []string
					switch n.Op {
					case token.LSS:
						alts = []string{"<=", ">"}
					case token.LEQ:
						alts = []string{"<"}
					case token.GTR:
						alts = []string{">=", "<"}
					case token.GEQ:
						alts = []string{">"}
					case token.EQL:
						alts = []string{"!="}
					case token.NEQ:
						alts = []string{"=="}
					case token.ADD:
						alts = []string{"-"}
					case token.SUB:
						alts = []string{"+"}
					case token.MUL:
						alts = []string{"/"}
					case token.QUO:
						alts = []string{"*"}
					case token.LAND:
						alts = []string{"||"}
					case token.LOR:
						alts = []string{"&&"}
					}
					for _, a := range alts {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, "op")
					}
					switch n.Op {
					case token.ADD, token.SUB, token.MUL, token.QUO, token.LAND, token.LOR:
						emit(n.Pos(), n.End(), text(n.X), "left")
						emit(n.Pos(), n.End(), text(n.Y), "right")
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if v, err := strconv.Atoi(n.Value); err == nil {
							emit(n.Pos(), n.End(), strconv.Itoa(v+1), "const")
							if v > 0 {
								emit(n.Pos(), n.End(), strconv.Itoa(v-1), "const")
							}
						}
					case token.FLOAT:
						emit(n.Pos(), n.End(), "("+n.Value+"*1.3)", "const")
					case token.STRING:
						if s, err := strconv.Unquote(n.Value); err == nil {
							if s != "" {
								emit(n.Pos(), n.End(), `""`, "string")
							}
							if len(s) > 1 && strings.ContainsAny(s, " \n\t") && len(s) < 8 {
								emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "string")
							}
						}
					}
				case *ast.IfStmt:
					if n.Init == nil {
						emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
						emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always")
					}
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "", "drop")
				case *ast.DeferStmt:
					emit(n.Pos(), n.End(), "", "drop")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						if len(n.Lhs) == 1 {
							emit(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]), "drop")
						}
						if n.Tok == token.ADD_ASSIGN {
							emit(n.TokPos, n.TokPos+2, "-=", "op")
							emit(n.TokPos, n.TokPos+2, "=", "op")
						}
						if n.Tok == token.SUB_ASSIGN {
							emit(n.TokPos, n.TokPos+2, "+=", "op")
						}
					}
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "", "drop")
				case *ast.BranchStmt:
					if n.Label == nil && n.Tok == token.CONTINUE {
						emit(n.Pos(), n.End(), "break", "branch")
						emit(n.Pos(), n.End(), "", "drop")
					}
					if n.Label == nil && n.Tok == token.BREAK {
						emit(n.Pos(), n.End(), "continue", "branch")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", "return")
						}
						if c, ok := r.(*ast.CallExpr); ok && strings.HasPrefix(text(c), "errors.") {
							emit(r.Pos(), r.End(), "nil", "return")
						}
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit(r.Pos(), r.End(), "!"+id.Name, "return")
						}
					}
				case *ast.CaseClause:
					if len(n.Body) > 0 {
						emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
					}
				case *ast.SelectorExpr:
					swap := map[string]string{"Left": "Right", "Right": "Left", "Top": "Bottom", "Bottom": "Top", "Width": "Height", "Height": "Width", "OffsetX": "OffsetY", "OffsetY": "OffsetX", "x0": "x1", "x1": "x0", "y0": "y1", "y1": "y0", "spansCols": "spansRows", "spansRows": "spansCols", "colSpan": "rowSpan", "rowSpan": "colSpan", "Foreground": "Background", "Background": "Text", "Text": "Foreground", "width": "pureTextWidth", "pureTextWidth": "width", "minHeight": "height"}
					if s, ok := swap[n.Sel.Name]; ok {
						emit(n.Sel.Pos(), n.Sel.End(), s, "field")
					}
				case *ast.CallExpr:
					swap := map[string]string{"Trim": "TrimLeft", "Fields": "TrimSpace", "MutatedStylesWithSelector": "", "ReplaceAll": "", "Contains": "HasPrefix", "HasPrefix": "Contains", "IndexByte": "LastIndexByte"}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && swap[s.Sel.Name] != "" {
						emit(s.Sel.Pos(), s.Sel.End(), swap[s.Sel.Name], "call")
					}
				case *ast.RangeStmt:
					if id, ok := n.X.(*ast.Ident); ok {
						emit(n.X.Pos(), n.X.End(), fmt.Sprintf("%s[:len(%s)-len(%s)/3]", id.Name, id.Name, id.Name), "range")
					}
				}
				return true
			})
		}
	}
}
