package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The command line programs are a module of their own (/repo/cli) around
// cobra. Their functions are extracted mechanically into packages of the main
// module, one per program, that exist only while go2v runs:
//
//   - the literal of root's RunE (and Args, when it is one) becomes a function
//     RunE; every other function but init and Execute is kept as it is;
//   - package variables without a constant meaning (the flags, the settings
//     made from them) become parameters, pointers where a function that is not
//     RunE assigns them; calls between the functions hand them on;
//   - the parameter cmd *cobra.Command is dropped; cobra.MinimumNArgs(n)(cmd,
//     args) becomes minimumNArgs(n, args), with cobra's meaning;
//     term.IsTerminal(int(os.Stdout.Fd())) becomes a parameter;
//   - a local io.Writer that only ever gets open files is declared *os.File.
//
// Nothing else of the text changes.
const cliDir = "internal/verifcli"

type cliEdit struct {
	from, to int
	text     string
}

type cliFn struct {
	name    string
	file    string
	src     []byte
	typ     *ast.FuncType
	body    *ast.BlockStmt
	imports map[string]string // name -> path
	globals map[string]bool   // used, transitively
	written map[string]bool   // assigned, transitively
	calls   map[string]bool
	term    bool
}

func cliOverlay(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	ds, _ := filepath.Glob(filepath.Join(repo, "cli", "*", "cmd"))
	for _, d := range ds {
		tool := filepath.Base(filepath.Dir(d))
		if tool == "gotext-tools" {
			continue
		}
		b, err := cliPackage(repo, d, tool)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", tool, err)
		}
		out[filepath.Join(repo, cliDir, tool, tool+".go")] = b
	}
	return out, nil
}

func cliPackage(repo, dir, tool string) ([]byte, error) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	fns := map[string]*cliFn{}
	var order []string
	gtype := map[string]string{} // package variables and their types, as text
	ginit := map[string]ast.Expr{}
	var consts []string
	imports := map[string]string{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(fset, n, src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		im := map[string]string{}
		for _, i := range af.Imports {
			p := strings.Trim(i.Path.Value, `"`)
			nm := filepath.Base(p)
			if i.Name != nil {
				nm = i.Name.Name
			}
			im[nm] = p
			if nm != "_" {
				if q, ok := imports[nm]; ok && q != p {
					// the same name for two packages: give the later one another
					return nil, fmt.Errorf("import %s means %s and %s", nm, q, p)
				}
				imports[nm] = p
			}
		}
		text := func(x ast.Node) string {
			return string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
		}
		for _, dd := range af.Decls {
			switch x := dd.(type) {
			case *ast.FuncDecl:
				if x.Recv != nil || x.Body == nil || x.Name.Name == "init" || x.Name.Name == "Execute" {
					continue
				}
				fns[x.Name.Name] = &cliFn{name: x.Name.Name, file: n, src: src, typ: x.Type, body: x.Body, imports: im}
				order = append(order, x.Name.Name)
			case *ast.GenDecl:
				for _, s := range x.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok {
						continue
					}
					if x.Tok == token.CONST {
						consts = append(consts, "const "+text(vs))
						continue
					}
					for i, id := range vs.Names {
						switch {
						case id.Name == "root" && len(vs.Values) == 1:
							ast.Inspect(vs.Values[0], func(nd ast.Node) bool {
								kv, ok := nd.(*ast.KeyValueExpr)
								if !ok {
									return true
								}
								k, ok1 := kv.Key.(*ast.Ident)
								fl, ok2 := kv.Value.(*ast.FuncLit)
								if ok1 && ok2 && k.Name == "RunE" {
									fns["RunE"] = &cliFn{name: "RunE", file: n, src: src, typ: fl.Type, body: fl.Body, imports: im}
									order = append(order, "RunE")
								}
								if ok1 && ok2 && k.Name == "PreRun" && fns["PreRun"] == nil {
									fns["PreRun"] = &cliFn{name: "PreRun", file: n, src: src, typ: fl.Type, body: fl.Body, imports: im}
									order = append(order, "PreRun")
								}
								return !ok2
							})
						case vs.Type != nil:
							gtype[id.Name] = text(vs.Type)
						case len(vs.Values) > i:
							ginit[id.Name] = vs.Values[i]
							if ty := cliInitType(vs.Values[i]); ty != "" {
								gtype[id.Name] = ty
							}
						}
					}
				}
			}
		}
	}
	// what each function uses
	for _, fn := range fns {
		fn.globals, fn.written, fn.calls = map[string]bool{}, map[string]bool{}, map[string]bool{}
		cliUses(fn, gtype, fns)
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for c := range fn.calls {
				for g := range fns[c].globals {
					if !fn.globals[g] {
						fn.globals[g], changed = true, true
					}
				}
				for g := range fns[c].written {
					if !fn.written[g] {
						fn.written[g], changed = true, true
					}
				}
				if fns[c].term && !fn.term {
					fn.term, changed = true, true
				}
			}
		}
	}
	var sb strings.Builder
	used := map[string]bool{}
	var bodies strings.Builder
	for _, n := range order {
		fn := fns[n]
		s, err := cliText(fset, fn, fns, gtype, used)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", n, err)
		}
		bodies.WriteString(s)
	}
	if strings.Contains(bodies.String(), "minimumNArgs(") {
		used["errors"] = true
		imports["errors"] = "errors"
		bodies.WriteString("\nfunc minimumNArgs(n int, args []string) error {\n\tif len(args) < n {\n\t\treturn errors.New(\"requires more arguments\")\n\t}\n\treturn nil\n}\n")
	}
	fmt.Fprintf(&sb, "package %s\n\n", tool)
	var is []string
	for n, p := range imports {
		if used[n] {
			is = append(is, fmt.Sprintf("import %s %q\n", n, p))
		}
	}
	sort.Strings(is)
	sb.WriteString(strings.Join(is, ""))
	for _, c := range consts {
		sb.WriteString(c + "\n")
	}
	sb.WriteString(bodies.String())
	return []byte(sb.String()), nil
}

// cliInitType is the type of a package variable given by its initial value.
func cliInitType(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.CallExpr:
		if se, ok := x.Fun.(*ast.SelectorExpr); ok {
			if p, ok := se.X.(*ast.Ident); ok {
				switch p.Name + "." + se.Sel.Name {
				case "compile.DefaultMoConfig":
					return "compile.MoConfig"
				case "compile.DefaultPoConfig":
					return "compile.PoConfig"
				case "po.DefaultTemplateHeaderConfig":
					return "po.HeaderConfig"
				case "log.New":
					return "*log.Logger"
				}
			}
		}
	case *ast.BasicLit:
		switch x.Kind {
		case token.STRING:
			return "string"
		case token.INT:
			return "int"
		}
	}
	return ""
}

// cliUses collects the package variables and functions a function mentions.
// Locals that hide them are told apart by a scan of declared names.
func cliUses(fn *cliFn, gtype map[string]string, fns map[string]*cliFn) {
	local := cliLocals(fn)
	sel := map[*ast.Ident]bool{}
	ast.Inspect(fn.body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			sel[x.Sel] = true
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok {
				sel[id] = true
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if r := cliRoot(l); r != nil && gtype[r.Name] != "" && !local[r.Name] && x.Tok != token.DEFINE {
					fn.written[r.Name] = true
				}
			}
		case *ast.UnaryExpr:
			if r := cliRoot(x.X); x.Op == token.AND && r != nil && gtype[r.Name] != "" && !local[r.Name] {
				fn.written[r.Name] = true
			}
		case *ast.CallExpr:
			// a method with a pointer receiver may write its receiver
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && gtype[id.Name] != "" && !local[id.Name] && gtype[id.Name][0] != '*' {
					fn.written[id.Name] = true
				}
			}
			if cliIsTerm(x) {
				fn.term = true
			}
		}
		return true
	})
	ast.Inspect(fn.body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && !sel[id] && !local[id.Name] {
			if gtype[id.Name] != "" {
				fn.globals[id.Name] = true
			} else if fns[id.Name] != nil {
				fn.calls[id.Name] = true
			}
		}
		return true
	})
}

func cliLocals(fn *cliFn) map[string]bool {
	local := map[string]bool{}
	fields := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			for _, n := range f.Names {
				local[n.Name] = true
			}
		}
	}
	fields(fn.typ.Params)
	fields(fn.typ.Results)
	ast.Inspect(fn.body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						local[id.Name] = true
					}
				}
			}
		case *ast.RangeStmt:
			if x.Tok == token.DEFINE {
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if id, ok := l.(*ast.Ident); ok {
						local[id.Name] = true
					}
				}
			}
		case *ast.ValueSpec:
			for _, id := range x.Names {
				local[id.Name] = true
			}
		case *ast.FuncLit:
			fields(x.Type.Params)
			fields(x.Type.Results)
		}
		return true
	})
	return local
}

func cliRoot(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.IndexExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func cliIsTerm(x *ast.CallExpr) bool {
	se, ok := x.Fun.(*ast.SelectorExpr)
	if !ok || se.Sel.Name != "IsTerminal" {
		return false
	}
	id, ok := se.X.(*ast.Ident)
	return ok && id.Name == "term"
}

func cliSorted(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func cliText(fset *token.FileSet, fn *cliFn, fns map[string]*cliFn, gtype map[string]string, used map[string]bool) (string, error) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []cliEdit
	byPtr := func(f *cliFn, g string) bool { return f.name != "RunE" && f.written[g] && gtype[g][0] != '*' }
	local := cliLocals(fn)
	cmd := "" // the name of the *cobra.Command parameter
	var params []string
	for _, p := range fn.typ.Params.List {
		ty := string(fn.src[off(p.Type.Pos()):off(p.Type.End())])
		for _, n := range p.Names {
			if ty == "*cobra.Command" {
				cmd = n.Name
				continue
			}
			params = append(params, n.Name+" "+ty)
		}
	}
	mark := func(text string) {
		// a package name in a type's text
		if i := strings.Index(text, "."); i > 0 {
			used[strings.TrimLeft(text[:i], "*[]")] = true
		}
	}
	for _, g := range cliSorted(fn.globals) {
		ty := gtype[g]
		mark(ty)
		if byPtr(fn, g) {
			ty = "*" + ty
		}
		params = append(params, g+" "+ty)
	}
	if fn.term {
		params = append(params, "stdoutIsTerminal bool")
	}
	res := ""
	if fn.typ.Results != nil {
		res = string(fn.src[off(fn.typ.Results.Pos()):off(fn.typ.Results.End())])
	}
	sel := map[*ast.Ident]bool{}
	var bad error
	var skip []ast.Node
	handled := map[*ast.Ident]bool{}
	ast.Inspect(fn.body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			sel[x.Sel] = true
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok {
				sel[id] = true
			}
		case *ast.CallExpr:
			if cliIsTerm(x) {
				eds = append(eds, cliEdit{off(x.Pos()), off(x.End()), "stdoutIsTerminal"})
				skip = append(skip, x)
				return false
			}
			// cobra.MinimumNArgs(1)(cmd, args)
			if in, ok := x.Fun.(*ast.CallExpr); ok {
				if se, ok := in.Fun.(*ast.SelectorExpr); ok {
					if p, ok := se.X.(*ast.Ident); ok && p.Name == "cobra" {
						if se.Sel.Name != "MinimumNArgs" || len(in.Args) != 1 || len(x.Args) != 2 {
							bad = fmt.Errorf("cobra.%s", se.Sel.Name)
							return false
						}
						eds = append(eds, cliEdit{off(x.Pos()), off(x.Args[1].Pos()), "minimumNArgs(" + string(fn.src[off(in.Args[0].Pos()):off(in.Args[0].End())]) + ", "})
						return false
					}
				}
			}
			id, ok := x.Fun.(*ast.Ident)
			if !ok || fns[id.Name] == nil || local[id.Name] {
				return true
			}
			handled[id] = true
			c := fns[id.Name]
			var add []string
			for _, g := range cliSorted(c.globals) {
				switch {
				case byPtr(c, g) && !byPtr(fn, g):
					add = append(add, "&"+g)
				case !byPtr(c, g) && byPtr(fn, g):
					add = append(add, "*"+g)
				default:
					add = append(add, g)
				}
			}
			if c.term {
				add = append(add, "stdoutIsTerminal")
			}
			k := 0
			for _, a := range x.Args {
				if ai, ok := a.(*ast.Ident); ok && cmd != "" && ai.Name == cmd {
					to := off(x.Rparen)
					if len(x.Args) > 1 {
						to = off(x.Args[1].Pos())
					}
					eds = append(eds, cliEdit{off(a.Pos()), to, ""})
					continue
				}
				k++
			}
			if len(add) > 0 {
				t := strings.Join(add, ", ")
				if k > 0 {
					t = ", " + t
				}
				eds = append(eds, cliEdit{off(x.Rparen), off(x.Rparen), t})
			}
		case *ast.ValueSpec:
			// var out io.Writer, only ever given files
			if se, ok := x.Type.(*ast.SelectorExpr); ok && len(x.Names) == 1 && len(x.Values) == 0 {
				if p, ok := se.X.(*ast.Ident); ok && p.Name == "io" && se.Sel.Name == "Writer" && cliOnlyFiles(fn, x.Names[0].Name) {
					eds = append(eds, cliEdit{off(x.Type.Pos()), off(x.Type.End()), "*os.File"})
					used["os"] = true
					skip = append(skip, x.Type)
				}
			}
		}
		return true
	})
	if bad != nil {
		return "", bad
	}
	in := func(p token.Pos) bool {
		for _, s := range skip {
			if s.Pos() <= p && p < s.End() {
				return true
			}
		}
		return false
	}
	ast.Inspect(fn.body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || sel[id] || local[id.Name] || in(id.Pos()) {
			return true
		}
		if fn.imports[id.Name] != "" {
			used[id.Name] = true
		}
		if gtype[id.Name] != "" && byPtr(fn, id.Name) && !handled[id] {
			for _, e := range eds { // an argument already rewritten
				if e.from <= off(id.Pos()) && off(id.End()) <= e.to {
					return true
				}
			}
			eds = append(eds, cliEdit{off(id.Pos()), off(id.End()), "(*" + id.Name + ")"})
		}
		return true
	})
	delete(used, "cobra")
	for _, r := range strings.FieldsFunc(res+" "+strings.Join(params, " "), func(r rune) bool { return r == '(' || r == ')' || r == ',' || r == ' ' }) {
		mark(r)
	}
	sort.Slice(eds, func(i, j int) bool {
		return eds[i].from < eds[j].from || eds[i].from == eds[j].from && eds[i].to < eds[j].to
	})
	at := off(fn.body.Lbrace)
	var b strings.Builder
	fmt.Fprintf(&b, "\nfunc %s(%s) %s ", fn.name, strings.Join(params, ", "), res)
	fmt.Fprintf(&b, "/*line %s:%d:%d*/", fn.file, fset.Position(fn.body.Lbrace).Line, fset.Position(fn.body.Lbrace).Column)
	for _, e := range eds {
		if e.from < at {
			return "", fmt.Errorf("overlapping rewriting")
		}
		b.Write(fn.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(fn.src[at:off(fn.body.Rbrace)])
	b.WriteString("}\n")
	return b.String(), nil
}

// cliOnlyFiles: every value a local gets is os.Stdout or a variable declared
// as, or given by, an open file.
func cliOnlyFiles(fn *cliFn, name string) bool {
	ok := true
	isFile := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			p, ok := x.X.(*ast.Ident)
			return ok && p.Name == "os" && (x.Sel.Name == "Stdout" || x.Sel.Name == "Stderr")
		case *ast.Ident:
			file := false
			ast.Inspect(fn.body, func(n ast.Node) bool {
				if vs, ok := n.(*ast.ValueSpec); ok && vs.Type != nil {
					for _, id := range vs.Names {
						if st, ok := vs.Type.(*ast.StarExpr); ok && id.Name == x.Name {
							if se, ok := st.X.(*ast.SelectorExpr); ok && se.Sel.Name == "File" {
								if p, ok := se.X.(*ast.Ident); ok && p.Name == "os" {
									file = true
								}
							}
						}
					}
				}
				return true
			})
			return file
		}
		return false
	}
	ast.Inspect(fn.body, func(n ast.Node) bool {
		if as, isA := n.(*ast.AssignStmt); isA {
			for i, l := range as.Lhs {
				if id, isI := l.(*ast.Ident); isI && id.Name == name {
					if len(as.Rhs) != len(as.Lhs) || !isFile(as.Rhs[i]) {
						ok = false
					}
				}
			}
		}
		return true
	})
	return ok
}

// cliWanted tells whether a function of a command line program is asked for.
func cliWanted(fns string) bool {
	for _, k := range strings.Split(fns, ",") {
		switch strings.SplitN(strings.TrimSpace(k), ".", 2)[0] {
		case "msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext":
			return true
		}
	}
	return false
}
