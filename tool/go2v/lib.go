package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (t *Tr) libUse(name string) { t.libUsed[name] = true }

func (f *Fr) constStr(e ast.Expr) (string, bool) {
	tv, ok := f.info.Types[e]
	if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(tv.Value), true
}

// anyOf packs a value for fmt; arguments the model cannot pack are opaque.
func (f *Fr) anyOf(e ast.Expr) (r string) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unsupported); !ok {
				panic(x)
			}
			r = "go_any_nil()"
		}
	}()
	v := f.expr(e)
	vt := f.t.vt(f.typeOf(e))
	if vt == "GoAny" {
		return v
	}
	if vt == "GoErr" {
		f.t.needAny("GoErr")
		return "any_of_GoErr(" + v + ")"
	}
	f.t.needAny(vt)
	return fmt.Sprintf("any_of_%s(%s)", mangle(vt), v)
}

// sprintf builds the text of a constant format; false if not constant.
func (f *Fr) sprintf(format ast.Expr, args []ast.Expr, spread bool) string {
	fs, ok := f.constStr(format)
	if !ok || spread {
		var as []string
		if !spread {
			for _, a := range args {
				as = append(as, f.anyOf(a))
			}
			s := "Seq::<GoAny>::empty()"
			if len(as) > 0 {
				s = "(seq![" + strings.Join(as, ", ") + "])"
			}
			return fmt.Sprintf("go_sprintf(%s, %s)", f.expr(format), s)
		}
		return fmt.Sprintf("go_sprintf(%s, %s)", f.expr(format), f.expr(args[0]))
	}
	var parts []string
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, strLit(lit))
			lit = ""
		}
	}
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += fs[i : i+1]
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("0123456789+-# .", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			bail("format string")
		}
		verb := fs[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if k >= len(args) {
			bail("format arguments")
		}
		a := args[k]
		k++
		flush()
		vt := f.t.vt(f.typeOf(a))
		switch {
		case verb == "%s" && vt == "Seq<u8>" || verb == "%v" && vt == "Seq<u8>":
			parts = append(parts, f.expr(a))
		case (verb == "%d" || verb == "%v") && goIntRange[vt]:
			parts = append(parts, "itoa("+f.expr(a)+" as int)")
		case verb == "%02x" && vt == "u8":
			parts = append(parts, "hex02("+f.expr(a)+" as int)")
		default:
			parts = append(parts, fmt.Sprintf("fmt_verb(%s, %s)", strLit(verb), f.anyOf(a)))
		}
	}
	flush()
	if len(parts) == 0 {
		return strLit("")
	}
	s := par(parts[0])
	for _, p := range parts[1:] {
		s = fmt.Sprintf("%s.add(%s)", s, p)
	}
	return s
}

// writerOut appends data to a writer argument and returns the error value.
func (f *Fr) writerOut(w ast.Expr, data string) string {
	vt := f.t.vt(f.typeOf(w))
	switch vt {
	case "Option<Seq<u8>>":
		if u, ok := unparen(w).(*ast.UnaryExpr); ok && u.Op == token.AND {
			f.assign(u.X, fmt.Sprintf("%s.add(%s)", par(f.expr(u.X)), data))
			return "GoErr::Nil"
		}
		if id, ok := unparen(w).(*ast.Ident); ok {
			if v := f.env[f.info.ObjectOf(id)]; v != nil && v.deref {
				f.setVar(v, fmt.Sprintf("%s.add(%s)", v.name, data))
				return "GoErr::Nil"
			}
		}
	case "GoWriter", "Option<GoWriter>":
		id, ok := unparen(w).(*ast.Ident)
		if !ok {
			break
		}
		v := f.env[f.info.ObjectOf(id)]
		d := f.tmp(data)
		e := f.tmp(fmt.Sprintf("gw_err(%s, %s)", v.name, d))
		f.setVar(v, fmt.Sprintf("gw_write(%s, %s)", v.name, d))
		return e
	}
	bail("%s: writer of type %s", f.pos(w), vt)
	return ""
}

func (f *Fr) libCall(name string, o *types.Func, c *ast.CallExpr) []string {
	f.t.libUse(name)
	arg := func(i int) string { return f.exprTo(c.Args[i], o.Type().(*types.Signature).Params().At(i).Type()) }
	if strings.HasPrefix(name, "log.Logger.") {
		return nil
	}
	// methods on builders/buffers
	if strings.HasPrefix(name, "strings.Builder.") || strings.HasPrefix(name, "bytes.Buffer.") {
		return f.bufferCall(name[strings.LastIndex(name, ".")+1:], c)
	}
	if strings.HasPrefix(name, "bytes.Reader.") {
		return f.readerCall(name[strings.LastIndex(name, ".")+1:], c)
	}
	if strings.HasPrefix(name, "reflect.") {
		return f.reflectCall(name, c)
	}
	if strings.HasPrefix(name, "fs.Walker.") {
		se := unparen(c.Fun).(*ast.SelectorExpr)
		w := f.deref(se.X)
		f.t.libUse(name)
		switch name[len("fs.Walker."):] {
		case "Err":
			return []string{w + ".cur.err"}
		case "Path":
			return []string{w + ".cur.path"}
		case "Stat":
			return []string{w + ".cur"}
		case "Step":
			w = f.tmp(w)
			f.assignDeref(se.X, "kr_step("+w+")")
			return []string{w + ".todo.len() > 0"}
		}
	}
	switch name {
	case "fs.Walk":
		f.t.libUse(name)
		return []string{"Some(kr_start(" + arg(0) + "))"}
	case "fs.FileInfo.IsDir":
		it := f.expr(unparen(c.Fun).(*ast.SelectorExpr).X)
		f.oblig("nil dereference", c, it+".err is Nil")
		return []string{it + ".dir"}
	case "filepath.Join":
		if c.Ellipsis.IsValid() {
			break
		}
		var es []string
		for i := range c.Args {
			es = append(es, f.expr(c.Args[i]))
		}
		return []string{"fp_join(seq![" + strings.Join(es, ", ") + "])"}
	case "filepath.Ext":
		return []string{"path_ext(" + arg(0) + ")"}
	case "filepath.Abs":
		p := f.tmp(arg(0))
		return []string{"path_abs(" + p + ")", "path_abs_err(" + p + ")"}
	case "strings.Compare":
		return []string{fmt.Sprintf("str_cmp(%s, %s)", arg(0), arg(1))}
	case "fuzzy.Ratio":
		return []string{fmt.Sprintf("fuzzy_ratio(%s, %s)", f.expr(c.Args[0]), f.expr(c.Args[1]))}
	case "filepath.Clean":
		return []string{fmt.Sprintf("path_clean(%s)", arg(0))}
	case "strings.HasPrefix":
		return []string{fmt.Sprintf("has_prefix(%s, %s)", arg(0), arg(1))}
	case "strings.HasSuffix":
		return []string{fmt.Sprintf("has_suffix(%s, %s)", arg(0), arg(1))}
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		return []string{fmt.Sprintf("go_%s(%s)", strings.Replace(name, ".", "_", 1), arg(0))}
	case "strings.Contains", "strings.ContainsRune", "strings.EqualFold":
		return []string{fmt.Sprintf("go_%s(%s, %s)", strings.Replace(name, ".", "_", 1), arg(0), arg(1))}
	case "strings.ReplaceAll":
		if tv := f.info.Types[c.Args[1]]; tv.Value != nil && constant.StringVal(tv.Value) != "" {
			f.t.libUse(name)
			return []string{fmt.Sprintf("str_join(str_split(%s, %s), %s)", arg(0), arg(1), arg(2))}
		}
	case "strings.Split", "bytes.Split":
		return []string{fmt.Sprintf("str_split(%s, %s)", arg(0), arg(1))}
	case "strings.SplitN", "bytes.SplitN":
		return []string{fmt.Sprintf("str_splitn(%s, %s, %s as int)", arg(0), arg(1), arg(2))}
	case "strings.Cut", "bytes.Cut":
		t := f.tmp(fmt.Sprintf("str_cut(%s, %s)", arg(0), arg(1)))
		return splitTuple(t, 3)
	case "strings.Join", "bytes.Join":
		return []string{fmt.Sprintf("str_join(%s, %s)", arg(0), arg(1))}
	case "strings.Index", "bytes.Index":
		return []string{fmt.Sprintf("str_index(%s, %s)", arg(0), arg(1))}
	case "strings.Count", "bytes.Count":
		return []string{fmt.Sprintf("str_count(%s, %s)", arg(0), arg(1))}
	case "strings.IndexByte", "bytes.IndexByte":
		return []string{fmt.Sprintf("str_index(%s, seq![%s])", arg(0), arg(1))}
	case "strings.LastIndexByte", "bytes.LastIndexByte":
		s := arg(0)
		if !f.spec {
			f.emit("proof { lemma_go_len(%s); }", s)
		}
		return []string{fmt.Sprintf("(str_last(%s, %s) as i64)", s, arg(1))}
	case "strings.Fields":
		return []string{fmt.Sprintf("str_fields(%s)", arg(0))}
	case "bytes.Equal":
		return []string{fmt.Sprintf("(%s == %s)", arg(0), arg(1))}
	case "strconv.Itoa":
		return []string{fmt.Sprintf("itoa(%s as int)", arg(0))}
	case "strconv.IsPrint":
		return []string{fmt.Sprintf("go_isprint(%s as int)", arg(0))}
	case "strconv.Unquote":
		s := f.tmp(arg(0))
		return []string{"go_unquote(" + s + ")", "go_unquote_err(" + s + ")"}
	case "strconv.Atoi":
		s := f.tmp(arg(0))
		return []string{"go_atoi(" + s + ")", "go_atoi_err(" + s + ")"}
	case "strconv.ParseUint":
		s := f.tmp(arg(0))
		return []string{"go_parseuint(" + s + ")", "go_parseuint_err(" + s + ")"}
	case "errors.New":
		return []string{"GoErr::Msg(" + arg(0) + ")"}
	case "fmt.Errorf":
		f.t.needErr = true
		return []string{"GoErr::Msg(" + f.sprintfOpaque(c) + ")"}
	case "error.Error":
		se := unparen(c.Fun).(*ast.SelectorExpr)
		return []string{"err_text(" + f.expr(se.X) + ")"}
	case "fmt.Sprintf":
		return []string{f.sprintf(c.Args[0], c.Args[1:], c.Ellipsis != token.NoPos)}
	case "fmt.Sprint":
		if c.Ellipsis != token.NoPos {
			return []string{"go_sprint(" + f.expr(c.Args[0]) + ")"}
		}
		s := ""
		for _, a := range c.Args {
			if f.t.vt(f.typeOf(a)) != "Seq<u8>" {
				bail("%s: Sprint of a non-string", f.pos(c))
			}
			if s == "" {
				s = f.expr(a)
			} else {
				s = fmt.Sprintf("%s.add(%s)", par(s), f.expr(a))
			}
		}
		return []string{s}
	case "fmt.Fprintf":
		s := f.sprintf(c.Args[1], c.Args[2:], c.Ellipsis != token.NoPos)
		return []string{"arbitrary::<i64>()", f.writerOut(c.Args[0], s)}
	case "fmt.Fprint", "fmt.Fprintln":
		s := strLit("")
		for i, a := range c.Args[1:] {
			vt := f.t.vt(f.typeOf(a))
			v := f.expr(a)
			if vt != "Seq<u8>" {
				bail("%s: %s of %s", f.pos(c), name, vt)
			}
			if name == "fmt.Fprintln" && i > 0 {
				v = strLit(" ") + ".add(" + v + ")"
			}
			if i == 0 {
				s = v
			} else {
				s = fmt.Sprintf("%s.add(%s)", par(s), v)
			}
		}
		if name == "fmt.Fprintln" {
			s = fmt.Sprintf("%s.push(10u8)", par(s))
		}
		return []string{"arbitrary::<i64>()", f.writerOut(c.Args[0], s)}
	case "io.WriteString":
		return []string{"arbitrary::<i64>()", f.writerOut(c.Args[0], arg(1))}
	case "io.Writer.Write", "bufio.Writer.Write", "bufio.Writer.WriteString":
		se := unparen(c.Fun).(*ast.SelectorExpr)
		return []string{"arbitrary::<i64>()", f.writerOut(se.X, arg(0))}
	case "bufio.Writer.Flush":
		se := unparen(c.Fun).(*ast.SelectorExpr)
		v := f.env[f.info.ObjectOf(unparen(se.X).(*ast.Ident))]
		if v == nil || v.under == nil {
			bail("%s: Flush of an unmodelled writer", f.pos(c))
		}
		e := f.tmp(fmt.Sprintf("gw_err(%s, %s.out)", v.under.name, v.name))
		f.setVar(v.under, fmt.Sprintf("gw_write(%s, %s.out)", v.under.name, v.name))
		f.setVar(v, "gw_buf()")
		return []string{e}
	case "binary.Write":
		ord := f.expr(c.Args[1])
		data := f.binArg(c.Args[2])
		return []string{f.writerOut(c.Args[0], fmt.Sprintf("bin_enc(%s, %s)", ord, data))}
	case "binary.Read":
		return []string{f.binRead(c)}
	case "io.ReadFull":
		r := f.evalArg(c.Args[0], f.typeOf(c.Args[0]))
		rv := f.tmp(r.val)
		p := f.tmp(f.expr(c.Args[1]))
		f.assign(c.Args[1], fmt.Sprintf("br_read(%s, %s)", rv, p))
		r.back(fmt.Sprintf("br_advance(%s, %s.len() as int)", rv, p))
		return []string{fmt.Sprintf("br_count(%s, %s.len() as int)", rv, p), fmt.Sprintf("br_full_err(%s, %s.len() as int)", rv, p)}
	case "bytes.NewReader":
		return []string{"Some(BytesReader { data: " + arg(0) + ", pos: 0i64 })"}
	case "bytes.NewBuffer":
		return []string{"Some(" + arg(0) + ")"}
	case "log.New", "log.Default":
		return []string{"Some(zero_GoLogger())"}
	case "regexp.MustCompile":
		p, ok := f.constStr(c.Args[0])
		if !ok {
			break
		}
		return []string{"Some(" + f.t.regexConst(p) + ")"}
	case "regexp.Compile":
		s := f.tmp(arg(0))
		return []string{"re_compile(" + s + ")", "re_compile_err(" + s + ")"}
	case "regexp.Regexp.MatchString":
		return []string{fmt.Sprintf("re_match(%s, %s)", f.reRecv(c), arg(0))}
	case "regexp.Regexp.FindStringSubmatch":
		return []string{fmt.Sprintf("re_sub(%s, %s)", f.reRecv(c), arg(0))}
	case "regexp.Regexp.FindAllStringSubmatch":
		return []string{fmt.Sprintf("re_suball(%s, %s)", f.reRecv(c), arg(0))}
	case "io.ReadAll":
		r := f.tmp(f.readerOnce(c.Args[0], o.Type().(*types.Signature).Params().At(0).Type()))
		return []string{"gr_data(" + r + ")", "gr_err(" + r + ")"}
	case "os.ReadFile":
		p := f.tmp(arg(0))
		return []string{"os_data(" + p + ")", "os_read_err(" + p + ")"}
	case "os.Open":
		p := f.tmp(arg(0))
		return []string{"os_open(" + p + ")", "os_open_err(" + p + ")"}
	case "os.OpenFile":
		if tv := f.info.Types[c.Args[1]]; tv.Value == nil || constant.Sign(tv.Value) != 0 {
			v := f.fs(c)
			p, fl := f.tmp(arg(0)), f.tmp(arg(1))
			w := f.tmp(v.name)
			f.setVar(v, fmt.Sprintf("fs_opened(%s, %s, %s)", w, p, fl))
			return []string{fmt.Sprintf("fs_handle(%s, %s, %s)", w, p, fl), fmt.Sprintf("fs_open_err(%s, %s, %s)", w, p, fl)}
		}
		p := f.tmp(arg(0))
		return []string{"os_open(" + p + ")", "os_open_err(" + p + ")"}
	case "os.Create":
		v := f.fs(c)
		p := f.tmp(arg(0))
		w := f.tmp(v.name)
		f.setVar(v, fmt.Sprintf("fs_opened(%s, %s, 578)", w, p))
		return []string{fmt.Sprintf("fs_handle(%s, %s, 578)", w, p), fmt.Sprintf("fs_open_err(%s, %s, 578)", w, p)}
	case "os.IsExist":
		return []string{"os_is_exist(" + arg(0) + ")"}
	case "os.ReadDir":
		p := f.tmp(arg(0))
		return []string{"os_dir(" + p + ")", "os_dir_err(" + p + ")"}
	case "fs.DirEntry.Name", "fs.DirEntry.IsDir":
		v := f.expr(unparen(c.Fun).(*ast.SelectorExpr).X)
		return []string{v + map[string]string{"fs.DirEntry.Name": ".name", "fs.DirEntry.IsDir": ".dir"}[name]}
	case "os.File.Name":
		return []string{"os_name(" + f.expr(unparen(c.Fun).(*ast.SelectorExpr).X) + ")"}
	case "os.File.Close":
		return []string{"arbitrary::<GoErr>()"}
	case "token.NewFileSet":
		return []string{"()"}
	case "parser.ParseFile":
		// the tree is a function of the name and of what the reader still holds
		tv := f.info.Types[c.Args[3]]
		if tv.Value == nil || f.t.vt(f.typeOf(c.Args[2])) != "Option<BytesReader>" {
			break
		}
		if k, ok := constant.Int64Val(constant.ToInt(tv.Value)); !ok || k != 0 {
			bail("%s: parser mode", f.pos(c))
		}
		n := f.tmp(arg(1))
		cur := f.tmp(f.deref(c.Args[2]))
		f.assignDeref(c.Args[2], fmt.Sprintf("BytesReader { data: %s.data, pos: %s.data.len() as i64 }", cur, cur))
		f.t.libUse(name)
		return []string{fmt.Sprintf("go_parse_file(%s, br_rest(%s))", n, cur), fmt.Sprintf("go_parse_file_err(%s, br_rest(%s))", n, cur)}
	case "participle.Parser.ParseBytes":
		// a parser of the repository: a function of the name and the text
		se := unparen(c.Fun).(*ast.SelectorExpr)
		var po *types.Var
		switch x := unparen(se.X).(type) {
		case *ast.Ident:
			po, _ = f.info.ObjectOf(x).(*types.Var)
		case *ast.SelectorExpr:
			po, _ = f.info.ObjectOf(x.Sel).(*types.Var)
		}
		if po == nil || po.Pkg() == nil || po.Parent() != po.Pkg().Scope() || f.t.assigned(po) || len(c.Args) != 2 {
			break
		}
		pn := "pp_" + pkgAlias(po.Pkg()) + "_" + po.Name()
		rt := f.t.vt(f.typeOf(c).(*types.Tuple).At(0).Type())
		if !f.t.libUsed["pp:"+pn] {
			f.t.libUsed["pp:"+pn] = true
			f.t.specOut = append(f.t.specOut,
				fmt.Sprintf("pub uninterp spec fn %s(name: Seq<u8>, text: Seq<u8>) -> %s;", pn, rt),
				fmt.Sprintf("pub uninterp spec fn %s_err(name: Seq<u8>, text: Seq<u8>) -> GoErr;", pn),
				fmt.Sprintf("pub broadcast axiom fn ax_%s(name: Seq<u8>, text: Seq<u8>) ensures (#[trigger] %s_err(name, text)) is Nil ==> %s(name, text) is Some;", pn, pn, pn))
			f.t.axioms = append(f.t.axioms, "ax_"+pn)
		}
		f.t.libUse(name)
		n, d := f.tmp(arg(0)), f.tmp(arg(1))
		return []string{fmt.Sprintf("%s(%s, %s)", pn, n, d), fmt.Sprintf("%s_err(%s, %s)", pn, n, d)}
	case "lexer.Token.String":
		return []string{"tok_string(" + f.expr(unparen(c.Fun).(*ast.SelectorExpr).X) + ")"}
	case "ast.BasicLit.Pos", "ast.CallExpr.Pos", "ast.Ident.Pos":
		v, _ := f.derefValue(unparen(c.Fun).(*ast.SelectorExpr).X)
		return []string{v + map[string]string{"ast.BasicLit.Pos": ".ValuePos", "ast.CallExpr.Pos": ".pos", "ast.Ident.Pos": ".NamePos"}[name]}
	case "ast.Ident.String":
		v, _ := f.derefValue(unparen(c.Fun).(*ast.SelectorExpr).X)
		return []string{v + ".Name"}
	case "utf8.RuneCountInString":
		return []string{"go_runecount(" + arg(0) + ")"}
	case "strings.TrimLeft", "strings.TrimRight":
		if set, ok := f.constStr(c.Args[1]); ok && isASCII(set) {
			return []string{fmt.Sprintf("str_%s(%s, %s)", map[bool]string{true: "trim_left", false: "trim_right"}[name == "strings.TrimLeft"], arg(0), arg(1))}
		}
	}
	if rs := f.pureLib(name, o, c, arg); rs != nil {
		return rs
	}
	bail("%s: library call %s", f.pos(c), name)
	return nil
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// pureLibs: packages whose functions on plain values are functions of their
// arguments and do not panic (the exceptions are named).
var pureLibs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "mime": true, "math": true}
var notPure = map[string]bool{"strings.Repeat": true, "bytes.Repeat": true, "filepath.Abs": true, "filepath.Glob": true, "filepath.EvalSymlinks": true, "mime.TypeByExtension": true, "strings.NewReplacer": true, "strings.Map": true, "bytes.Map": true, "mime.ExtensionsByType": true, "mime.AddExtensionType": true}

// preludeLibs: those already declared in prelude.rs.
var preludeLibs = map[string]bool{"lib_mime_FormatMediaType_0": true}

// pureLib models such a function as an uninterpreted function of its arguments.
func (f *Fr) pureLib(name string, o *types.Func, c *ast.CallExpr, arg func(int) string) []string {
	sig := o.Type().(*types.Signature)
	if o.Pkg() == nil || !pureLibs[o.Pkg().Path()] || notPure[name] || sig.Recv() != nil || sig.Variadic() || sig.Results().Len() == 0 {
		return nil
	}
	plain := func(ty types.Type) bool {
		switch u := types.Unalias(ty).Underlying().(type) {
		case *types.Basic:
			return u.Kind() != types.Float64 && u.Kind() != types.Float32
		case *types.Slice:
			_, ok := u.Elem().Underlying().(*types.Basic)
			return ok
		case *types.Map:
			return true
		}
		return types.TypeString(ty, nil) == "error"
	}
	var ps, as []string
	for i := 0; i < sig.Params().Len(); i++ {
		if !plain(sig.Params().At(i).Type()) {
			return nil
		}
		ps = append(ps, fmt.Sprintf("a%d: %s", i, f.t.vt(sig.Params().At(i).Type())))
		as = append(as, f.tmp(arg(i)))
	}
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		if !plain(sig.Results().At(i).Type()) {
			return nil
		}
		fn := fmt.Sprintf("lib_%s_%d", strings.ReplaceAll(name, ".", "_"), i)
		if !f.t.libUsed["fn:"+fn] && !preludeLibs[fn] {
			f.t.libUsed["fn:"+fn] = true
			f.t.specOut = append(f.t.specOut, fmt.Sprintf("pub uninterp spec fn %s(%s) -> %s;", fn, strings.Join(ps, ", "), f.t.vt(sig.Results().At(i).Type())))
		}
		rs = append(rs, fmt.Sprintf("%s(%s)", fn, strings.Join(as, ", ")))
	}
	return rs
}

func (f *Fr) sprintfOpaque(c *ast.CallExpr) string {
	if c.Ellipsis != token.NoPos {
		return fmt.Sprintf("go_sprintf(%s, %s)", f.expr(c.Args[0]), f.expr(c.Args[1]))
	}
	var as []string
	for _, a := range c.Args[1:] {
		as = append(as, f.anyOf(a))
	}
	s := "Seq::<GoAny>::empty()"
	if len(as) > 0 {
		s = "(seq![" + strings.Join(as, ", ") + "])"
	}
	return fmt.Sprintf("go_sprintf(%s, %s)", f.expr(c.Args[0]), s)
}

func (f *Fr) reRecv(c *ast.CallExpr) string {
	v, _ := f.derefValue(unparen(c.Fun).(*ast.SelectorExpr).X)
	return v
}

func (f *Fr) binArg(e ast.Expr) string {
	vt := f.t.vt(f.typeOf(e))
	v := f.expr(e)
	if vt == "GoAny" {
		return v
	}
	f.t.needAny(vt)
	return fmt.Sprintf("any_of_%s(%s)", mangle(vt), v)
}

var binSizes = map[string]int{"u32": 4, "i32": 4, "u16": 2, "i16": 2, "u8": 1, "u64": 8, "i64": 8}

// binSize is the encoded size of a fixed-size type.
func (f *Fr) binSize(ty types.Type) int {
	if n, ok := binSizes[f.t.vt(ty)]; ok {
		return n
	}
	if s, ok := ty.Underlying().(*types.Struct); ok {
		n := 0
		for i := 0; i < s.NumFields(); i++ {
			n += f.binSize(s.Field(i).Type())
		}
		return n
	}
	bail("encoded size of %s", ty)
	return 0
}

func (f *Fr) binDec(ty types.Type, ord, data string, off int) string {
	vt := f.t.vt(ty)
	if _, ok := binSizes[vt]; ok {
		return fmt.Sprintf("bin_dec_%s(%s, %s, %d)", vt, ord, data, off)
	}
	s := ty.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, fieldName(s.Field(i).Name())+": "+f.binDec(s.Field(i).Type(), ord, data, off))
		off += f.binSize(s.Field(i).Type())
	}
	return vt + " { " + strings.Join(fs, ", ") + " }"
}

func (f *Fr) binRead(c *ast.CallExpr) string {
	r := f.evalArg(c.Args[0], f.typeOf(c.Args[0]))
	rv := f.tmp(r.val)
	ord := f.tmp(f.expr(c.Args[1]))
	u, ok := unparen(c.Args[2]).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		bail("%s: binary.Read target", f.pos(c))
	}
	ty := f.typeOf(u.X)
	n := f.binSize(ty)
	f.oblig("byte order is set", c, "!("+ord+" is Nil)")
	okv := f.tmp(fmt.Sprintf("br_has(%s, %d)", rv, n))
	old := f.expr(u.X)
	d := f.tmp(fmt.Sprintf("br_rest(%s)", rv))
	f.assign(u.X, fmt.Sprintf("(if %s { %s } else { %s })", okv, f.binDec(ty, ord, d, 0), old))
	r.back(fmt.Sprintf("br_advance(%s, %d)", rv, n))
	return fmt.Sprintf("(if %s { GoErr::Nil } else { GoErr::Msg(arbitrary()) })", okv)
}

func (f *Fr) bufferCall(m string, c *ast.CallExpr) []string {
	se := unparen(c.Fun).(*ast.SelectorExpr)
	sel := f.info.Selections[se]
	cur := f.recvValue(se, sel)
	path := sel.Index()[:len(sel.Index())-1]
	set := func(v string) { f.writeRecv(se, path, v) }
	sig := sel.Obj().Type().(*types.Signature)
	arg := func(i int) string { return f.exprTo(c.Args[i], sig.Params().At(i).Type()) }
	switch m {
	case "WriteString", "Write":
		a := f.tmp(arg(0))
		set(fmt.Sprintf("%s.add(%s)", par(cur), a))
		return []string{"(" + a + ".len() as i64)", "GoErr::Nil"}
	case "WriteByte":
		set(fmt.Sprintf("%s.push(%s)", par(cur), arg(0)))
		return []string{"GoErr::Nil"}
	case "WriteRune":
		a := arg(0)
		set(fmt.Sprintf("%s.add(enc_rune(%s as int))", par(cur), par(a)))
		return []string{"arbitrary::<i64>()", "GoErr::Nil"}
	case "String", "Bytes":
		return []string{cur}
	case "Len":
		if !f.spec {
			f.emit("proof { lemma_go_len(%s); }", cur)
		}
		return []string{"(" + par(cur) + ".len() as i64)"}
	case "Reset":
		set("Seq::<u8>::empty()")
		return nil
	case "Grow":
		return nil
	}
	bail("%s: buffer method %s", f.pos(c), m)
	return nil
}

func (f *Fr) readerCall(m string, c *ast.CallExpr) []string {
	se := unparen(c.Fun).(*ast.SelectorExpr)
	sel := f.info.Selections[se]
	cur := f.tmp(f.recvValue(se, sel))
	set := func(v string) { f.writeRecv(se, nil, v) }
	switch m {
	case "Seek":
		tv := f.info.Types[c.Args[1]]
		if tv.Value == nil {
			bail("%s: Seek whence", f.pos(c))
		}
		if k, _ := constant.Int64Val(tv.Value); k != 0 {
			bail("%s: Seek whence", f.pos(c))
		}
		off := f.tmp(f.expr(c.Args[0]))
		set(fmt.Sprintf("(if %s < 0 { %s } else { BytesReader { data: %s.data, pos: %s as i64 } })", off, cur, cur, off))
		return []string{fmt.Sprintf("(%s as i64)", off), fmt.Sprintf("(if %s < 0 { GoErr::Msg(arbitrary()) } else { GoErr::Nil })", off)}
	case "Read":
		p := f.tmp(f.expr(c.Args[0]))
		f.assign(c.Args[0], fmt.Sprintf("br_read(%s, %s)", cur, p))
		set(fmt.Sprintf("br_advance(%s, %s.len() as int)", cur, p))
		return []string{fmt.Sprintf("br_count(%s, %s.len() as int)", cur, p), fmt.Sprintf("br_read_err(%s)", cur)}
	case "ReadByte":
		set(fmt.Sprintf("br_advance(%s, 1)", cur))
		return []string{fmt.Sprintf("br_byte(%s)", cur), fmt.Sprintf("br_read_err(%s)", cur)}
	case "Len":
		return []string{fmt.Sprintf("(br_rest(%s).len() as i64)", cur)}
	case "Size":
		f.emit("proof { lemma_go_len(%s.data); }", cur)
		return []string{fmt.Sprintf("(%s.data.len() as i64)", cur)}
	}
	bail("%s: bytes.Reader.%s", f.pos(c), m)
	return nil
}

// readerOnce passes an io.Reader that nothing else in the function reads.
func (f *Fr) readerOnce(a ast.Expr, formal types.Type) string {
	id, ok := unparen(a).(*ast.Ident)
	if se, isSel := unparen(a).(*ast.SelectorExpr); isSel {
		// standard input, named once at most on the command line
		if v, isVar := f.info.ObjectOf(se.Sel).(*types.Var); isVar && v.Pkg() != nil && v.Pkg().Path() == "os" && v.Name() == "Stdin" && strings.HasPrefix(f.top.fn.Pkg.PkgPath, modPath+"/"+cliDir+"/") {
			f.t.trusted["standard input"] = "read at most once"
			return "gr_file(os_stdin())"
		}
	}
	if !ok {
		bail("%s: reader that is no variable", f.pos(a))
	}
	obj := f.info.ObjectOf(id)
	file := f.t.vt(obj.Type()) == "Option<GoOsFile>"
	if v := f.env[obj]; file && v == nil {
		bail("%s: a file opened elsewhere", f.pos(a))
	}
	// the elements of a list of files are taken to be different files
	var body ast.Node = f.fn.Decl.Body
	ast.Inspect(body, func(k ast.Node) bool {
		if r, ok := k.(*ast.RangeStmt); ok && r.Tok == token.DEFINE {
			if v, ok := r.Value.(*ast.Ident); ok && f.info.Defs[v] == obj {
				body = r.Body
				f.t.trusted["readers in "+types.ExprString(r.X)] = "taken to be different files (" + f.fn.Key + ")"
			}
		}
		return true
	})
	// once the variable is given another file, in a statement of the function's
	// own block, it stands for that one
	other := map[*ast.Ident]bool{}
	reset := token.NoPos
	for _, st := range f.fn.Decl.Body.List {
		as, ok := st.(*ast.AssignStmt)
		if !ok || !file || reset.IsValid() || as.Pos() < a.End() {
			continue
		}
		for _, l := range as.Lhs {
			if li, ok := l.(*ast.Ident); ok && f.info.Uses[li] == obj {
				other[li], reset = true, as.End()
			}
		}
	}
	n := 0
	var walk func(m ast.Node, in bool)
	walk = func(m ast.Node, in bool) {
		ast.Inspect(m, func(k ast.Node) bool {
			if k == m {
				return true
			}
			switch x := k.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
				walk(k, true)
				return false
			case *ast.CallExpr:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok && file && (se.Sel.Name == "Close" || se.Sel.Name == "Name") {
					return false
				}
			case *ast.Ident:
				if f.info.Uses[x] == obj && !other[x] && !(reset.IsValid() && x.Pos() >= reset) {
					n++
					if in {
						n++
					}
				}
			}
			return true
		})
	}
	walk(body, false)
	if n != 1 {
		bail("%s: reader used more than once", f.pos(a))
	}
	return f.exprTo(a, formal)
}
