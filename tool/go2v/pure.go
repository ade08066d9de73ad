package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
)

func (fi *FnInfo) addInlined(k string) {
	for _, x := range fi.Inlined {
		if x == k {
			return
		}
	}
	fi.Inlined = append(fi.Inlined, k)
}

func (t *Tr) substSuffix(d *FnDecl, subst map[*types.TypeParam]types.Type) string {
	if subst == nil {
		return ""
	}
	sig := d.Obj.Type().(*types.Signature)
	s := ""
	for i := 0; i < sig.TypeParams().Len(); i++ {
		s += "_" + mangle(t.vt(subst[sig.TypeParams().At(i)]))
	}
	return s
}

func (t *Tr) fnName(d *FnDecl, subst map[*types.TypeParam]types.Type) string {
	r := strings.NewReplacer(".", "_", "/", "_")
	return r.Replace(d.Key) + t.substSuffix(d, subst)
}

func (t *Tr) generics(d *FnDecl, subst map[*types.TypeParam]types.Type) string {
	if subst != nil {
		return ""
	}
	sig := d.Obj.Type().(*types.Signature)
	var gs []string
	for i := 0; i < sig.TypeParams().Len(); i++ {
		tp := sig.TypeParams().At(i)
		if coreSlice(tp) != nil {
			continue
		}
		gs = append(gs, tp.Obj().Name())
	}
	if len(gs) == 0 {
		return ""
	}
	return "<" + strings.Join(gs, ", ") + ">"
}

func (t *Tr) pureWhy(d *FnDecl, subst map[*types.TypeParam]types.Type) string {
	if p := t.pure[t.fnName(d, subst)]; p != nil {
		return p.why
	}
	return "?"
}

// paramVT: the Verus type a parameter has inside the model.
func (t *Tr) paramVT(ty types.Type) string {
	if e, ok := byRef(ty); ok {
		return t.vt(e)
	}
	return t.vt(ty)
}

func (t *Tr) resTuple(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, t.vt(sig.Results().At(i).Type()))
	}
	ps := fnParams(o)
	for _, i := range t.inouts(o) {
		rs = append(rs, t.paramVT(ps[i].Type()))
	}
	return tupleType(rs)
}

// pureFn gives the spec function of a pure function, or "".
func (t *Tr) pureFn(d *FnDecl, subst map[*types.TypeParam]types.Type) string {
	if d.Decl.Body == nil {
		return ""
	}
	k := t.fnName(d, subst)
	if p, ok := t.pure[k]; ok {
		if p.state == 2 {
			return p.name
		}
		return ""
	}
	p := &pureInfo{state: 1, name: k + "_s", why: "recursive"}
	t.pure[k] = p
	ctr := t.contracts[d.Key]
	saved := t.tsubst
	t.tsubst = subst
	defer func() { t.tsubst = saved }()
	ps := fnParams(d.Obj)
	if ctr != nil && ctr.Returns != nil {
		var sig []string
		for i, n := range ctr.Params {
			if i >= len(ps) {
				break
			}
			sig = append(sig, n+": "+t.paramVT(ps[i].Type()))
		}
		if len(ctr.Params) != len(ps) {
			t.issues = append(t.issues, Issue{d.Key, ctr.Pos, fmt.Sprintf("contract names %d parameters, the function has %d", len(ctr.Params), len(ps))})
			p.state, p.why = 3, "contract does not fit"
			return ""
		}
		ctr.Used = true
		attr := ""
		if ctr.Opaque {
			attr = "#[verifier::opaque] "
		}
		t.specOut = append(t.specOut, fmt.Sprintf("%spub open spec fn %s%s(%s) -> %s { %s }", attr, p.name, t.generics(d, subst), strings.Join(sig, ", "), t.resTuple(d.Obj), oneLine(ctr.Returns.Text)))
		p.state = 2
		t.enqueue(&job{key: d.Key, subst: subst, vname: k})
		return p.name
	}
	why := t.autoPure(d, subst, p)
	if why != "" {
		p.state, p.why = 3, why
		return ""
	}
	p.state = 2
	return p.name
}

func (t *Tr) autoPure(d *FnDecl, subst map[*types.TypeParam]types.Type, p *pureInfo) (why string) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			why = u.msg
		}
	}()
	n := 0
	l := 0
	f := &Fr{t: t, fn: d, info: d.Pkg.TypesInfo, spec: true, env: map[types.Object]*Var{}, n: &n, loops: &l}
	f.top = f
	ps := fnParams(d.Obj)
	mut := t.mutated(d.Obj)
	var sig []string
	for i, q := range ps {
		if isWriterIface(q.Type()) && mut[i] {
			bail("writes to an io.Writer")
		}
		_, ref := byRef(q.Type())
		v := &Var{goName: q.Name(), obj: q, ty: q.Type(), deref: ref, param: true, borrow: !mut[i]}
		v.name = f.fresh(q.Name())
		sig = append(sig, v.name+": "+t.paramVT(q.Type()))
		f.env[q] = v
		f.vars = append(f.vars, v)
		if mut[i] {
			f.inouts = append(f.inouts, v)
			p.inout = append(p.inout, i)
		}
	}
	gs := d.Obj.Type().(*types.Signature)
	for i := 0; i < gs.Results().Len(); i++ {
		r := gs.Results().At(i)
		f.results = append(f.results, &Var{goName: r.Name(), obj: r, ty: r.Type()})
	}
	f.named = gs.Results().Len() > 0 && gs.Results().At(0).Name() != ""
	if f.named {
		for _, r := range f.results {
			nv := f.declare(r.obj, r.goName, r.ty, false, t.zero(r.ty))
			*r = *nv
			f.env[r.obj] = r
		}
	}
	body := f.specBlock(d.Decl.Body.List, func(h *Fr) string { return h.retTuple(nil) })
	t.specOut = append(t.specOut, fmt.Sprintf("pub open spec fn %s%s(%s) -> %s { %s }", p.name, t.generics(d, subst), strings.Join(sig, ", "), t.resTuple(d.Obj), body))
	return ""
}

// mayPanic: the pure function's body has panic obligations, so executable
// callers expand it in place instead of using its value.
func (t *Tr) mayPanic(d *FnDecl, subst map[*types.TypeParam]types.Type) bool {
	k := t.fnName(d, subst)
	if v, ok := t.panicMemo[k]; ok {
		return v
	}
	t.panicMemo[k] = false
	res := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); !ok {
					panic(e)
				}
				res = false
			}
		}()
		saved := t.tsubst
		defer func() { t.tsubst = saved }()
		t.tsubst = subst
		n, l := 0, 0
		f := &Fr{t: t, fn: d, info: d.Pkg.TypesInfo, env: map[types.Object]*Var{}, n: &n, loops: &l, wr: &writer{}, finfo: &FnInfo{}}
		f.top = f
		f.setup(d)
		f.block(d.Decl.Body.List)
		res = f.finfo.Obl > 0
	}()
	t.panicMemo[k] = res
	return res
}

// ---------- package-level variables ----------

func (t *Tr) varInit(o *types.Var) (ast.Expr, *FnDecl, *types.Info) {
	for _, p := range t.pkgs {
		if p.Types != o.Pkg() {
			continue
		}
		for _, file := range p.Syntax {
			for _, dd := range file.Decls {
				gd, ok := dd.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, id := range vs.Names {
						if p.TypesInfo.Defs[id] == o && i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
							return vs.Values[i], nil, p.TypesInfo
						}
					}
				}
			}
		}
	}
	return nil, nil, nil
}

// assigned tells whether any code of the repository writes a package variable.
func (t *Tr) assigned(o *types.Var) bool {
	if t.assignedVars == nil {
		t.assignedVars = map[types.Object]bool{}
		for _, p := range t.pkgs {
			info := p.TypesInfo
			mark := func(e ast.Expr) {
				for {
					e = unparen(e)
					switch x := e.(type) {
					case *ast.IndexExpr:
						e = x.X
						continue
					case *ast.StarExpr:
						e = x.X
						continue
					case *ast.Ident:
						t.assignedVars[info.ObjectOf(x)] = true
					case *ast.SelectorExpr:
						t.assignedVars[info.ObjectOf(x.Sel)] = true
						if _, ok := info.Selections[x]; ok {
							e = x.X
							continue
						}
					}
					return
				}
			}
			for _, file := range p.Syntax {
				ast.Inspect(file, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							for _, l := range x.Lhs {
								mark(l)
							}
						}
					case *ast.IncDecStmt:
						mark(x.X)
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							mark(x.X)
						}
					}
					return true
				})
			}
		}
	}
	return t.assignedVars[o]
}

func (f *Fr) pkgVar(o *types.Var) string { return f.t.pkgVarName(o) }

func (t *Tr) pkgVarName(o *types.Var) string {
	switch o.Pkg().Path() + "." + o.Name() {
	case "encoding/binary.LittleEndian":
		return "ByteOrd::Little"
	case "encoding/binary.BigEndian":
		return "ByteOrd::Big"
	case "os.Stdin", "os.Stdout":
		return "os_" + strings.ToLower(o.Name()) + "()"
	case "io.EOF":
		t.needErr = true
		return "io_EOF()"
	}
	if n, ok := t.pkgVars[o]; ok {
		return n
	}
	if !inRepo(o.Pkg()) {
		bail("library variable %s.%s", o.Pkg().Path(), o.Name())
	}
	if t.assigned(o) {
		bail("package variable %s is assigned", o.Name())
	}
	saved := t.tsubst
	t.tsubst = nil
	defer func() { t.tsubst = saved }()
	vt := t.vt(o.Type())
	name := "pv_" + pkgAlias(o.Pkg()) + "_" + o.Name()
	body := ""
	if e, _, info := t.varInit(o); e != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					body = ""
				}
			}()
			n, l := 0, 0
			f := &Fr{t: t, info: info, spec: true, env: map[types.Object]*Var{}, n: &n, loops: &l}
			f.top = f
			v := f.exprTo(e, o.Type())
			body = wrapLets(f.lets, v)
		}()
	}
	if body != "" {
		t.specOut = append(t.specOut, fmt.Sprintf("pub open spec fn %s() -> %s { %s }", name, vt, body))
	} else {
		t.specOut = append(t.specOut, fmt.Sprintf("pub uninterp spec fn %s() -> %s;", name, vt))
		if vt == "ByteOrd" {
			t.axioms = append(t.axioms, fmt.Sprintf("ax_%s", name))
			t.specOut = append(t.specOut, fmt.Sprintf("pub broadcast axiom fn ax_%s() ensures !(#[trigger] %s() is Nil);", name, name))
		}
		t.trusted["package variable "+o.Pkg().Name()+"."+o.Name()] = "value left unspecified"
	}
	t.pkgVars[o] = name + "()"
	return name + "()"
}

func (t *Tr) pkgMap(o *types.Var) string {
	name := "pm_" + pkgAlias(o.Pkg()) + "_" + o.Name()
	if t.libUsed["pm:"+name] {
		return name
	}
	t.libUsed["pm:"+name] = true
	if t.assigned(o) {
		bail("package variable %s is assigned", o.Name())
	}
	m := o.Type().Underlying().(*types.Map)
	kt, et := t.vt(m.Key()), t.vt(m.Elem())
	has, get := "", ""
	if e, _, info := t.varInit(o); e != nil {
		if cl, ok := e.(*ast.CompositeLit); ok {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
						has = ""
					}
				}()
				n, l := 0, 0
				f := &Fr{t: t, info: info, spec: true, env: map[types.Object]*Var{}, n: &n, loops: &l}
				f.top = f
				g := t.zero(m.Elem())
				var hs []string
				for i := len(cl.Elts) - 1; i >= 0; i-- {
					kv := cl.Elts[i].(*ast.KeyValueExpr)
					k := f.elem(kv.Key, m.Key())
					v := f.elem(kv.Value, m.Elem())
					hs = append(hs, fmt.Sprintf("k == %s", par(k)))
					g = fmt.Sprintf("if k == %s { %s } else { %s }", par(k), v, g)
				}
				if len(f.lets) > 0 {
					bail("map literal")
				}
				has = strings.Join(hs, " || ")
				if has == "" {
					has = "false"
				}
				get = g
			}()
		}
	}
	if has == "" && et == "i64" {
		has, get = t.lexSymbols(o)
	}
	if has != "" {
		t.specOut = append(t.specOut,
			fmt.Sprintf("pub open spec fn %s_has(k: %s) -> bool { %s }", name, kt, has),
			fmt.Sprintf("pub open spec fn %s_get(k: %s) -> %s { %s }", name, kt, et, get))
	} else {
		t.specOut = append(t.specOut,
			fmt.Sprintf("pub uninterp spec fn %s_has(k: %s) -> bool;", name, kt),
			fmt.Sprintf("pub uninterp spec fn %s_get(k: %s) -> %s;", name, kt, et))
		t.trusted["package map "+o.Pkg().Name()+"."+o.Name()] = "contents left unspecified"
	}
	return name
}

// lexSymbols: the map of a simple lexer's token types, which the lexer numbers
// in the order of its rules from -2 downwards.
func (t *Tr) lexSymbols(o *types.Var) (has, get string) {
	varOf := func(info *types.Info, e ast.Expr) *types.Var {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			v, _ := info.ObjectOf(x).(*types.Var)
			return v
		case *ast.SelectorExpr:
			v, _ := info.ObjectOf(x.Sel).(*types.Var)
			return v
		}
		return nil
	}
	e, _, info := t.varInit(o)
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 0 {
		return "", ""
	}
	se, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok || se.Sel.Name != "Symbols" {
		return "", ""
	}
	lv := varOf(info, se.X)
	if lv == nil || t.assigned(lv) {
		return "", ""
	}
	e, _, info = t.varInit(lv)
	c, ok = e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return "", ""
	}
	if se, ok := unparen(c.Fun).(*ast.SelectorExpr); !ok || se.Sel.Name != "MustSimple" {
		return "", ""
	}
	rules := c.Args[0]
	if rv := varOf(info, rules); rv != nil {
		if t.assigned(rv) {
			return "", ""
		}
		rules, _, info = t.varInit(rv)
	}
	cl, ok := unparen(rules).(*ast.CompositeLit)
	if !ok {
		return "", ""
	}
	hs := []string{"k == " + strLit("EOF")}
	get = "-1i64"
	for i, r := range cl.Elts {
		rl, ok := r.(*ast.CompositeLit)
		if !ok || len(rl.Elts) == 0 {
			return "", ""
		}
		ne := rl.Elts[0]
		for _, x := range rl.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok && kv.Key.(*ast.Ident).Name == "Name" {
				ne = kv.Value
			}
		}
		tv := info.Types[ne]
		if tv.Value == nil || tv.Value.Kind() != constant.String {
			return "", ""
		}
		n := strLit(constant.StringVal(tv.Value))
		hs = append(hs, "k == "+n)
		get = fmt.Sprintf("if k == %s { %di64 } else { %s }", n, -2-i, get)
	}
	t.trusted["package map "+o.Pkg().Name()+"."+o.Name()] = "the lexer numbers its rules in order, from -2 downwards"
	return strings.Join(hs, " || "), get
}

func (t *Tr) regexConst(p string) string {
	key := "re:" + p
	if n, ok := t.reNames[key]; ok {
		return n
	}
	groups := 0
	if r, err := syntax.Parse(p, syntax.Perl); err == nil {
		groups = r.MaxCap()
	}
	name := fmt.Sprintf("re_c%d", len(t.reNames))
	t.reNames[key] = name + "()"
	t.specOut = append(t.specOut, fmt.Sprintf("pub uninterp spec fn %s() -> GoRegexp; // %q", name, p),
		fmt.Sprintf("pub broadcast axiom fn ax_%s() ensures re_groups(#[trigger] %s()) == %d;", name, name, groups))
	t.axioms = append(t.axioms, "ax_"+name)
	// ^text *(.*): the text, blanks, and the rest of the line
	if m := lineRe.FindStringSubmatch(p); m != nil {
		if r, err := syntax.Parse(m[1], syntax.Perl); err == nil && r.Op == syntax.OpLiteral && r.Flags&syntax.FoldCase == 0 {
			lit := strLit(string(r.Rune))
			t.specOut = append(t.specOut,
				fmt.Sprintf("pub broadcast axiom fn ax_m%s(s: Seq<u8>) ensures #[trigger] re_match(%s(), s) == has_prefix(s, %s);", name, name, lit),
				fmt.Sprintf("pub broadcast axiom fn ax_s%s(s: Seq<u8>) ensures has_prefix(s, %s) ==> (#[trigger] re_sub(%s(), s)).len() == 2 && re_sub(%s(), s)[1] == re_rest(s, %d);", name, lit, name, name, len(string(r.Rune))))
			t.axioms = append(t.axioms, "ax_m"+name, "ax_s"+name)
		}
	}
	return name + "()"
}

var lineRe = regexp.MustCompile(`^\^(.+) \*\(\.\*\)$`)

// needAny declares the packing of a type into an interface value.
func (t *Tr) needAny(vt string) {
	if t.libUsed["any:"+vt] {
		return
	}
	t.libUsed["any:"+vt] = true
	m := mangle(vt)
	t.specOut = append(t.specOut,
		fmt.Sprintf("pub uninterp spec fn any_of_%s(x: %s) -> GoAny;", m, vt),
		fmt.Sprintf("pub uninterp spec fn any_is_%s(a: GoAny) -> bool;", m),
		fmt.Sprintf("pub uninterp spec fn any_as_%s(a: GoAny) -> %s;", m, vt),
		fmt.Sprintf("pub broadcast axiom fn ax_any_%s(x: %s) ensures any_is_%s(#[trigger] any_of_%s(x)), any_as_%s(any_of_%s(x)) == x, !go_any_is_nil(any_of_%s(x));", m, vt, m, m, m, m, m))
	t.axioms = append(t.axioms, "ax_any_"+m)
	switch vt {
	case "Seq<u32>":
		t.specOut = append(t.specOut, "pub broadcast axiom fn ax_bin_seq_u32(o: ByteOrd, x: Seq<u32>) ensures #[trigger] bin_enc(o, any_of_Seq_u32_(x)) == enc_u32s(o, x);")
		t.axioms = append(t.axioms, "ax_bin_seq_u32")
	case "Seq<u8>":
		t.specOut = append(t.specOut, "pub broadcast axiom fn ax_bin_seq_u8(o: ByteOrd, x: Seq<u8>) ensures #[trigger] bin_enc(o, any_of_Seq_u8_(x)) == x;")
		t.axioms = append(t.axioms, "ax_bin_seq_u8")
	case "u32":
		t.specOut = append(t.specOut, "pub broadcast axiom fn ax_bin_u32(o: ByteOrd, x: u32) ensures #[trigger] bin_enc(o, any_of_u32(x)) == enc_u32(o, x);")
		t.axioms = append(t.axioms, "ax_bin_u32")
	default:
		enc, ok := t.binStruct("x", vt)
		if ok {
			t.specOut = append(t.specOut, fmt.Sprintf("pub broadcast axiom fn ax_bin_%s(o: ByteOrd, x: %s) ensures #[trigger] bin_enc(o, any_of_%s(x)) == %s;", m, vt, m, enc))
			t.axioms = append(t.axioms, "ax_bin_"+m)
		}
	}
}

// binStruct is the encoding of a struct of fixed-size integers: its fields in
// the order of their declaration.
func (t *Tr) binStruct(x, vt string) (string, bool) {
	fs := t.structFields[vt]
	if len(fs) == 0 {
		return "", false
	}
	enc := ""
	for _, f := range fs {
		e := ""
		switch f[1] {
		case "u32", "u16":
			e = fmt.Sprintf("enc_%s(o, %s.%s)", f[1], x, f[0])
		case "u8":
			e = fmt.Sprintf("seq![%s.%s]", x, f[0])
		default:
			return "", false
		}
		if enc == "" {
			enc = e
		} else {
			enc += ".add(" + e + ")"
		}
	}
	return enc, true
}

func (t *Tr) errDef() string {
	var b strings.Builder
	b.WriteString("pub enum GoErr { Nil, Msg(Seq<u8>)")
	var ns []string
	for n := range t.errTypes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&b, ", %s(Box<%s>)", n, n)
	}
	b.WriteString(" }\n")
	return b.String()
}
