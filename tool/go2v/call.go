package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// callee resolves the static callee of a call (nil for function values).
func (f *Fr) callee(c *ast.CallExpr) *types.Func {
	fun := unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = unparen(ix.X)
	}
	if ix, ok := fun.(*ast.IndexListExpr); ok {
		fun = unparen(ix.X)
	}
	switch x := fun.(type) {
	case *ast.Ident:
		if o, ok := f.info.ObjectOf(x).(*types.Func); ok {
			return o.Origin()
		}
	case *ast.SelectorExpr:
		if o, ok := f.info.ObjectOf(x.Sel).(*types.Func); ok {
			return o.Origin()
		}
	}
	return nil
}

func (f *Fr) calleeName(c *ast.CallExpr) string {
	if o := f.callee(c); o != nil {
		return libName(o)
	}
	return ""
}

// libName: "strings.Join", "strings.Builder.WriteString".
func libName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	p := ""
	if o.Pkg() != nil {
		p = o.Pkg().Name()
		if strings.Contains(o.Pkg().Path(), "fuzzywuzzy") {
			p = "fuzzy"
		}
	}
	if r := sig.Recv(); r != nil {
		rt := types.Unalias(r.Type())
		if pt, ok := rt.(*types.Pointer); ok {
			rt = types.Unalias(pt.Elem())
		}
		if n, ok := rt.(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return "error." + o.Name()
			}
			return p + "." + n.Obj().Name() + "." + o.Name()
		}
		return p + ".?." + o.Name()
	}
	return p + "." + o.Name()
}

func (f *Fr) call(c *ast.CallExpr) []string {
	fun := unparen(c.Fun)
	if tv, ok := f.info.Types[fun]; ok && tv.IsType() {
		return []string{f.convert(c.Args[0], tv.Type, c)}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, isB := f.info.ObjectOf(id).(*types.Builtin); isB {
			return f.builtin(id.Name, c)
		}
	}
	if fl, ok := fun.(*ast.FuncLit); ok {
		return f.inlineLit(fl, f, c)
	}
	if len(c.Args) == 1 && f.calleeName(c) == "ast.Inspect" { // made by inspectLoop
		return []string{"ast_walk(" + f.coerce(f.expr(c.Args[0]), f.typeOf(c.Args[0]), f.typeOf(c).(*types.Slice).Elem()) + ")"}
	}
	o := f.callee(c)
	if o != nil {
		if sel, ok := fun.(*ast.SelectorExpr); ok {
			if s, ok := f.info.Selections[sel]; ok && s.Kind() == types.MethodVal {
				if types.IsInterface(s.Recv()) && inRepo(o.Pkg()) {
					bail("%s: interface method call", f.pos(c))
				}
			}
		}
		if inRepo(o.Pkg()) {
			return f.repoCall(o, c)
		}
		return f.libCall(libName(o), o, c)
	}
	// function value
	if id, ok := fun.(*ast.Ident); ok {
		if v, ok := f.env[f.info.ObjectOf(id)]; ok && v.lam != nil {
			return f.inlineLit(v.lam, v.lamFr, c)
		}
	}
	return f.callValue(c)
}

// callValue applies a function value (a total pure function in the model).
func (f *Fr) callValue(c *ast.CallExpr) []string {
	fv := f.expr(c.Fun)
	sig := f.typeOf(c.Fun).Underlying().(*types.Signature)
	if sig.Variadic() {
		bail("%s: variadic function value", f.pos(c))
	}
	var as []string
	var outs []int
	for i, a := range c.Args {
		pt := sig.Params().At(i).Type()
		if p, ok := types.Unalias(pt).(*types.Pointer); ok && isRepoStructPtr(p) {
			as = append(as, f.deref(a))
			outs = append(outs, i)
			continue
		}
		as = append(as, f.exprTo(a, pt))
	}
	t := f.tmp(fmt.Sprintf("%s(%s)", par(fv), strings.Join(as, ", ")))
	n := sig.Results().Len() + len(outs)
	rs := splitTuple(t, n)
	for k, i := range outs {
		f.assignDeref(c.Args[i], rs[sig.Results().Len()+k])
	}
	return rs[:sig.Results().Len()]
}

func splitTuple(t string, n int) []string {
	if n == 1 {
		return []string{t}
	}
	var rs []string
	for i := 0; i < n; i++ {
		rs = append(rs, fmt.Sprintf("%s.%d", t, i))
	}
	return rs
}

func (f *Fr) convert(a ast.Expr, to types.Type, n ast.Node) string {
	from := f.typeOf(a)
	tv := f.t.vt(to)
	fv := f.t.vt(from)
	v := f.expr(a)
	if isNilIdent(f.info, a) {
		return f.t.zero(to)
	}
	if tv == fv {
		return v
	}
	if goIntRange[tv] && goIntRange[fv] {
		return fmt.Sprintf("w_%s(%s as int)", tv, par(v))
	}
	if tv == "Seq<u8>" && (fv == "i32" || fv == "u8") {
		return "enc_rune(" + v + " as int)"
	}
	return f.coerce(v, from, to)
}

// ---------- builtins ----------

func (f *Fr) builtin(name string, c *ast.CallExpr) []string {
	switch name {
	case "len", "cap":
		ty := f.typeOf(c.Args[0])
		if o := f.pkgLevelVar(c.Args[0]); o != nil {
			if _, ok := ty.Underlying().(*types.Map); ok {
				bail("%s: len of package map", f.pos(c))
			}
		}
		v := f.expr(c.Args[0])
		switch ty.Underlying().(type) {
		case *types.Map:
			return []string{fmt.Sprintf("(%s.len() as i64)", par(v))}
		}
		s := f.seqOf(v, ty)
		if !f.spec {
			f.emit("proof { lemma_go_len(%s); }", s)
		}
		if name == "cap" {
			return []string{fmt.Sprintf("go_cap(%s)", s)}
		}
		return []string{fmt.Sprintf("(%s.len() as i64)", par(s))}
	case "append":
		return []string{f.appendCall(c)}
	case "make":
		ty := f.typeOf(c)
		switch u := ty.Underlying().(type) {
		case *types.Slice:
			et := f.t.vt(u.Elem())
			n := f.expr(c.Args[1])
			f.oblig("make length", c, fmt.Sprintf("0 <= %s", par(n)))
			if len(c.Args) > 2 {
				k := f.expr(c.Args[2])
				f.oblig("make capacity", c, fmt.Sprintf("%s <= %s", par(n), par(k)))
			}
			s := fmt.Sprintf("Seq::<%s>::new(%s as nat, |i: int| %s)", et, par(n), f.t.zero(u.Elem()))
			if f.info.Types[c.Args[1]].Value != nil {
				if k, ok := constant.Int64Val(constant.ToInt(f.info.Types[c.Args[1]].Value)); ok && k == 0 {
					s = "Seq::<" + et + ">::empty()"
				}
			}
			if f.t.isSl(ty) {
				return []string{"sl_own(" + s + ")"}
			}
			return []string{s}
		case *types.Map:
			return []string{f.t.zero(ty)}
		}
		bail("%s: make %s", f.pos(c), ty)
	case "new":
		p := types.Unalias(f.typeOf(c)).(*types.Pointer)
		return []string{"Some(" + f.t.zero(p.Elem()) + ")"}
	case "panic":
		f.oblig("no panic", c, "false")
		if f.spec {
			bail("%s: panic in pure code", f.pos(c))
		}
		return nil
	case "copy":
		dst, src := c.Args[0], c.Args[1]
		d, s := f.expr(dst), f.expr(src)
		n := f.tmp(fmt.Sprintf("(if %s.len() < %s.len() { %s.len() } else { %s.len() }) as int", par(d), par(s), par(d), par(s)))
		f.assign(dst, fmt.Sprintf("%s.subrange(0, %s).add(%s.subrange(%s, %s.len() as int))", par(s), n, par(d), n, par(d)))
		return []string{"(" + n + " as i64)"}
	case "delete":
		m := f.expr(c.Args[0])
		mt := f.typeOf(c.Args[0]).Underlying().(*types.Map)
		f.assign(c.Args[0], fmt.Sprintf("%s.remove(%s)", par(m), f.exprTo(c.Args[1], mt.Key())))
		return nil
	case "min", "max":
		op := "<="
		if name == "max" {
			op = ">="
		}
		a, b := f.expr(c.Args[0]), f.expr(c.Args[1])
		if len(c.Args) != 2 {
			bail("%s: %s", f.pos(c), name)
		}
		return []string{fmt.Sprintf("(if %s %s %s { %s } else { %s })", par(a), op, par(b), a, b)}
	}
	bail("%s: builtin %s", f.pos(c), name)
	return nil
}

func (f *Fr) appendCall(c *ast.CallExpr) string {
	ty := f.typeOf(c)
	var et types.Type
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Interface:
		et = coreSlice(types.Unalias(ty).(*types.TypeParam)).Elem()
	}
	base := f.exprTo(c.Args[0], ty)
	add := ""
	if c.Ellipsis != token.NoPos {
		at := f.typeOf(c.Args[1])
		v := f.exprTo(c.Args[1], at)
		if isNilIdent(f.info, c.Args[1]) {
			add = "Seq::<" + f.t.vt(et) + ">::empty()"
		} else {
			add = f.seqOf(v, at)
		}
	} else if len(c.Args) > 1 {
		var es []string
		for _, a := range c.Args[1:] {
			es = append(es, f.elem(a, et))
		}
		add = "(seq![" + strings.Join(es, ", ") + "])"
		if len(es) == 1 {
			add = ""
			if f.t.isSl(ty) {
				b := f.tmp(base)
				f.ownAppend(c, b)
				return fmt.Sprintf("sl_own((%s).d.push(%s))", b, es[0])
			}
			return fmt.Sprintf("%s.push(%s)", par(base), es[0])
		}
	} else {
		return base
	}
	if f.t.isSl(ty) {
		b := f.tmp(base)
		f.ownAppend(c, b)
		r := f.tmp(fmt.Sprintf("sl_own((%s).d.add(%s))", b, add))
		// the backing array behind v[:k] has been overwritten
		if se, ok := unparen(c.Args[0]).(*ast.SliceExpr); ok && se.High != nil && !se.Slice3 {
			if id, ok := unparen(se.X).(*ast.Ident); ok {
				if v, ok := f.env[f.info.ObjectOf(id)]; ok && !v.deref {
					f.setVar(v, fmt.Sprintf("sl_clobbered(%s)", v.name))
				}
			}
		}
		return r
	}
	return fmt.Sprintf("%s.add(%s)", par(base), add)
}

func (f *Fr) ownAppend(c *ast.CallExpr, b string) {
	f.oblig("frame: append writes only to owned storage", c, fmt.Sprintf("(%s).cf || (%s).own", b, b))
}

// ---------- repository calls ----------

type argv struct {
	val   string
	back  func(string) // stores the callee's final value of an inout parameter
	expr  ast.Expr
	alias *Var
}

// params of a function, receiver first.
// functions whose contract is about files ("world") take the file system as
// one more parameter, which they may change.
var worldFns = map[*types.Func]bool{}
var fsParam = types.NewParam(token.NoPos, nil, "fs", types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("verif", "verif"), "Fs", nil), types.NewStruct(nil, nil), nil)))

func fnParams(o *types.Func) []*types.Var {
	sig := o.Type().(*types.Signature)
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if worldFns[o] {
		ps = append(ps, fsParam)
	}
	return ps
}

// byRef: passed as the pointee, with write-back when mutated.
func byRef(ty types.Type) (types.Type, bool) {
	p, ok := types.Unalias(ty).(*types.Pointer)
	if !ok {
		return nil, false
	}
	if isRepoStructPtr(p) {
		return p.Elem(), true
	}
	if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
		switch qualName(n.Obj()) {
		case "verif.Fs", "github.com/kr/fs.Walker", "bytes.Reader", "bufio.Writer", "strings.Builder", "bytes.Buffer":
			return p.Elem(), true
		}
		if inRepo(n.Obj().Pkg()) {
			if _, ok := n.Underlying().(*types.Slice); ok {
				return p.Elem(), true
			}
		}
	}
	switch types.Unalias(p.Elem()).Underlying().(type) {
	case *types.Map, *types.Slice:
		return p.Elem(), true
	}
	return nil, false
}

func isWriterIface(ty types.Type) bool {
	n, ok := types.Unalias(ty).(*types.Named)
	return ok && qualName(n.Obj()) == "io.Writer"
}

// mutated lists, per parameter (receiver first), whether the function may
// write through it.
func (t *Tr) mutated(o *types.Func) []bool {
	if m, ok := t.mutMemo[o]; ok {
		return m
	}
	ps := fnParams(o)
	res := make([]bool, len(ps))
	t.mutMemo[o] = res
	if worldFns[o] {
		res[len(ps)-1] = true
	}
	d := t.byObj[o]
	if d == nil || d.Decl.Body == nil {
		return res
	}
	ix := map[types.Object]int{}
	for i, p := range ps {
		ix[p] = i
	}
	info := d.Pkg.TypesInfo
	mark := func(e ast.Expr) { // a write through e
		if r := rootObj(info, e); r != nil {
			if i, ok := ix[r]; ok {
				res[i] = true
			}
		}
	}
	isRefTy := func(ty types.Type) bool {
		if _, ok := byRef(ty); ok {
			return true
		}
		return isWriterIface(ty)
	}
	isSliceTy := func(ty types.Type) bool {
		switch ty.Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		if tp, ok := types.Unalias(ty).(*types.TypeParam); ok {
			return coreSlice(tp) != nil
		}
		return false
	}
	// a write through path e counts for parameter p if it goes through a
	// pointer or through the elements of a slice/map parameter.
	lhs := func(e ast.Expr) {
		e = unparen(e)
		if _, ok := e.(*ast.Ident); ok {
			return
		}
		r := rootObj(info, e)
		i, ok := ix[r]
		if !ok {
			return
		}
		if isRefTy(ps[i].Type()) {
			res[i] = true
			return
		}
		if ie, ok := e.(*ast.IndexExpr); ok {
			if id, ok := unparen(ie.X).(*ast.Ident); ok && info.ObjectOf(id) == r {
				res[i] = true
			}
		}
	}
	ast.Inspect(d.Decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					lhs(l)
				}
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.CallExpr:
			fr := &Fr{t: t, info: info}
			co := fr.callee(x)
			if co == nil {
				// function value: pointer arguments may be written
				for _, a := range x.Args {
					if tv, ok := info.Types[a]; ok && tv.Type != nil {
						if p, ok := types.Unalias(tv.Type).(*types.Pointer); ok && isRepoStructPtr(p) {
							mark(addrOf(a))
						}
					}
				}
				if id, ok := unparen(x.Fun).(*ast.Ident); ok {
					if b, ok := info.ObjectOf(id).(*types.Builtin); ok && (b.Name() == "copy" || b.Name() == "delete") {
						if id, ok := unparen(x.Args[0]).(*ast.Ident); ok {
							mark(id)
						}
					}
				}
				return true
			}
			sel, _ := unparen(x.Fun).(*ast.SelectorExpr)
			isMethod := co.Type().(*types.Signature).Recv() != nil
			if !inRepo(co.Pkg()) {
				ln := libName(co)
				if isMethod && sel != nil && libMutRecv(ln) {
					if r := rootObj(info, sel.X); r != nil {
						if i, ok := ix[r]; ok && isRefTy(ps[i].Type()) {
							res[i] = true
						}
					}
				}
				for k, a := range x.Args {
					if libMutArg(ln, k) {
						if r := rootObj(info, addrOf(a)); r != nil {
							if i, ok := ix[r]; ok && (isRefTy(ps[i].Type()) || isSliceTy(ps[i].Type())) {
								res[i] = true
							}
						}
					}
				}
				return true
			}
			cm := t.mutated(co)
			k := 0
			if isMethod && sel != nil {
				if cm[0] {
					r := rootObj(info, sel.X)
					if i, ok := ix[r]; ok {
						_, bare := unparen(sel.X).(*ast.Ident)
						if isRefTy(ps[i].Type()) || bare && isSliceTy(ps[i].Type()) {
							res[i] = true
						}
					}
				}
				k = 1
			}
			for j, a := range x.Args {
				pi := j + k
				if pi >= len(cm) {
					pi = len(cm) - 1
				}
				if pi >= 0 && cm[pi] {
					r := rootObj(info, addrOf(a))
					if i, ok := ix[r]; ok {
						_, bare := unparen(a).(*ast.Ident)
						if isRefTy(ps[i].Type()) || bare && isSliceTy(ps[i].Type()) {
							res[i] = true
						}
					}
				}
			}
		}
		return true
	})
	return res
}

func addrOf(e ast.Expr) ast.Expr {
	e = unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return u.X
	}
	return e
}

func libMutRecv(n string) bool {
	for _, p := range []string{"strings.Builder.", "bytes.Buffer.", "bytes.Reader.", "bufio.Writer.", "io.Writer.", "fs.Walker."} {
		if strings.HasPrefix(n, p) {
			switch n[strings.LastIndex(n, ".")+1:] {
			case "Len", "String", "Bytes", "Err", "Path", "Stat":
				return false
			}
			return true
		}
	}
	return false
}

func libMutArg(n string, k int) bool {
	switch n {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "binary.Write", "io.WriteString":
		return k == 0
	case "binary.Read":
		return k == 0 || k == 2
	case "bufio.NewWriter":
		return k == 0
	case "slices.SortFunc", "sort.Slice":
		return k == 0
	}
	return false
}

// inouts: indexes of parameters threaded out of a function.
func (t *Tr) inouts(o *types.Func) []int {
	m := t.mutated(o)
	var r []int
	for i := range m {
		if m[i] {
			r = append(r, i)
		}
	}
	return r
}

// evalArgs evaluates receiver and arguments at the formal types.
func (f *Fr) evalArgs(o *types.Func, c *ast.CallExpr) []argv {
	sig := o.Type().(*types.Signature)
	var out []argv
	if sig.Recv() != nil {
		se, ok := unparen(c.Fun).(*ast.SelectorExpr)
		if !ok {
			bail("%s: method call form", f.pos(c))
		}
		sel := f.info.Selections[se]
		if sel == nil || sel.Kind() != types.MethodVal {
			bail("%s: method expression call", f.pos(c))
		}
		out = append(out, f.evalRecv(se, sel, sig))
	}
	np := sig.Params().Len()
	formal := func(i int) types.Type { return sig.Params().At(i).Type() }
	for i := 0; i < np; i++ {
		if sig.Variadic() && i == np-1 {
			st := formal(i).(*types.Slice)
			if c.Ellipsis != token.NoPos {
				a := c.Args[i]
				out = append(out, f.evalArg(a, formal(i)))
				continue
			}
			var es []string
			for _, a := range c.Args[min(i, len(c.Args)):] {
				es = append(es, f.elemGeneric(a, st.Elem()))
			}
			s := "Seq::<" + f.vtArg(st.Elem(), c, i) + ">::empty()"
			if len(es) > 0 {
				s = "(seq![" + strings.Join(es, ", ") + "])"
			}
			if f.t.isSl(st) {
				s = "sl_own(" + s + ")"
			}
			out = append(out, argv{val: s})
			continue
		}
		out = append(out, f.evalArg(c.Args[i], formal(i)))
	}
	if worldFns[o] {
		v := f.fs(c)
		out = append(out, argv{val: v.name, expr: c, alias: v, back: func(s string) { f.setVar(v, s) }})
	}
	return out
}

// fs is the file system of a function that has one.
func (f *Fr) fs(n ast.Node) *Var {
	v := f.env[fsParam]
	if v == nil || f.spec {
		bail("%s: files are written here", f.pos(n))
	}
	return v
}

func (f *Fr) vtArg(ty types.Type, c *ast.CallExpr, i int) string {
	if _, ok := types.Unalias(ty).(*types.TypeParam); ok {
		if len(c.Args) > i {
			return f.t.vt(f.typeOf(c.Args[i]))
		}
		return "_"
	}
	return f.t.vt(ty)
}

func (f *Fr) elemGeneric(a ast.Expr, et types.Type) string {
	if _, ok := types.Unalias(et).(*types.TypeParam); ok {
		return f.expr(a)
	}
	return f.elem(a, et)
}

func (f *Fr) evalArg(a ast.Expr, formal types.Type) argv {
	if elem, ok := byRef(formal); ok {
		_ = elem
		if id, ok := unparen(a).(*ast.Ident); ok {
			if v, ok := f.env[f.info.ObjectOf(id)]; ok && v.deref {
				return argv{val: v.name, expr: a, alias: v, back: func(s string) { f.setVar(v, s) }}
			}
		}
		if u, ok := unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
			if _, lit := unparen(u.X).(*ast.CompositeLit); !lit {
				var al *Var
				if id, ok := unparen(u.X).(*ast.Ident); ok {
					if v := f.env[f.info.ObjectOf(id)]; v != nil && !v.deref {
						al = v
					}
				}
				return argv{val: f.expr(u.X), expr: a, alias: al, back: func(s string) { f.assign(u.X, s) }}
			}
		}
		return argv{val: f.deref(a), expr: a, back: func(s string) {
			switch unparen(a).(type) {
			case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
				f.assignDeref(a, s)
			}
		}}
	}
	if isWriterIface(formal) {
		return f.writerArg(a)
	}
	if f.t.vt(formal) == "GoReader" {
		return argv{val: f.readerOnce(a, formal), expr: a}
	}
	if tp, ok := types.Unalias(formal).(*types.TypeParam); ok && (f.t.tsubst == nil || f.t.tsubst[tp] == nil) {
		if coreSlice(tp) != nil {
			at := f.typeOf(a)
			v := f.expr(a)
			if f.t.isSl(at) {
				return argv{val: v, expr: a, back: f.backSl(a)}
			}
			return argv{val: "sl_own(" + v + ")", expr: a, back: func(s string) {
				if f.isLval(a) {
					f.borrowCheck(a)
					f.assign(a, "("+s+").d")
				}
			}}
		}
		return argv{val: f.expr(a), expr: a}
	}
	if g := hasTypeParam(formal); g {
		if fl, ok := unparen(a).(*ast.FuncLit); ok {
			return argv{val: f.funcLitArg(fl), expr: a}
		}
		v := f.expr(a)
		if isNilIdent(f.info, a) {
			v = f.t.zero(f.typeOf(a))
		}
		return argv{val: v, expr: a, back: f.backSl(a)}
	}
	if fl, ok := unparen(a).(*ast.FuncLit); ok {
		return argv{val: f.funcLitArg(fl), expr: a}
	}
	return argv{val: f.exprTo(a, formal), expr: a, back: f.backSl(a)}
}

func (f *Fr) backSl(a ast.Expr) func(string) {
	return func(s string) {
		if f.isLval(a) {
			f.borrowCheck(a)
			f.assign(a, s)
		}
	}
}

// borrowCheck: in-place mutation of a by-value slice that is still reachable
// from a parameter is a frame violation.
func (f *Fr) borrowCheck(a ast.Expr) {
	ty := f.typeOf(a)
	if f.t.isSl(ty) {
		return
	}
	if _, ok := ty.Underlying().(*types.Slice); !ok {
		return
	}
	switch x := unparen(a).(type) {
	case *ast.Ident:
		if v := f.env[f.info.ObjectOf(x)]; v != nil && v.borrow {
			f.oblig("frame: in-place write to a borrowed slice", a, "false")
		}
	case *ast.SelectorExpr:
		if v := f.env[rootObj(f.info, x)]; v != nil && v.param && !v.deref {
			f.oblig("frame: in-place write to a borrowed slice", a, "false")
		}
	}
}

func (f *Fr) isLval(a ast.Expr) bool {
	switch x := unparen(a).(type) {
	case *ast.Ident:
		_, ok := f.env[f.info.ObjectOf(x)]
		return ok
	case *ast.SelectorExpr:
		if _, ok := f.info.Selections[x]; !ok {
			return false
		}
		return f.isLval(x.X)
	case *ast.IndexExpr:
		return f.isLval(x.X)
	case *ast.StarExpr:
		return f.isLval(x.X)
	}
	return false
}

func hasTypeParam(ty types.Type) bool {
	found := false
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		if found || d > 6 {
			return
		}
		switch x := types.Unalias(t).(type) {
		case *types.TypeParam:
			found = true
		case *types.Slice:
			walk(x.Elem(), d+1)
		case *types.Pointer:
			walk(x.Elem(), d+1)
		case *types.Signature:
			for i := 0; i < x.Params().Len(); i++ {
				walk(x.Params().At(i).Type(), d+1)
			}
			for i := 0; i < x.Results().Len(); i++ {
				walk(x.Results().At(i).Type(), d+1)
			}
		case *types.Named:
			for i := 0; i < x.TypeArgs().Len(); i++ {
				walk(x.TypeArgs().At(i), d+1)
			}
		}
	}
	walk(ty, 0)
	return found
}

// writerArg passes an io.Writer.
func (f *Fr) writerArg(a ast.Expr) argv {
	vt := f.t.vt(f.typeOf(a))
	switch vt {
	case "GoWriter":
		if id, ok := unparen(a).(*ast.Ident); ok {
			if v := f.env[f.info.ObjectOf(id)]; v != nil {
				return argv{val: v.name, expr: a, back: func(s string) { f.setVar(v, s) }}
			}
		}
		return argv{val: f.expr(a), expr: a, back: func(s string) { f.assign(a, s) }}
	case "Option<GoWriter>":
		id := unparen(a).(*ast.Ident)
		v := f.env[f.info.ObjectOf(id)]
		return argv{val: v.name, expr: a, back: func(s string) { f.setVar(v, s) }}
	case "Option<Seq<u8>>": // &bytes.Buffer / &strings.Builder
		if u, ok := unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
			return argv{val: "gw_mem(" + f.expr(u.X) + ")", expr: a, back: func(s string) { f.assign(u.X, "("+s+").out") }}
		}
	case "Option<GoOsFile>":
		if v := f.env[fsParam]; v != nil && !f.spec {
			h := f.tmp(f.expr(a))
			f.oblig("writing at the end of a file", a, h+" is None || os_at_end("+h+")")
			return argv{val: fmt.Sprintf("fs_writer(%s, %s)", v.name, h), expr: a, back: func(s string) { f.setVar(v, fmt.Sprintf("fs_written(%s, %s, %s)", v.name, h, s)) }}
		}
		return argv{val: "gw_file(" + f.expr(a) + ")", expr: a, back: func(string) {}}
	}
	bail("%s: writer argument %s", f.pos(a), vt)
	return argv{}
}

func (f *Fr) evalRecv(se *ast.SelectorExpr, sel *types.Selection, sig *types.Signature) argv {
	rt := sig.Recv().Type()
	_, ptrRecv := types.Unalias(rt).(*types.Pointer)
	v := f.recvValue(se, sel)
	path := sel.Index()[:len(sel.Index())-1]
	var alias *Var
	if id, ok := unparen(se.X).(*ast.Ident); ok && len(path) == 0 {
		if vv := f.env[f.info.ObjectOf(id)]; vv != nil && ptrRecv && (vv.deref || !isPointer(vv.ty)) {
			alias = vv
		}
	}
	return argv{val: v, expr: se.X, alias: alias, back: func(s string) {
		f.writeRecv(se, path, s)
	}}
}

func (f *Fr) writeRecv(se *ast.SelectorExpr, path []int, s string) {
	xt := f.typeOf(se.X)
	_, isPtr := types.Unalias(xt).Underlying().(*types.Pointer)
	if len(path) == 0 {
		if isPtr {
			f.assignDeref(se.X, s)
		} else if f.isLval(se.X) {
			f.borrowCheck(se.X)
			f.assign(se.X, s)
		}
		return
	}
	ft := xt
	for _, k := range path {
		if p, ok := types.Unalias(ft).Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		ft = ft.Underlying().(*types.Struct).Field(k).Type()
	}
	if _, ok := types.Unalias(ft).Underlying().(*types.Pointer); ok {
		s = "Some(" + s + ")"
	}
	if isPtr || f.isLval(se.X) {
		f.assignField(se.X, xt, path, s, se)
	}
}

// instSubst: type arguments of a call that need monomorphisation.
func (f *Fr) instSubst(o *types.Func, c *ast.CallExpr) map[*types.TypeParam]types.Type {
	sig := o.Type().(*types.Signature)
	if sig.TypeParams().Len() == 0 {
		return nil
	}
	var id *ast.Ident
	fun := unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = unparen(ix.X)
	}
	if ix, ok := fun.(*ast.IndexListExpr); ok {
		fun = unparen(ix.X)
	}
	switch x := fun.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	}
	inst, ok := f.info.Instances[id]
	if !ok {
		return nil
	}
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < sig.TypeParams().Len(); i++ {
		a := inst.TypeArgs.At(i)
		if tp, ok := types.Unalias(a).(*types.TypeParam); ok && f.t.tsubst != nil && f.t.tsubst[tp] != nil {
			a = f.t.tsubst[tp]
		}
		m[sig.TypeParams().At(i)] = a
	}
	return m
}

func anyMono(sig *types.Signature) bool {
	for i := 0; i < sig.TypeParams().Len(); i++ {
		if needsMono(sig.TypeParams().At(i)) {
			return true
		}
	}
	return false
}

func (f *Fr) repoCall(o *types.Func, c *ast.CallExpr) []string {
	d := f.t.byObj[o]
	if d == nil || d.Decl.Body == nil {
		bail("%s: no body for %s", f.pos(c), o.FullName())
	}
	sig := o.Type().(*types.Signature)
	nres := sig.Results().Len()
	ctr := f.t.contracts[d.Key]
	var subst map[*types.TypeParam]types.Type
	if anyMono(sig) {
		subst = f.instSubst(o, c)
	}
	ps := fnParams(o)
	inout := f.t.inouts(o)
	unSl := func(rs []string) []string {
		for i := 0; i < nres; i++ {
			if tp, ok := types.Unalias(sig.Results().At(i).Type()).(*types.TypeParam); ok && coreSlice(tp) != nil && (subst == nil || subst[tp] == nil) {
				var at types.Type
				if nres == 1 {
					at = f.typeOf(c)
				} else {
					at = f.typeOf(c).(*types.Tuple).At(i).Type()
				}
				if !f.t.isSl(at) {
					rs[i] = "(" + rs[i] + ").d"
				}
			}
		}
		return rs
	}
	withSubst := func(fn func()) {
		defer f.t.withSubst(subst)()
		fn()
	}
	if !f.spec && !f.oblOff && f.t.newHelper(d) {
		if rs, ok := f.tryInline(d, o, c); ok {
			return rs
		}
	}
	if f.spec || ctr == nil || (ctr.Returns != nil && len(ctr.Ens) == 0) {
		sp := f.t.pureFn(d, subst)
		if sp != "" && !f.spec && ctr == nil && !f.oblOff && f.t.mayPanic(d, subst) {
			sp = ""
		}
		if sp != "" {
			var args []argv
			withSubst(func() { args = f.evalArgs(o, c) })
			var vs []string
			for _, a := range args {
				vs = append(vs, a.val)
			}
			if !f.spec {
				withSubst(func() { f.argLens(d, args) })
			}
			if !f.spec && ctr != nil && !f.oblOff {
				for _, r := range ctr.Req {
					f.oblig("precondition of "+d.Key+" "+r.Pos, c, f.t.reqAt(ctr, r, ps, vs))
				}
			}
			if nres == 0 && len(inout) == 0 {
				return nil
			}
			call := fmt.Sprintf("%s(%s)", sp, strings.Join(vs, ", "))
			if nres+len(inout) == 1 && len(inout) == 0 {
				return unSl([]string{call})
			}
			t := f.tmp(call)
			rs := splitTuple(t, nres+len(inout))
			for k, i := range inout {
				if args[i].back != nil {
					args[i].back(rs[nres+k])
				}
			}
			return unSl(rs[:nres])
		}
		if f.spec {
			bail("%s: call of %s in pure code: %s", f.pos(c), d.Key, f.t.pureWhy(d, subst))
		}
	}
	if f.spec {
		bail("%s: effectful call of %s in pure code", f.pos(c), d.Key)
	}
	if ctr != nil {
		ctr.Used = true
		var args []argv
		withSubst(func() { args = f.evalArgs(o, c) })
		name := f.t.fnName(d, subst)
		f.t.enqueue(&job{key: d.Key, subst: subst, vname: name})
		var vs []string
		for _, a := range args {
			vs = append(vs, "Ghost("+a.val+")")
		}
		withSubst(func() { f.argLens(d, args) })
		if f.finfo != nil {
			f.finfo.Obl += len(ctr.Req)
		}
		t := f.fresh("r")
		f.emitL(Label{f.top.key(), "precondition of " + d.Key, f.pos(c), ""}, "let Ghost(%s) = %s(%s);", t, name, strings.Join(vs, ", "))
		rs := splitTuple(t, nres+len(inout))
		for k, i := range inout {
			if args[i].back != nil {
				args[i].back(rs[nres+k])
			}
		}
		return unSl(rs[:nres])
	}
	return f.inlineCall(d, o, c)
}

var plainRe = regexp.MustCompile(`^[A-Za-z_]\w*$`)

// argLens says of slices passed to a function that returns a number (an
// index, a length) that their lengths are those of run-time values.
func (f *Fr) argLens(d *FnDecl, args []argv) {
	sig := d.Obj.Type().(*types.Signature)
	num := false
	for i := 0; i < sig.Results().Len(); i++ {
		if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			num = true
		}
	}
	if !num {
		return
	}
	ps := fnParams(d.Obj)
	for i, a := range args {
		if i < len(ps) && plainRe.MatchString(a.val) && strings.HasPrefix(f.t.paramVT(ps[i].Type()), "Sl<") {
			f.emit("proof { lemma_go_len(%s.d); }", a.val)
		}
	}
}

func (t *Tr) reqAt(ctr *Contract, r Clause, ps []*types.Var, vs []string) string {
	ids := idents(r.Text)
	var b strings.Builder
	for i, n := range ctr.Params {
		if ids[n] && i < len(vs) {
			fmt.Fprintf(&b, "let %s = %s; ", n, vs[i])
		}
	}
	return "({ " + b.String() + oneLine(r.Text) + " })"
}

// ---------- inlining ----------

func (f *Fr) inlineCall(d *FnDecl, o *types.Func, c *ast.CallExpr) []string {
	key := d.Key
	if f.top.inlineStack == nil {
		f.top.inlineStack = map[string]bool{}
	}
	if f.top.inlineStack[key] {
		bail("%s: recursive function %s has no contract", f.pos(c), key)
	}
	f.top.inlineStack[key] = true
	defer delete(f.top.inlineStack, key)
	if f.finfo != nil {
		f.finfo.addInlined(key)
	}
	sig := o.Type().(*types.Signature)
	subst := f.instSubst(o, c)
	defer f.t.withSubst(subst)()
	args := f.evalArgs(o, c)
	ps := fnParams(o)
	muts := f.t.mutated(o)
	g := f.child(d.Pkg.TypesInfo, d)
	var backs []func()
	for i, p := range ps {
		_, ref := byRef(p.Type())
		if (ref || isWriterIface(p.Type())) && muts[i] {
			if a := args[i].alias; a != nil {
				nv := &Var{goName: p.Name(), obj: p, ty: p.Type(), name: a.name, deref: ref, param: true}
				g.env[p] = nv
				g.vars = append(g.vars, nv)
				continue
			}
		}
		v := g.declare(p, p.Name(), p.Type(), ref, args[i].val)
		v.param = true
		v.borrow = !muts[i]
		if muts[i] && args[i].back != nil {
			bk := args[i].back
			backs = append(backs, func() { bk(v.name) })
		}
	}
	rs := g.runInline(sig, d.Decl.Body)
	for _, b := range backs {
		b()
	}
	return rs
}

func (f *Fr) child(info *types.Info, d *FnDecl) *Fr {
	return &Fr{t: f.t, fn: d, top: f.top, info: info, env: map[types.Object]*Var{}, vars: append([]*Var{}, f.vars...), n: f.n, loops: f.loops, ctr: f.top.ctr, finfo: f.finfo, loopIx: append([]loopCtx{}, f.loopIx...), wr: f.wr, inline: true, depth: f.depth + 1, oblOff: f.oblOff}
}

func (g *Fr) runInline(sig *types.Signature, body *ast.BlockStmt) []string {
	var out []string
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		v := g.declare(r, r.Name(), r.Type(), false, g.t.zero(r.Type()))
		g.results = append(g.results, v)
		out = append(out, v.name)
	}
	g.named = sig.Results().Len() > 0 && sig.Results().At(0).Name() != ""
	n := len(body.List)
	early := false
	for i, s := range body.List {
		if _, ok := s.(*ast.ReturnStmt); ok && i == n-1 {
			continue
		}
		if hasReturn(s) {
			early = true
		}
	}
	if early {
		g.doneVar = g.fresh("done")
		g.emit("let ghost mut %s: bool = false;", g.doneVar)
	}
	g.emit("{")
	g.block(body.List)
	if len(g.deferred) > 0 {
		bail("defer in inlined function")
	}
	g.emit("}")
	return out
}

// inlineLit runs a closure body in place, sharing the captured variables.
func (f *Fr) inlineLit(fl *ast.FuncLit, def *Fr, c *ast.CallExpr) []string {
	if f.spec {
		bail("%s: closure call in pure code", f.pos(c))
	}
	sig := f.typeOf(fl).(*types.Signature)
	var vals []string
	for i, a := range c.Args {
		vals = append(vals, f.exprTo(a, sig.Params().At(i).Type()))
	}
	g := f.child(def.info, def.fn)
	for o, v := range def.env {
		g.env[o] = v
	}
	for i, v := range vals {
		p := sig.Params().At(i)
		_, ref := byRef(p.Type())
		if ref {
			bail("%s: pointer parameter of a local closure", f.pos(c))
		}
		g.declare(p, p.Name(), p.Type(), false, v)
	}
	return g.runInline(sig, fl.Body)
}

func isPointer(ty types.Type) bool {
	_, ok := types.Unalias(ty).Underlying().(*types.Pointer)
	return ok
}
