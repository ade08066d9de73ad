package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// ---------- statements shared by both modes ----------

// simple translates statements without control flow; reports false otherwise.
func (f *Fr) simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.EmptyStmt:
		return true
	case *ast.AssignStmt:
		f.assignStmt(x)
		return true
	case *ast.IncDecStmt:
		vt := f.t.vt(f.typeOf(x.X))
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		f.assign(x.X, fmt.Sprintf("w_%s(%s %s 1)", vt, par(f.expr(x.X)), op))
		return true
	case *ast.ExprStmt:
		if c, ok := unparen(x.X).(*ast.CallExpr); ok {
			f.call(c)
		} else {
			f.expr(x.X)
		}
		return true
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok == token.CONST || gd.Tok == token.TYPE {
			return true
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				rs := f.call(unparen(vs.Values[0]).(*ast.CallExpr))
				for i, id := range vs.Names {
					f.define(id, rs[i], f.callResultType(vs.Values[0], i))
				}
				continue
			}
			for i, id := range vs.Names {
				obj := f.info.Defs[id]
				if id.Name == "_" {
					if i < len(vs.Values) {
						f.expr(vs.Values[i])
					}
					continue
				}
				ty := obj.Type()
				if i < len(vs.Values) && f.shareWriter(id, obj, vs.Values[i]) {
					continue
				}
				if i < len(vs.Values) {
					f.declare(obj, id.Name, ty, false, f.exprTo(vs.Values[i], ty))
				} else {
					f.declare(obj, id.Name, ty, false, f.t.zero(ty))
				}
			}
		}
		return true
	}
	return false
}

func (f *Fr) callResultType(e ast.Expr, i int) types.Type {
	return f.typeOf(e).(*types.Tuple).At(i).Type()
}

// define declares (or reuses, for :=) a variable.
func (f *Fr) define(id *ast.Ident, val string, from types.Type) {
	if id.Name == "_" {
		return
	}
	if obj := f.info.Defs[id]; obj != nil {
		f.declare(obj, id.Name, obj.Type(), false, f.coerce(val, from, obj.Type()))
		return
	}
	f.assign(id, f.coerce(val, from, f.info.ObjectOf(id).Type()))
}

func (f *Fr) assignStmt(x *ast.AssignStmt) {
	put := func(l ast.Expr, v string, from types.Type) {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if x.Tok == token.DEFINE {
			f.define(l.(*ast.Ident), v, from)
			return
		}
		f.assign(l, f.coerce(v, from, f.typeOf(l)))
	}
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op=
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
		be := &ast.BinaryExpr{X: x.Lhs[0], OpPos: x.TokPos, Op: op, Y: x.Rhs[0]}
		f.info.Types[be] = types.TypeAndValue{Type: f.typeOf(x.Lhs[0])}
		f.assign(x.Lhs[0], f.binary(be))
		return
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		switch r := unparen(x.Rhs[0]).(type) {
		case *ast.IndexExpr:
			m := f.typeOf(r.X).Underlying().(*types.Map)
			has, get := f.mapLookup(r, m)
			h := f.tmp(has)
			v := fmt.Sprintf("(if %s { %s } else { %s })", h, get, f.t.zero(m.Elem()))
			v = f.tmpIf(x.Lhs[0], v)
			put(x.Lhs[0], v, m.Elem())
			put(x.Lhs[1], h, types.Typ[types.Bool])
			return
		case *ast.TypeAssertExpr:
			v := f.expr(r.X)
			to := f.info.Types[r.Type].Type
			has, get := f.assertType(v, f.typeOf(r.X), to)
			h := f.tmp(has)
			put(x.Lhs[0], fmt.Sprintf("(if %s { %s } else { %s })", h, get, f.t.zero(to)), to)
			put(x.Lhs[1], h, types.Typ[types.Bool])
			return
		}
	}
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		c, ok := unparen(x.Rhs[0]).(*ast.CallExpr)
		if !ok {
			bail("%s: assignment form", f.pos(x))
		}
		rs := f.call(c)
		for i, l := range x.Lhs {
			put(l, rs[i], f.callResultType(x.Rhs[0], i))
		}
		return
	}
	if len(x.Lhs) == 1 {
		l, r := x.Lhs[0], x.Rhs[0]
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			f.discard(r)
			return
		}
		if f.aliasDef(x, l, r) {
			return
		}
		var v string
		if x.Tok == token.DEFINE {
			obj := f.info.Defs[l.(*ast.Ident)]
			if obj == nil {
				obj = f.info.ObjectOf(l.(*ast.Ident))
			}
			v = f.exprTo(r, obj.Type())
			if f.info.Defs[l.(*ast.Ident)] != nil {
				nv := f.declare(obj, l.(*ast.Ident).Name, obj.Type(), false, v)
				nv.borrow = f.borrowed(r)
				if ix, ok := unparen(r).(*ast.IndexExpr); ok && !f.spec {
					if _, ok := f.typeOf(ix.X).Underlying().(*types.Slice); ok {
						if _, ok := types.Unalias(nv.ty).Underlying().(*types.Pointer); ok {
							f.originOf(nv, ix.X, f.tmp(f.intExpr(ix.Index)), x.End())
						}
					}
				}
			} else {
				f.assign(l, v)
			}
			return
		}
		v = f.exprTo(r, f.typeOf(l))
		f.assign(l, v)
		return
	}
	var vals []string
	for i, r := range x.Rhs {
		if tv := f.info.Types[r]; tv.IsNil() {
			vals = append(vals, f.exprTo(r, f.typeOf(x.Lhs[i])))
			continue
		}
		vals = append(vals, f.tmp(f.expr(r)))
	}
	for i, l := range x.Lhs {
		if tv := f.info.Types[x.Rhs[i]]; tv.IsNil() {
			put(l, vals[i], f.typeOf(l))
			continue
		}
		put(l, vals[i], f.typeOf(x.Rhs[i]))
	}
}

func (f *Fr) tmpIf(l ast.Expr, v string) string {
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return v
	}
	return v
}

// discard evaluates an expression only for its obligations.
func (f *Fr) discard(e ast.Expr) {
	f.expr(e)
}

// aliasDef: writers and readers passed around by reference share one variable.
func (f *Fr) aliasDef(x *ast.AssignStmt, l, r ast.Expr) bool {
	id, ok := l.(*ast.Ident)
	if !ok {
		return false
	}
	if fl, ok := unparen(r).(*ast.FuncLit); ok && !f.spec && x.Tok == token.DEFINE {
		if obj := f.info.Defs[id]; obj != nil && f.onlyCalled(obj) {
			v := &Var{goName: id.Name, obj: obj, ty: obj.Type(), lam: fl, lamFr: f}
			f.env[obj] = v
			return true
		}
		return false
	}
	if x.Tok == token.DEFINE && f.shareWriter(id, f.info.Defs[id], r) {
		return true
	}
	if x.Tok == token.ASSIGN && f.teeWriter(id, r) {
		return true
	}
	c, ok := unparen(r).(*ast.CallExpr)
	if !ok {
		return false
	}
	switch f.calleeName(c) {
	case "bufio.NewWriter":
		u := f.refVar(c.Args[0])
		obj := f.info.Defs[id]
		if u == nil || x.Tok != token.DEFINE || obj == nil || f.spec {
			bail("%s: bufio.NewWriter on an unmodelled writer", f.pos(x))
		}
		f.t.libUse("bufio.NewWriter")
		v := f.declare(obj, id.Name, obj.Type(), true, "gw_buf()")
		v.under = u
		return true
	}
	return false
}

// shareWriter: a second name for a writer is the same variable.
func (f *Fr) shareWriter(id *ast.Ident, obj types.Object, r ast.Expr) bool {
	r = unparen(r)
	if c, ok := r.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if tv, ok := f.info.Types[c.Fun]; ok && tv.IsType() { // io.Writer(x)
			r = unparen(c.Args[0])
		}
	}
	src, ok := r.(*ast.Ident)
	if obj == nil || !ok {
		return false
	}
	if _, isVar := f.info.ObjectOf(src).(*types.Var); !isVar {
		return false
	}
	if vt := f.t.vt(obj.Type()); vt != "GoWriter" && vt != "Option<GoWriter>" {
		return false
	}
	v := f.env[f.info.ObjectOf(src)]
	if v == nil || f.spec {
		bail("%s: another name for an unmodelled writer", f.pos(id))
	}
	f.env[obj] = v
	return true
}

// teeWriter: w = io.MultiWriter(w, b), where b is a buffer nobody reads: the
// writes to b never fail and are not seen, so w stays what it was.
func (f *Fr) teeWriter(id *ast.Ident, r ast.Expr) bool {
	o := f.info.ObjectOf(id)
	if o == nil || f.t.vt(o.Type()) != "GoWriter" {
		return false
	}
	v := f.env[o]
	c, ok := unparen(r).(*ast.CallExpr)
	if !ok || v == nil || f.spec || f.calleeName(c) != "io.MultiWriter" || len(c.Args) != 2 || c.Ellipsis.IsValid() {
		bail("%s: a writer replaced by another", f.pos(id))
	}
	a, ok1 := unparen(c.Args[0]).(*ast.Ident)
	b, ok2 := unparen(c.Args[1]).(*ast.Ident)
	if !ok1 || !ok2 || f.env[f.info.ObjectOf(a)] != v {
		bail("%s: io.MultiWriter over another writer", f.pos(id))
	}
	bo := f.info.ObjectOf(b)
	bv := f.env[bo]
	if bv == nil || f.t.vt(bo.Type()) != "Option<Seq<u8>>" || bv.param {
		bail("%s: io.MultiWriter to something else than a local buffer", f.pos(id))
	}
	// nobody else looks at the buffer
	written := map[*ast.Ident]bool{b: true}
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok {
			for _, l := range as.Lhs {
				if li, ok := l.(*ast.Ident); ok {
					written[li] = true
				}
			}
		}
		return true
	})
	for u, uo := range f.info.Uses {
		if uo == bo && !written[u] {
			bail("%s: the buffer written beside a writer is read", f.pos(u))
		}
	}
	f.t.libUse("io.MultiWriter")
	f.oblig("buffer exists", c, bv.name+" is Some")
	return true
}

// refVar finds the by-reference variable behind w or &w.
func (f *Fr) refVar(e ast.Expr) *Var {
	e = unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = unparen(u.X)
	}
	if id, ok := e.(*ast.Ident); ok {
		return f.env[f.info.ObjectOf(id)]
	}
	return nil
}

func (f *Fr) assertType(v string, from, to types.Type) (has, get string) {
	fv := f.t.vt(from)
	tv := f.t.vt(to)
	if fv == "AstNode" {
		variant := map[string]string{"Option<AstCall>": "Call", "Option<AstLit>": "Lit", "Option<AstSel>": "Sel", "Option<AstIdent>": "Ident", "Option<AstImport>": "Import"}[tv]
		if variant == "" {
			bail("type assertion to %s", tv)
		}
		return fmt.Sprintf("(%s is %s)", par(v), variant), fmt.Sprintf("Some(*(%s->%s_0))", par(v), variant)
	}
	if fv == "GoAny" {
		f.t.needAny(tv)
		return fmt.Sprintf("any_is_%s(%s)", mangle(tv), v), fmt.Sprintf("any_as_%s(%s)", mangle(tv), v)
	}
	bail("type assertion from %s", fv)
	return "", ""
}

// ---------- pure mode ----------

func wrapLets(lets []string, body string) string {
	if len(lets) == 0 {
		return body
	}
	return "({ " + strings.Join(lets, " ") + " " + body + " })"
}

func (f *Fr) retTuple(vals []string) string {
	var all []string
	if vals == nil && f.named {
		for _, r := range f.results {
			all = append(all, r.name)
		}
	} else {
		all = append(all, vals...)
	}
	for _, v := range f.inouts {
		all = append(all, v.name)
	}
	return tupleExpr(all)
}

func tupleExpr(vs []string) string {
	switch len(vs) {
	case 0:
		return "()"
	case 1:
		return vs[0]
	}
	return "(" + strings.Join(vs, ", ") + ")"
}

func (f *Fr) returnVals(x *ast.ReturnStmt) []string {
	if len(x.Results) == 0 {
		if f.named {
			var vs []string
			for _, r := range f.results {
				vs = append(vs, r.name)
			}
			return vs
		}
		return []string{}
	}
	if len(x.Results) == 1 && len(f.results) > 1 {
		rs := f.call(unparen(x.Results[0]).(*ast.CallExpr))
		for i := range rs {
			rs[i] = f.coerce(rs[i], f.callResultType(x.Results[0], i), f.results[i].ty)
		}
		return rs
	}
	var vs []string
	for i, r := range x.Results {
		v := f.exprTo(r, f.results[i].ty)
		if len(x.Results) > 1 && !f.spec {
			v = f.tmp(v)
		}
		vs = append(vs, v)
	}
	return vs
}

func (f *Fr) specBlock(list []ast.Stmt, k func(*Fr) string) string {
	pre := f.lets
	f.lets = nil
	return wrapLets(pre, f.specList(list, k))
}

func (f *Fr) specList(list []ast.Stmt, k func(*Fr) string) string {
	if len(list) == 0 {
		return k(f)
	}
	s, rest := list[0], list[1:]
	flush := func(body func() string) string {
		lets := f.lets
		f.lets = nil
		return wrapLets(lets, body())
	}
	if f.simple(s) {
		return flush(func() string { return f.specList(rest, k) })
	}
	switch x := s.(type) {
	case *ast.ReturnStmt:
		vs := f.returnVals(x)
		return flush(func() string { return f.retTuple(vs) })
	case *ast.BlockStmt:
		return f.specList(append(append([]ast.Stmt{}, x.List...), rest...), k)
	case *ast.IfStmt:
		if x.Init != nil {
			f.simple(x.Init)
		}
		c := f.expr(x.Cond)
		pre := f.lets
		f.lets = nil
		var els []ast.Stmt
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			els = e.List
		case *ast.IfStmt:
			els = []ast.Stmt{e}
		}
		if hasExit(x) {
			a := f.cloneSpec()
			b := f.cloneSpec()
			as := a.specList(x.Body.List, func(h *Fr) string { return h.specList(rest, k) })
			bs := b.specList(els, func(h *Fr) string { return h.specList(rest, k) })
			return wrapLets(pre, fmt.Sprintf("(if %s { %s } else { %s })", c, as, bs))
		}
		mod := f.modified(x)
		if len(mod) == 0 {
			return wrapLets(pre, f.specList(rest, k))
		}
		join := func(h *Fr) string {
			var ns []string
			for _, o := range mod {
				ns = append(ns, h.env[o].name)
			}
			return tupleExpr(ns)
		}
		a := f.cloneSpec()
		b := f.cloneSpec()
		as := a.specList(x.Body.List, join)
		bs := b.specList(els, join)
		var names []string
		for _, o := range mod {
			v := f.env[o]
			v.name = f.fresh(v.goName)
			names = append(names, v.name)
		}
		let := fmt.Sprintf("let %s = (if %s { %s } else { %s });", tupleExpr(names), c, as, bs)
		return wrapLets(append(pre, let), f.specList(rest, k))
	case *ast.SwitchStmt:
		if x.Init != nil {
			f.simple(x.Init)
		}
		conds, bodies := f.switchCases(x)
		pre := f.lets
		f.lets = nil
		after := func(h *Fr) string { return h.specList(rest, k) }
		var build func(i int, g *Fr) string
		build = func(i int, g *Fr) string {
			if i == len(bodies) {
				return after(g)
			}
			a := g.cloneSpec()
			a.brk = after
			as := a.specList(bodies[i], func(h *Fr) string { h.brk = f.brk; return after(h) })
			if conds[i] == "true" {
				return as
			}
			return fmt.Sprintf("(if %s { %s } else { %s })", conds[i], as, build(i+1, g.cloneSpec()))
		}
		return wrapLets(pre, build(0, f))
	case *ast.BranchStmt:
		if x.Tok == token.BREAK && x.Label == nil && f.brk != nil {
			return f.brk(f)
		}
	}
	bail("%s: %T in pure code", f.pos(s), s)
	return ""
}

// switchCases desugars an expression switch into conditions and bodies,
// default last.
func (f *Fr) switchCases(x *ast.SwitchStmt) (conds []string, bodies [][]ast.Stmt) {
	tag := ""
	if x.Tag != nil {
		tag = f.tmp(f.expr(x.Tag))
	}
	cl := x.Body.List
	body := func(i int) []ast.Stmt {
		var out []ast.Stmt
		for j := i; j < len(cl); j++ {
			b := cl[j].(*ast.CaseClause).Body
			if n := len(b); n > 0 {
				if br, ok := b[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					out = append(out, b[:n-1]...)
					continue
				}
			}
			out = append(out, b...)
			break
		}
		return out
	}
	def := -1
	for i, c := range cl {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = i
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if tag == "" {
				cs = append(cs, f.expr(e))
			} else {
				cs = append(cs, fmt.Sprintf("(%s == %s)", tag, f.exprTo(e, f.typeOf(x.Tag))))
			}
		}
		conds = append(conds, "("+strings.Join(cs, " || ")+")")
		bodies = append(bodies, body(i))
	}
	if def >= 0 {
		conds = append(conds, "true")
		bodies = append(bodies, body(def))
	}
	return
}

func hasExit(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		case *ast.BranchStmt:
			if x.Tok == token.BREAK || x.Tok == token.CONTINUE || x.Tok == token.GOTO {
				found = true
			}
		}
		return !found
	})
	return found
}

func hasReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		}
		return !found
	})
	return found
}

// modified lists known variables a statement may assign.
func (f *Fr) modified(n ast.Node) []types.Object {
	var out []types.Object
	seen := map[types.Object]bool{}
	add := func(e ast.Expr) {
		if o := f.rootObj(e); o != nil && !seen[o] {
			if _, ok := f.env[o]; ok {
				seen[o] = true
				out = append(out, o)
			}
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				add(l)
			}
		case *ast.IncDecStmt:
			add(x.X)
		case *ast.CallExpr:
			f.callWrites(x, add)
		}
		return true
	})
	return out
}

func (f *Fr) rootObj(e ast.Expr) types.Object {
	return rootObj(f.info, e)
}

func rootObj(info *types.Info, e ast.Expr) types.Object {
	for {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			return info.ObjectOf(x)
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// ---------- executable mode ----------

func (f *Fr) block(list []ast.Stmt) {
	nv := len(f.vars)
	f.blockKeep(list)
	f.vars = f.vars[:nv]
}

// blockKeep leaves the block's own variables visible (to a loop's end hook)
// when they still are in scope in the generated code.
func (f *Fr) blockKeep(list []ast.Stmt) {
	nv := len(f.vars)
	open := 0
	for i, s := range list {
		f.stmt(s)
		if i < len(list)-1 {
			if g := f.guardAfter(s); g != "" {
				f.emit("if branch(Ghost(%s)) {", g)
				open++
			}
		}
	}
	if open > 0 {
		f.vars = f.vars[:nv]
	}
	for ; open > 0; open-- {
		f.emit("}")
	}
}

// guardAfter: after a statement that may have left the enclosing inlined
// function or switch, the rest runs only if it has not.
func (f *Fr) guardAfter(s ast.Stmt) string {
	var g []string
	if f.inline && f.doneVar != "" && hasReturn(s) {
		g = append(g, "!"+f.doneVar)
	}
	if f.swBrk != "" && hasSwitchBreak(s) {
		g = append(g, "!"+f.swBrk)
	}
	return strings.Join(g, " && ")
}

// hasSwitchBreak: an unlabelled break belonging to the current switch.
func hasSwitchBreak(s ast.Node) bool {
	found := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || found {
				return false
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return false
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					found = true
				}
			}
			return true
		})
	}
	walk(s)
	return found
}

func (f *Fr) stmt(s ast.Stmt) {
	if r := f.inspectLoop(s); r != nil {
		f.rangeStmt(r)
		return
	}
	if f.simple(s) {
		return
	}
	switch x := s.(type) {
	case *ast.BlockStmt:
		f.emit("{")
		f.block(x.List)
		f.emit("}")
	case *ast.ReturnStmt:
		f.retPos = x.Pos()
		f.ret(f.returnVals(x))
	case *ast.IfStmt:
		nv := len(f.vars)
		if x.Init != nil {
			f.emit("{")
			f.simple(x.Init)
		}
		c := f.expr(x.Cond)
		f.emit("if branch(Ghost(%s)) {", c)
		f.block(x.Body.List)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			f.emit("} else {")
			f.block(e.List)
		case *ast.IfStmt:
			f.emit("} else {")
			f.stmt(e)
		}
		f.emit("}")
		if x.Init != nil {
			f.emit("}")
		}
		f.vars = f.vars[:nv]
	case *ast.SwitchStmt:
		nv := len(f.vars)
		f.emit("{")
		if x.Init != nil {
			f.simple(x.Init)
		}
		conds, bodies := f.switchCases(x)
		f.cases(conds, bodies, nil)
		f.emit("}")
		f.vars = f.vars[:nv]
	case *ast.TypeSwitchStmt:
		f.typeSwitch(x)
	case *ast.ForStmt:
		f.forStmt(x)
	case *ast.RangeStmt:
		f.rangeStmt(x)
	case *ast.BranchStmt:
		f.branchStmt(x)
	case *ast.DeferStmt:
		if f.depth > 0 || f.inline {
			bail("%s: defer", f.pos(x))
		}
		f.deferred = append(f.deferred, x.Call)
	default:
		bail("%s: statement %T", f.pos(s), s)
	}
}

func (f *Fr) cases(conds []string, bodies [][]ast.Stmt, pre []func()) {
	saved := f.swBrk
	anyBrk := false
	for _, b := range bodies {
		for _, s := range b {
			if hasSwitchBreak(s) {
				anyBrk = true
			}
		}
	}
	f.swBrk = ""
	if anyBrk {
		f.swBrk = f.fresh("swbrk")
		f.emit("let ghost mut %s: bool = false;", f.swBrk)
	}
	n := 0
	for i := range bodies {
		if conds[i] == "true" {
			f.emit("{")
		} else {
			f.emit("if branch(Ghost(%s)) {", conds[i])
		}
		sv := f.inSwitch
		f.inSwitch = true
		nv := len(f.vars)
		if pre != nil && pre[i] != nil {
			pre[i]()
		}
		f.block(bodies[i])
		f.vars = f.vars[:nv]
		f.inSwitch = sv
		if conds[i] == "true" {
			f.emit("}")
			break
		}
		if i < len(bodies)-1 {
			f.emit("} else {")
			n++
		} else {
			f.emit("}")
		}
	}
	for ; n > 0; n-- {
		f.emit("}")
	}
	f.swBrk = saved
}

func (f *Fr) typeSwitch(x *ast.TypeSwitchStmt) {
	var ta *ast.TypeAssertExpr
	bindName := ""
	switch a := x.Assign.(type) {
	case *ast.AssignStmt:
		ta = unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
		bindName = a.Lhs[0].(*ast.Ident).Name
	case *ast.ExprStmt:
		ta = unparen(a.X).(*ast.TypeAssertExpr)
	}
	if st, arg := f.staticDyn(ta.X); st != nil {
		f.staticSwitch(x, st, arg, bindName)
		return
	}
	f.emit("{")
	nv := len(f.vars)
	v := f.tmp(f.expr(ta.X))
	var conds []string
	var bodies [][]ast.Stmt
	var pres []func()
	var def *ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		if len(cc.List) != 1 {
			bail("%s: type switch case list", f.pos(cc))
		}
		to := f.info.Types[cc.List[0]].Type
		has, get := f.assertType(v, f.typeOf(ta.X), to)
		obj := f.info.Implicits[cc]
		conds = append(conds, has)
		bodies = append(bodies, cc.Body)
		pres = append(pres, func() {
			if obj != nil {
				f.declare(obj, bindName, obj.Type(), false, get)
			}
		})
	}
	if def != nil {
		obj := f.info.Implicits[def]
		conds = append(conds, "true")
		bodies = append(bodies, def.Body)
		pres = append(pres, func() {
			if obj != nil {
				f.declare(obj, bindName, obj.Type(), false, v)
			}
		})
	}
	f.cases(conds, bodies, pres)
	f.emit("}")
	f.vars = f.vars[:nv]
}

// staticDyn: the dynamic type of any(x), x of a type parameter of the instance
// being translated.
func (f *Fr) staticDyn(e ast.Expr) (types.Type, ast.Expr) {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, nil
	}
	if tv, ok := f.info.Types[unparen(c.Fun)]; !ok || !tv.IsType() || !types.IsInterface(tv.Type) {
		return nil, nil
	}
	tp, ok := types.Unalias(f.typeOf(c.Args[0])).(*types.TypeParam)
	if !ok || f.t.tsubst == nil {
		return nil, nil
	}
	ty := f.t.tsubst[tp]
	if ty == nil || types.IsInterface(ty) {
		return nil, nil
	}
	return ty, c.Args[0]
}

// staticSwitch translates the case a type switch of an instance takes.
func (f *Fr) staticSwitch(x *ast.TypeSwitchStmt, st types.Type, arg ast.Expr, bindName string) {
	var take *ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil && take == nil {
			take = cc
		}
		for _, e := range cc.List {
			if ty := f.info.Types[e].Type; types.Identical(types.Unalias(ty), types.Unalias(st)) {
				if len(cc.List) != 1 {
					bail("%s: type switch case list", f.pos(cc))
				}
				take = cc
			} else if types.IsInterface(ty) {
				bail("%s: interface case", f.pos(cc))
			}
		}
	}
	if f.untaken == nil {
		f.untaken = map[ast.Node]bool{}
	}
	for _, c := range x.Body.List {
		f.untaken[c] = c != take
	}
	f.emit("{")
	nv := len(f.vars)
	v := f.tmp(f.expr(arg))
	if take != nil {
		f.cases([]string{"true"}, [][]ast.Stmt{take.Body}, []func(){func() {
			if obj := f.info.Implicits[take]; obj != nil {
				if types.IsInterface(obj.Type()) {
					bail("%s: the value as an interface", f.pos(take))
				}
				f.declare(obj, bindName, obj.Type(), false, v)
			}
		}})
	}
	f.emit("}")
	f.vars = f.vars[:nv]
}

func (f *Fr) branchStmt(x *ast.BranchStmt) {
	if x.Label != nil {
		bail("%s: labelled branch", f.pos(x))
	}
	switch x.Tok {
	case token.BREAK:
		if f.inSwitch {
			f.emit("proof { %s = true; }", f.swBrk)
			return
		}
		f.emit("break;")
		return
	case token.CONTINUE:
		if n := len(f.loopIx); n > 0 {
			if f.loopIx[n-1].post != nil {
				f.loopIx[n-1].post()
			}
		}
		f.emit("continue;")
		return
	}
	bail("%s: %s", f.pos(x), x.Tok)
}

// ret emits a return from the current function.
func (f *Fr) ret(vals []string) {
	if f.inline {
		for i, v := range vals {
			f.emit("proof { %s = %s; }", f.results[i].name, v)
		}
		if f.doneVar != "" {
			f.emit("proof { %s = true; }", f.doneVar)
		}
		return
	}
	var all []string
	for i, v := range vals {
		n := f.fresh("ret")
		f.emit("let ghost %s: %s = %s;", n, f.t.vt(f.results[i].ty), v)
		all = append(all, n)
	}
	for i := len(f.deferred) - 1; i >= 0; i-- {
		f.call(f.deferred[i])
	}
	extra := map[string]string{}
	if f.ctr != nil {
		for i, r := range f.ctr.Results {
			if i < len(all) {
				extra[r] = all[i]
			}
		}
	}
	for _, v := range f.inouts {
		n := f.fresh("ret")
		f.emit("let ghost %s = %s;", n, v.name)
		all = append(all, n)
		if cn := f.ctrNameOf(v); cn != "" {
			extra[cn+"_out"] = n
		}
	}
	if f.ctr != nil && f.ctr.Exit.Text != "" && !f.beforeLocals(f.ctr.Exit.Text) {
		for _, n := range f.ctr.Params {
			if _, ok := extra[n+"_out"]; !ok && f.top.old[n] != "" {
				extra[n+"_out"] = f.top.old[n]
			}
		}
		f.hook(f.ctr.Exit, extra)
	}
	f.emitL(Label{f.key(), "return", "", ""}, "return Ghost(%s);", tupleExpr(all))
}

func (f *Fr) ctrNameOf(v *Var) string {
	if f.top.pnames == nil {
		return ""
	}
	return f.top.pnames[v.obj]
}

func (f *Fr) loopContract() (*LoopContract, int) {
	*f.loops++
	k := *f.loops
	if f.finfo != nil {
		f.finfo.Loops++
	}
	if f.top.ctr == nil {
		return nil, k
	}
	return f.top.ctr.Loops[k], k
}

func (f *Fr) loopSpec(lc *LoopContract, auto []string, gs guess, autoDec string, n ast.Node) {
	k := f.top.key()
	guessed := 0
	try := func(what string, cs []string, head bool) int {
		m := 0
		for _, c := range cs {
			guessed++
			pos := fmt.Sprintf("auto:%s:%d", f.pos(n), guessed)
			if f.t.drop[pos] {
				continue
			}
			if head && m == 0 {
				f.emit("    %s", what)
			}
			m++
			f.emitL(Label{k, "loop invariant " + pos, f.pos(n), c}, "        %s,", c)
		}
		return m
	}
	xs := lc != nil && len(lc.InvX) > 0
	if xs {
		f.emit("    invariant_except_break")
	}
	if try("invariant_except_break", gs.invX, !xs) > 0 {
		f.top.complex = true
	}
	if xs {
		for _, c := range lc.InvX {
			if f.finfo != nil {
				f.finfo.Obl += 2
			}
			f.emitL(Label{k, "loop invariant " + c.Pos, f.pos(n), oneLine(c.Text)}, "        %s,", f.bound(c, nil))
		}
	}
	has := len(auto) > 0 || lc != nil && len(lc.Inv) > 0
	if has {
		f.emit("    invariant")
	}
	more := try("invariant", gs.inv, !has)
	if has {
		for _, a := range auto {
			f.emitL(Label{k, "loop invariant (frame)", f.pos(n), a}, "        %s,", a)
		}
		if lc != nil {
			for _, c := range lc.Inv {
				if f.finfo != nil {
					f.finfo.Obl += 2
				}
				f.emitL(Label{k, "loop invariant " + c.Pos, f.pos(n), oneLine(c.Text)}, "        %s,", f.bound(c, nil))
			}
		}
	}
	if !has && more == 0 {
		f.emit("    invariant true,")
	}
	es := lc != nil && len(lc.Ens) > 0
	if es {
		f.emit("    ensures")
	}
	if try("ensures", gs.ens, !es) > 0 {
		f.top.complex = true
	}
	if es {
		for _, c := range lc.Ens {
			if f.finfo != nil {
				f.finfo.Obl++
			}
			f.emitL(Label{k, "loop postcondition " + c.Pos, f.pos(n), oneLine(c.Text)}, "        %s,", f.bound(c, nil))
		}
	}
	dec, decPos := autoDec, ""
	if lc != nil && len(lc.Dec) > 0 {
		var ds []string
		for _, c := range lc.Dec {
			ds = append(ds, f.bound(c, nil))
			decPos = " " + c.Pos
		}
		dec = strings.Join(ds, ", ")
	}
	if dec != "" {
		if f.finfo != nil {
			f.finfo.Obl++
		}
		f.emitL(Label{k, "loop termination" + decPos, f.pos(n), dec}, "    decreases %s,", dec)
	}
}

// condWrites: evaluating the loop's condition changes a variable.
func (f *Fr) condWrites(c ast.Expr) bool {
	hit := false
	f.writes(c, func(ast.Expr) { hit = true })
	return hit
}

func (f *Fr) forStmt(x *ast.ForStmt) {
	if x.Cond != nil && f.condWrites(x.Cond) {
		r, ok := f.t.loops[x]
		if !ok {
			n := &ast.UnaryExpr{OpPos: x.Cond.Pos(), Op: token.NOT, X: x.Cond}
			f.info.Types[n] = types.TypeAndValue{Type: types.Typ[types.Bool]}
			brk := &ast.IfStmt{If: x.Cond.Pos(), Cond: n, Body: &ast.BlockStmt{Lbrace: x.Cond.Pos(), List: []ast.Stmt{&ast.BranchStmt{TokPos: x.Cond.End(), Tok: token.BREAK}}, Rbrace: x.Cond.End()}}
			r = &ast.ForStmt{For: x.For, Init: x.Init, Post: x.Post, Body: &ast.BlockStmt{Lbrace: x.Body.Lbrace, List: append([]ast.Stmt{brk}, x.Body.List...), Rbrace: x.Body.Rbrace}}
			if f.t.loops == nil {
				f.t.loops = map[*ast.ForStmt]*ast.ForStmt{}
			}
			f.t.loops[x] = r
		}
		x = r
	}
	nv := len(f.vars)
	f.emit("{")
	if x.Init != nil {
		f.simple(x.Init)
	}
	lc, _ := f.loopContract()
	idx := ""
	if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 {
		if id, ok := a.Lhs[0].(*ast.Ident); ok {
			if v := f.env[f.info.ObjectOf(id)]; v != nil {
				idx = v.name
			}
		}
	}
	if x.Init == nil && x.Post != nil {
		if inc, ok := x.Post.(*ast.IncDecStmt); ok {
			if v := f.refVar(inc.X); v != nil {
				idx = v.name
			}
		}
	}
	if idx == "" {
		idx = "arbitrary::<int>()"
	} else {
		idx = "(" + idx + " as int)"
	}
	ctx := loopCtx{idx: idx}
	f.loopIx = append(f.loopIx, ctx)
	me := len(f.loopIx) - 1
	saveSw := f.inSwitch
	f.inSwitch = false
	saveBrk := f.swBrk
	f.swBrk = ""
	f.depth++
	if lc != nil {
		f.hook(lc.Pre, nil)
	}
	var auto []string
	autoDec := ""
	cond := "true"
	var condPre, condLem []wline
	if x.Cond != nil {
		save := f.wr
		f.wr = &writer{}
		cond = f.expr(x.Cond)
		pre := f.wr.lines
		f.wr = save
		simple := true
		for _, l := range pre {
			if strings.HasPrefix(l.s, "proof { lemma_") {
				condLem = append(condLem, l)
			} else if !strings.HasPrefix(l.s, "proof { assert(") {
				simple = false
			}
		}
		if !simple {
			g := f.cloneSpec()
			g.spec = true
			g.lets = nil
			cond = g.expr(x.Cond)
			cond = wrapLets(g.lets, cond)
		}
		if len(pre) > 0 {
			condPre = append(condPre, wline{"{", nil})
			condPre = append(condPre, pre...)
			condPre = append(condPre, wline{"}", nil})
			if simple {
				condPre = pre
			}
		}
		autoDec = f.autoDecreases(x)
	}
	done := ""
	if f.inline && f.doneVar != "" && hasReturn(x.Body) {
		done = "!" + f.doneVar + " && "
	}
	var gs guess
	var preG []string
	preG, gs.inv = f.counterInv(x)
	gs.inv = append(gs.inv, f.setMaps()...)
	if l := lenBoundOf(f.info, x); l != nil && (lc == nil || len(lc.Inv)+len(lc.InvX) == 0) {
		o := f.info.ObjectOf(unparen(x.Post.(*ast.IncDecStmt).X).(*ast.Ident))
		v := f.env[o]
		rng := f.specText(l)
		if v != nil && rng != "" && f.t.vt(v.ty) == "i64" {
			free := true
			for _, w := range f.modified(x.Body) {
				free = free && w != o && w != f.rootObj(l)
			}
			if free {
				bind := func(g *Fr) {
					nv := *v
					nv.name = "sj"
					g.env[o] = &nv
				}
				elem := ""
				g := f.cloneSpec()
				g.spec = true
				bind(g)
				ix := &ast.IndexExpr{X: l, Index: unparen(x.Post.(*ast.IncDecStmt).X)}
				if s, ok := f.typeOf(l).Underlying().(*types.Slice); ok {
					f.info.Types[ix] = types.TypeAndValue{Type: s.Elem()}
					elem = rawText(g, ix)
					dn := ""
					if done != "" {
						dn = f.doneVar
					}
					p, ix, iv, en := f.searchSpec(f.searchLoop(x.Body, bind), "("+v.name+" as int)", "("+v.name+" as int)", rng, elem, f.t.vt(s.Elem()), dn)
					preG = append(preG, p...)
					gs.invX, gs.inv, gs.ens = ix, append(gs.inv, iv...), en
				}
			}
		}
	}
	for _, l := range preG {
		f.emit("%s", l)
	}
	f.wr.lines = append(f.wr.lines, condPre...)
	if x.Cond == nil && done == "" {
		f.emitL(Label{f.top.key(), "loop", f.pos(x), ""}, "loop")
	} else {
		f.emitL(Label{f.top.key(), "loop", f.pos(x), ""}, "while branch(Ghost((%s%s)))", done, cond)
	}
	f.loopSpec(lc, auto, gs, autoDec, x)
	f.emit("{")
	post := func() {
		if x.Post != nil {
			f.simple(x.Post)
		}
		f.wr.lines = append(f.wr.lines, condPre...)
		if lc != nil {
			f.hook(lc.End, nil)
		}
	}
	f.loopIx[me].post = post
	f.wr.lines = append(f.wr.lines, condLem...)
	if lc != nil {
		f.hook(lc.Begin, nil)
	}
	nvb := len(f.vars)
	f.blockKeep(x.Body.List)
	if g := f.guardAfter(x.Body); g != "" && f.inline {
		f.emit("if branch(Ghost(%s)) {", g)
		post()
		f.emit("}")
	} else if !endsInJump(x.Body) {
		post()
	}
	f.emit("}")
	f.vars = f.vars[:nvb]
	f.depth--
	f.inSwitch = saveSw
	f.swBrk = saveBrk
	if lc != nil {
		f.hook(lc.After, nil)
	}
	f.loopIx = f.loopIx[:me]
	f.emit("}")
	f.vars = f.vars[:nv]
}

func endsInJump(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.BREAK || x.Tok == token.CONTINUE
	}
	return false
}

// autoDecreases proposes a measure for i<n / i>0 style loops.
func (f *Fr) autoDecreases(x *ast.ForStmt) string {
	be, ok := unparen(x.Cond).(*ast.BinaryExpr)
	if !ok {
		return ""
	}
	save, saveO := f.wr, f.oblOff
	f.wr = &writer{}
	f.oblOff = true
	defer func() { f.wr = save; f.oblOff = saveO }()
	a, b := f.operands(be)
	switch be.Op {
	case token.LSS, token.NEQ:
		return fmt.Sprintf("%s - %s", par(b), par(a))
	case token.LEQ:
		return fmt.Sprintf("%s - %s + 1", par(b), par(a))
	case token.GTR:
		return fmt.Sprintf("%s - %s", par(a), par(b))
	case token.GEQ:
		return fmt.Sprintf("%s - %s + 1", par(a), par(b))
	}
	return ""
}

func (f *Fr) rangeStmt(x *ast.RangeStmt) {
	nv := len(f.vars)
	f.emit("{")
	ty := f.typeOf(x.X)
	if _, isFn := ty.Underlying().(*types.Signature); isFn {
		bail("%s: range over function", f.pos(x))
	}
	if _, isMap := ty.Underlying().(*types.Map); isMap {
		bail("%s: range over map", f.pos(x))
	}
	isStr := false
	if b, ok := ty.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString == 0 {
			bail("%s: range over integer", f.pos(x))
		}
		isStr = true
	}
	rng := f.fresh("rng")
	f.emit("let ghost %s = %s;", rng, f.seqOf(f.expr(x.X), ty))
	f.emit("proof { lemma_go_len(%s); }", rng)
	idx := f.fresh("idx")
	f.emit("let ghost mut %s: int = 0;", idx)
	lc, _ := f.loopContract()
	f.loopIx = append(f.loopIx, loopCtx{idx: idx, rng: rng})
	me := len(f.loopIx) - 1
	saveSw, saveBrk := f.inSwitch, f.swBrk
	f.inSwitch, f.swBrk = false, ""
	f.depth++
	var kv, vv *Var
	decl := func(e ast.Expr, ty types.Type, z string) *Var {
		if e == nil {
			return nil
		}
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			return nil
		}
		if x.Tok == token.DEFINE {
			obj := f.info.Defs[id]
			return f.declare(obj, id.Name, obj.Type(), false, z)
		}
		return f.env[f.info.ObjectOf(id)]
	}
	var elemT types.Type
	if isStr {
		elemT = types.Typ[types.Int32]
	} else if s, ok := ty.Underlying().(*types.Slice); ok {
		elemT = s.Elem()
	} else if tp, ok := types.Unalias(ty).(*types.TypeParam); ok && coreSlice(tp) != nil {
		elemT = coreSlice(tp).Elem()
	} else {
		bail("%s: range over %s", f.pos(x), ty)
	}
	kv = decl(x.Key, types.Typ[types.Int], "0i64")
	vv = decl(x.Value, elemT, "arbitrary()")
	if x.Tok == token.DEFINE {
		f.originOf(vv, x.X, fmt.Sprintf("(%s - 1)", idx), x.Pos())
	}
	if lc != nil {
		f.hook(lc.Pre, nil)
	}
	done := ""
	if f.inline && f.doneVar != "" && hasReturn(x.Body) {
		done = "!" + f.doneVar + " && "
	}
	gs := guess{inv: f.setMaps()}
	if !isStr && (lc == nil || len(lc.Inv)+len(lc.InvX) == 0) && x.Tok == token.DEFINE {
		elem := rng + "[sj as int]"
		bind := func(g *Fr) {
			if kv != nil {
				nv := *kv
				nv.name = "sj"
				g.env[kv.obj] = &nv
			}
			if vv != nil {
				nv := *vv
				nv.name = elem
				g.env[vv.obj] = &nv
			}
		}
		if vv == nil && kv != nil {
			g := f.cloneSpec()
			g.spec = true
			bind(g)
			ix := &ast.IndexExpr{X: x.X, Index: x.Key}
			f.info.Types[ix] = types.TypeAndValue{Type: elemT}
			elem = rawText(g, ix)
		}
		dn := ""
		if done != "" {
			dn = f.doneVar
		}
		var p, iv []string
		p, gs.invX, iv, gs.ens = f.searchSpec(f.searchLoop(x.Body, bind), idx, "("+idx+" - 1)", rng, elem, f.t.vt(elemT), dn)
		gs.inv = append(gs.inv, iv...)
		for _, l := range p {
			f.emit("%s", l)
		}
	}
	f.emitL(Label{f.top.key(), "loop", f.pos(x), ""}, "while branch(Ghost((%s%s < %s.len())))", done, idx, rng)
	auto := []string{fmt.Sprintf("0 <= %s <= %s.len()", idx, rng), fmt.Sprintf("%s.len() <= 0xffff_ffff_ffff", rng)}
	if isStr {
		auto = append(auto, fmt.Sprintf("rune_boundary(%s, %s)", rng, idx))
	}
	f.loopSpec(lc, auto, gs, fmt.Sprintf("%s.len() - %s", rng, idx), x)
	f.emit("{")
	if kv != nil {
		f.emit("proof { %s = %s as i64; }", kv.name, idx)
	}
	if isStr {
		f.emit("proof { lemma_dec_rune(%s, %s); }", rng, idx)
		if vv != nil {
			f.emit("proof { %s = dec_rune(%s, %s); }", vv.name, rng, idx)
		}
		f.emit("proof { %s = %s + dec_width(%s, %s); }", idx, idx, rng, idx)
	} else {
		if vv != nil {
			f.emit("proof { %s = %s[%s]; }", vv.name, rng, idx)
		}
		f.emit("proof { %s = %s + 1; }", idx, idx)
	}
	post := func() {
		if lc != nil {
			f.hook(lc.End, nil)
		}
	}
	f.loopIx[me].post = post
	if lc != nil {
		f.hook(lc.Begin, nil)
	}
	nvb := len(f.vars)
	f.blockKeep(x.Body.List)
	if !endsInJump(x.Body) {
		post()
	}
	f.emit("}")
	f.vars = f.vars[:nvb]
	f.depth--
	f.inSwitch, f.swBrk = saveSw, saveBrk
	if lc != nil {
		f.hook(lc.After, nil)
	}
	f.loopIx = f.loopIx[:me]
	f.emit("}")
	f.vars = f.vars[:nv]
}

// inspectLoop reads ast.Inspect(x, func(n ast.Node) bool { ...; return true })
// as a loop over the nodes visited.
func (f *Fr) inspectLoop(s ast.Stmt) *ast.RangeStmt {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return nil
	}
	c, ok := unparen(es.X).(*ast.CallExpr)
	if !ok || f.calleeName(c) != "ast.Inspect" {
		return nil
	}
	fl, ok := unparen(c.Args[1]).(*ast.FuncLit)
	if !ok || len(fl.Type.Params.List) != 1 || len(fl.Type.Params.List[0].Names) != 1 {
		bail("%s: ast.Inspect with a function value", f.pos(c))
	}
	if r, ok := f.t.inspects[c]; ok {
		return r
	}
	node := f.typeOf(fl).(*types.Signature).Params().At(0).Type()
	w := &ast.CallExpr{Fun: c.Fun, Lparen: c.Lparen, Args: c.Args[:1], Rparen: c.Rparen}
	f.info.Types[w] = types.TypeAndValue{Type: types.NewSlice(node)}
	f.t.libUse("ast.Inspect")
	r := &ast.RangeStmt{For: c.Pos(), Key: &ast.Ident{NamePos: c.Pos(), Name: "_"}, Value: fl.Type.Params.List[0].Names[0], Tok: token.DEFINE, X: w, Body: &ast.BlockStmt{Lbrace: fl.Body.Lbrace, List: f.goOn(fl.Body.List, true), Rbrace: fl.Body.Rbrace}}
	if f.t.inspects == nil {
		f.t.inspects = map[*ast.CallExpr]*ast.RangeStmt{}
	}
	f.t.inspects[c] = r
	return r
}

// goOn replaces "return true" by "continue"; at the end of the body it is left out.
func (f *Fr) goOn(l []ast.Stmt, last bool) []ast.Stmt {
	var out []ast.Stmt
	for i, s := range l {
		end := last && i == len(l)-1
		switch x := s.(type) {
		case *ast.ReturnStmt:
			if tv := f.info.Types[x.Results[0]]; tv.Value == nil || !constant.BoolVal(tv.Value) {
				bail("%s: ast.Inspect that skips nodes", f.pos(x))
			}
			if !end {
				out = append(out, &ast.BranchStmt{TokPos: x.Pos(), Tok: token.CONTINUE})
			}
		case *ast.IfStmt:
			y := *x
			y.Body = &ast.BlockStmt{Lbrace: x.Body.Lbrace, List: f.goOn(x.Body.List, end), Rbrace: x.Body.Rbrace}
			if x.Else != nil {
				y.Else = f.goOn([]ast.Stmt{x.Else}, end)[0]
			}
			out = append(out, &y)
		case *ast.BlockStmt:
			y := *x
			y.List = f.goOn(x.List, end)
			out = append(out, &y)
		default:
			if hasReturn(s) {
				bail("%s: return inside ast.Inspect", f.pos(s))
			}
			out = append(out, s)
		}
	}
	return out
}
