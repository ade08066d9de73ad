package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (t *Tr) enqueue(j *job) {
	if t.done[j.vname] {
		return
	}
	t.done[j.vname] = true
	t.queue = append(t.queue, j)
}

// withSubst activates type arguments (on top of the current ones) and
// returns the function that restores the previous state.
func (t *Tr) withSubst(m map[*types.TypeParam]types.Type) func() {
	saved := t.tsubst
	if m != nil {
		n := map[*types.TypeParam]types.Type{}
		for k, v := range saved {
			n[k] = v
		}
		for k, v := range m {
			n[k] = v
		}
		t.tsubst = n
	}
	return func() { t.tsubst = saved }
}

// callWrites reports the operands a call may write through.
func (f *Fr) callWrites(x *ast.CallExpr, add func(ast.Expr)) {
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := f.info.ObjectOf(id).(*types.Builtin); ok {
			switch b.Name() {
			case "copy", "delete":
				add(x.Args[0])
			case "append":
				if se, ok := unparen(x.Args[0]).(*ast.SliceExpr); ok && f.t.isSl(f.typeOf(x)) {
					add(se.X)
				}
			}
			return
		}
	}
	if tv, ok := f.info.Types[unparen(x.Fun)]; ok && tv.IsType() {
		return
	}
	co := f.callee(x)
	if co == nil {
		for _, a := range x.Args {
			if tv, ok := f.info.Types[a]; ok && tv.Type != nil {
				if p, ok := types.Unalias(tv.Type).(*types.Pointer); ok && isRepoStructPtr(p) {
					add(addrOf(a))
				}
			}
		}
		return
	}
	sel, _ := unparen(x.Fun).(*ast.SelectorExpr)
	isMethod := co.Type().(*types.Signature).Recv() != nil
	if !inRepo(co.Pkg()) {
		ln := libName(co)
		if isMethod && sel != nil && libMutRecv(ln) {
			add(sel.X)
			if r := f.rootObj(sel.X); r != nil {
				if v := f.env[r]; v != nil && v.under != nil {
					for o, w := range f.env {
						if w == v.under {
							id := ast.NewIdent(o.Name())
							f.info.Uses[id] = o
							add(id)
						}
					}
				}
			}
		}
		for k, a := range x.Args {
			if libMutArg(ln, k) {
				add(addrOf(a))
			}
		}
		return
	}
	cm := f.t.mutated(co)
	k := 0
	if isMethod {
		k = 1
		if sel != nil && len(cm) > 0 && cm[0] {
			add(sel.X)
		}
	}
	for j, a := range x.Args {
		pi := j + k
		if pi >= len(cm) {
			pi = len(cm) - 1
		}
		if pi >= k && cm[pi] {
			add(addrOf(a))
		}
	}
}

// reassignedAfter: captured variables assigned later in the function.
func (f *Fr) reassignedAfter(x *ast.FuncLit) []types.Object {
	caps := map[types.Object]bool{}
	ast.Inspect(x.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			o := f.info.ObjectOf(id)
			if _, ok := f.env[o]; ok {
				caps[o] = true
			}
		}
		return true
	})
	var out []types.Object
	seen := map[types.Object]bool{}
	add := func(e ast.Expr) {
		if e.Pos() <= x.End() {
			return
		}
		if o := f.rootObj(e); o != nil && caps[o] && !seen[o] {
			seen[o] = true
			out = append(out, o)
		}
	}
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			if y.Tok != token.DEFINE {
				for _, l := range y.Lhs {
					add(l)
				}
			}
		case *ast.IncDecStmt:
			add(y.X)
		case *ast.CallExpr:
			f.callWrites(y, add)
		}
		return true
	})
	return out
}

// onlyCalled: the closure variable is used in call position only.
func (f *Fr) onlyCalled(o types.Object) bool {
	if f.fn == nil || f.fn.Decl == nil {
		return false
	}
	ok := true
	calls := map[*ast.Ident]bool{}
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, isId := unparen(x.Fun).(*ast.Ident); isId {
				calls[id] = true
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					if f.rootObj(l) == o {
						ok = false
					}
				}
			}
		case *ast.Ident:
			if f.info.Uses[x] == o && !calls[x] {
				ok = false
			}
		}
		return true
	})
	return ok
}

// borrowed: the value shares storage with a parameter.
func (f *Fr) borrowed(e ast.Expr) bool {
	ty := f.typeOf(e)
	if ty == nil {
		return false
	}
	if _, ok := ty.Underlying().(*types.Slice); !ok {
		return false
	}
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v := f.env[f.info.ObjectOf(x)]
		return v != nil && v.borrow
	case *ast.SelectorExpr:
		v := f.env[rootObj(f.info, x)]
		return v != nil && (v.param || v.borrow)
	case *ast.SliceExpr:
		return f.borrowed(x.X)
	case *ast.IndexExpr:
		v := f.env[rootObj(f.info, x)]
		return v != nil && (v.param || v.borrow)
	}
	return false
}
