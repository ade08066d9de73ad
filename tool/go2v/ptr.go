package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Pointers are translated by value. That is exact as long as nobody else
// holds the same pointer when its target changes; these checks refuse code
// for which that cannot be seen.

// writes calls add for every expression the statement tree writes.
func (f *Fr) writes(n ast.Node, add func(ast.Expr)) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch y := m.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if id, ok := unparen(l).(*ast.Ident); ok && y.Tok == token.DEFINE && f.info.Defs[id] != nil {
					continue
				}
				add(l)
			}
		case *ast.IncDecStmt:
			add(y.X)
		case *ast.CallExpr:
			f.callWrites(y, add)
		}
		return true
	})
}

// addressKept: &x is used as a value; x must not change from then on.
func (f *Fr) addressKept(x *ast.UnaryExpr) {
	if f.fn == nil || f.fn.Decl == nil || f.fn.Decl.Body == nil {
		return
	}
	o := f.rootObj(x.X)
	if o == nil {
		return
	}
	// a loop around the expression runs what stands before it as well
	after := x.End()
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if n.Pos() < x.Pos() && x.End() <= n.End() && o.Pos() < n.Pos() && n.Pos() < after {
				after = n.Pos()
			}
		}
		return true
	})
	kept := fieldOf(f.info, x.X)
	f.writes(f.fn.Decl.Body, func(e ast.Expr) {
		if e.Pos() > after && f.rootObj(e) == o && f.meets(e, kept) && !(x.Pos() <= e.Pos() && e.End() <= x.End()) {
			bail("%s: the address of %s is kept while it changes", f.pos(x), o.Name())
		}
	})
}

// fieldOf: the field of the root variable that the path goes into ("" for the whole).
func fieldOf(info *types.Info, e ast.Expr) string {
	name := ""
	for {
		switch x := unparen(e).(type) {
		case *ast.SelectorExpr:
			s, ok := info.Selections[x]
			if !ok || s.Kind() != types.FieldVal || len(s.Index()) != 1 {
				return ""
			}
			name = x.Sel.Name
			e = x.X
		case *ast.IndexExpr:
			e, name = x.X, ""
		case *ast.StarExpr:
			e, name = x.X, ""
		default:
			return name
		}
	}
}

// meets: the write through e may change the field of e's root variable.
func (f *Fr) meets(e ast.Expr, field string) bool {
	if field == "" {
		return true
	}
	if w := fieldOf(f.info, e); w != "" {
		return w == field
	}
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return true
	}
	// a method call on the variable
	hit := true
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && unparen(s.X) == id {
			if o := f.callee(c); o != nil {
				hit = f.t.writesField(o, field, 0)
			}
		}
		return true
	})
	return hit
}

// writesField: the method may change the field of its receiver.
func (t *Tr) writesField(o *types.Func, field string, depth int) bool {
	d := t.byObj[o]
	if d == nil || d.Decl.Body == nil || d.Decl.Recv == nil || depth > 4 {
		return true
	}
	recv := o.Type().(*types.Signature).Recv()
	info := d.Pkg.TypesInfo
	g := &Fr{t: t, info: info, fn: d}
	hit := false
	seen := map[*ast.Ident]bool{} // uses of the receiver as a whole field or callee
	ast.Inspect(d.Decl.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := unparen(s.X).(*ast.Ident)
		if !ok || info.Uses[id] != recv {
			return true
		}
		if sel, ok := info.Selections[s]; ok && (sel.Kind() == types.FieldVal || sel.Kind() == types.MethodVal) {
			seen[id] = true
			if sel.Kind() == types.MethodVal {
				m, ok := sel.Obj().(*types.Func)
				if !ok || (m != o && inRepo(m.Pkg()) && t.mutated(m)[0] && t.writesField(m, field, depth+1)) || !inRepo(m.Pkg()) {
					hit = true
				}
			}
		}
		return true
	})
	ast.Inspect(d.Decl.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.Ident:
			if info.Uses[y] == recv && !seen[y] {
				hit = true
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && rootObj(info, y.X) == recv {
				if w := fieldOf(info, y.X); w == "" || w == field {
					hit = true
				}
			}
		}
		return true
	})
	g.writes(d.Decl.Body, func(e ast.Expr) {
		if rootObj(info, e) != recv {
			return
		}
		if _, ok := unparen(e).(*ast.Ident); ok {
			return // a method call, seen above
		}
		if w := fieldOf(info, e); w == "" || w == field {
			hit = true
		}
	})
	return hit
}

// elemOrigin: the element of a slice that a pointer variable was taken from.
type elemOrigin struct {
	x    ast.Expr
	ix   string
	from token.Pos
}

// originOf: a variable that holds the pointer stored in x[ix].
func (f *Fr) originOf(v *Var, x ast.Expr, ix string, from token.Pos) {
	if v == nil || f.spec || !f.isLval(x) {
		return
	}
	if _, ok := types.Unalias(v.ty).Underlying().(*types.Pointer); ok {
		v.origin = &elemOrigin{x, ix, from}
	}
}

// writeElem: the object that the slice's element points to changes. The
// elements are taken to be different objects.
func (f *Fr) writeElem(x ast.Expr, ix, old, val string, n ast.Node) {
	bt := f.typeOf(x)
	base := f.expr(x)
	s := f.seqOf(base, bt)
	f.oblig("index in range", n, fmt.Sprintf("0 <= %s < (%s).len()", ix, s))
	f.oblig("the variable still holds the element", n, fmt.Sprintf("%s[%s as int] == %s", par(s), ix, par(old)))
	if f.fn != nil {
		f.t.trusted["pointers in "+types.ExprString(x)] = "taken to point to different objects (" + f.fn.Key + ")"
	}
	nv := fmt.Sprintf("%s.update(%s as int, Some(%s))", par(s), ix, val)
	if f.t.isSl(bt) {
		nv = fmt.Sprintf("Sl { d: %s, own: (%s).own, cf: (%s).cf }", nv, base, base)
	}
	f.assign(x, nv)
}

// checkOrigin: the variable is set once, nobody else gets the pointer, and the slice stays.
func (f *Fr) checkOrigin(o types.Object, at *elemOrigin, n ast.Node) {
	if f.fn == nil || f.fn.Decl == nil || f.fn.Decl.Body == nil {
		return
	}
	path := types.ExprString(at.x)
	ast.Inspect(f.fn.Decl.Body, func(m ast.Node) bool {
		switch y := m.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if id, ok := unparen(l).(*ast.Ident); ok && f.info.Uses[id] == o {
					bail("%s: write through pointer %s, which others may hold", f.pos(n), o.Name())
				}
				if l.Pos() > at.from && f.rootObj(l) == f.rootObj(at.x) {
					if q := types.ExprString(l); q == path || strings.HasPrefix(path, q+".") {
						bail("%s: write through pointer %s while %s changes", f.pos(n), o.Name(), path)
					}
				}
			}
			for _, r := range y.Rhs {
				if id, ok := unparen(r).(*ast.Ident); ok && f.info.Uses[id] == o {
					bail("%s: write through pointer %s, which others may hold", f.pos(n), o.Name())
				}
			}
		case *ast.CallExpr:
			for _, a := range y.Args {
				if id, ok := unparen(a).(*ast.Ident); ok && f.info.Uses[id] == o {
					bail("%s: write through pointer %s, which others may hold", f.pos(n), o.Name())
				}
			}
		case *ast.KeyValueExpr:
			if id, ok := unparen(y.Value).(*ast.Ident); ok && f.info.Uses[id] == o {
				bail("%s: write through pointer %s, which others may hold", f.pos(n), o.Name())
			}
		}
		return true
	})
}

// lastUse: the variable does not occur behind id, and id is not in a loop that the variable outlives.
func (f *Fr) lastUse(o types.Object, id *ast.Ident) bool {
	last := true
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			if y.Pos() <= id.Pos() && id.End() <= y.End() && !(y.Pos() <= o.Pos() && o.Pos() < y.End()) {
				last = false
			}
		case *ast.Ident:
			if f.info.ObjectOf(y) == o && y.Pos() > id.Pos() {
				last = false
			}
		}
		return true
	})
	return last
}

// exclusivePtr: the local pointer variable only ever holds fresh objects and
// nobody else gets hold of them while they change.
func (f *Fr) exclusivePtr(o types.Object, at ast.Node) {
	if f.fn == nil || f.fn.Decl == nil || f.fn.Decl.Body == nil {
		return
	}
	fresh := func(e ast.Expr) bool {
		switch x := unparen(e).(type) {
		case *ast.CallExpr:
			return true
		case *ast.UnaryExpr:
			_, ok := unparen(x.X).(*ast.CompositeLit)
			return x.Op == token.AND && ok
		case *ast.Ident:
			return x.Name == "nil"
		}
		return false
	}
	is := func(e ast.Expr) bool {
		id, ok := unparen(e).(*ast.Ident)
		return ok && f.info.ObjectOf(id) == o
	}
	var stack []ast.Node
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if f.untaken[n] {
			return false
		}
		var up ast.Node
		if len(stack) > 0 {
			up = stack[len(stack)-1]
		}
		stack = append(stack, n)
		id, ok := n.(*ast.Ident)
		if !ok || !is(id) {
			return true
		}
		switch p := up.(type) {
		case *ast.SelectorExpr, *ast.StarExpr, *ast.CallExpr, *ast.BinaryExpr, *ast.ReturnStmt, *ast.ValueSpec:
			if v, ok := p.(*ast.ValueSpec); ok {
				for i, l := range v.Names {
					if is(l) && i < len(v.Values) && !fresh(v.Values[i]) {
						bail("%s: write through pointer %s, which others may hold", f.pos(at), o.Name())
					}
				}
			}
			if c, ok := p.(*ast.CallExpr); ok {
				if b, ok := unparen(c.Fun).(*ast.Ident); ok && b.Name == "append" {
					if f.lastUse(o, id) {
						return true
					}
					break
				}
			}
			return true
		case *ast.AssignStmt:
			for i, l := range p.Lhs {
				if is(l) {
					if len(p.Rhs) == len(p.Lhs) && fresh(p.Rhs[i]) || len(p.Rhs) == 1 && fresh(p.Rhs[0]) {
						return true
					}
				}
			}
		}
		bail("%s: write through pointer %s, which others may hold", f.pos(at), o.Name())
		return true
	})
}
