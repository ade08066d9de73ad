package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// searchExit is one "if cond { ...; return/break }" of a search loop.
type searchExit struct {
	cond string // over j
	brk  bool
	eff  [][2]string // variable, value at the exit (over j)
}

// searchLoop recognizes loops that only look for an element: a sequence of
// definitions and "if cond { x = e; return ... / break }". For them the
// invariant is that no element before had the property, and what the loop
// leaves is known; both are proved like any invariant, and left out when they
// do not hold.
func (f *Fr) searchLoop(body *ast.BlockStmt, bind func(g *Fr)) (exits []searchExit) {
	if f.spec {
		return nil
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
			exits = nil
		}
	}()
	g := f.cloneSpec()
	g.spec = true
	bind(g)
	spec := func(s *Fr, fn func(h *Fr) string) string {
		h := s.cloneSpec()
		h.spec = true
		h.lets = append([]string{}, s.lets...)
		v := fn(h)
		return wrapLets(h.lets, v)
	}
	notYet := "true"
	for _, s := range body.List {
		switch x := s.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				return nil
			}
			g.assignStmt(x)
		case *ast.IfStmt:
			if x.Else != nil || len(x.Body.List) == 0 || !endsInJump(x.Body) {
				return nil
			}
			h := g.cloneSpec()
			h.spec = true
			h.lets = append([]string{}, g.lets...)
			if x.Init != nil {
				a, ok := x.Init.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE {
					return nil
				}
				h.assignStmt(a)
			}
			raw := spec(h, func(k *Fr) string { return k.expr(x.Cond) })
			ex := searchExit{cond: fmt.Sprintf("(%s && %s)", notYet, raw)}
			notYet = fmt.Sprintf("(%s && !(%s))", notYet, raw)
			n := len(x.Body.List) - 1
			for i, b := range x.Body.List {
				if i < n {
					a, ok := b.(*ast.AssignStmt)
					if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
						return nil
					}
					id, ok := a.Lhs[0].(*ast.Ident)
					if !ok {
						return nil
					}
					v := f.env[f.info.ObjectOf(id)]
					if v == nil {
						return nil
					}
					ex.eff = append(ex.eff, [2]string{v.name, spec(h, func(k *Fr) string { return k.exprTo(a.Rhs[0], v.ty) })})
					continue
				}
				switch y := b.(type) {
				case *ast.BranchStmt:
					if y.Tok != token.BREAK || y.Label != nil {
						return nil
					}
					ex.brk = true
				case *ast.ReturnStmt:
					if f.inline {
						if len(y.Results) != len(f.results) {
							return nil
						}
						for k, r := range y.Results {
							ex.eff = append(ex.eff, [2]string{f.results[k].name, spec(h, func(q *Fr) string { return q.exprTo(r, f.results[k].ty) })})
						}
					}
				}
			}
			exits = append(exits, ex)
		default:
			return nil
		}
	}
	return exits
}

var jRe = regexp.MustCompile(`\bsj\b`)

// searchSpec gives the invariants of a search loop: those that hold unless
// the loop is left by break, those that always hold, and what holds after it.
// cur is the element looked at when the loop is left, n how many have been
// looked at when it goes on.
func (f *Fr) searchSpec(exits []searchExit, n, cur, rng, elem, elemVT, done string) (pre []string, invX, inv, ens []string) {
	if len(exits) == 0 {
		return
	}
	var cs []string
	vars := map[string]string{}
	anyBrk := false
	var order []string
	for _, e := range exits {
		cs = append(cs, e.cond)
		for _, a := range e.eff {
			if _, ok := vars[a[0]]; !ok {
				vars[a[0]] = f.fresh("s0")
				order = append(order, a[0])
			}
		}
		anyBrk = anyBrk || e.brk
	}
	for _, v := range order {
		pre = append(pre, fmt.Sprintf("let ghost %s = %s;", vars[v], v))
	}
	any := strings.Join(cs, " || ")
	none := func(upto string) string {
		return fmt.Sprintf("(forall|sj: i64| #![auto] 0 <= sj < %s ==> !(%s))", upto, any)
	}
	same := "true"
	for _, v := range order {
		same += fmt.Sprintf(" && %s == %s", v, vars[v])
	}
	goOn := []string{none(n), same}
	// the same as a search function, when the test looks at the element only
	fn := ""
	if elem != "" {
		t := strings.ReplaceAll(any, elem, "sv_")
		if !jRe.MatchString(t) {
			fn = fmt.Sprintf("|sv_: %s| %s", elemVT, t)
		}
	}
	if fn != "" {
		goOn = append(goOn, fmt.Sprintf("first_index(%s, %s, 0) == first_index(%s, %s, %s)", rng, fn, rng, fn, n))
	}
	left := func(brkOnly bool) string {
		var alts []string
		for _, e := range exits {
			if brkOnly && !e.brk {
				continue
			}
			at := jRe.ReplaceAllString(e.cond, "("+cur+" as i64)")
			a := fmt.Sprintf("0 <= %s < %s.len() && %s && %s", cur, rng, at, none(cur))
			if fn != "" {
				a += fmt.Sprintf(" && first_index(%s, %s, 0) == %s", rng, fn, cur)
			}
			set := map[string]bool{}
			for _, x := range e.eff {
				a += fmt.Sprintf(" && %s == %s", x[0], jRe.ReplaceAllString(x[1], "("+cur+" as i64)"))
				set[x[0]] = true
			}
			for _, v := range order {
				if !set[v] {
					a += fmt.Sprintf(" && %s == %s", v, vars[v])
				}
			}
			alts = append(alts, "("+a+")")
		}
		return "(" + strings.Join(alts, " || ") + ")"
	}
	if done != "" {
		for _, g := range goOn {
			inv = append(inv, fmt.Sprintf("!%s ==> %s", done, g))
		}
		inv = append(inv, fmt.Sprintf("%s ==> %s", done, left(false)))
		if anyBrk {
			return nil, nil, nil, nil
		}
		return
	}
	if anyBrk {
		invX = goOn
		ens = append(ens, fmt.Sprintf("(%s >= %s.len() && %s) || %s", n, rng, strings.Join(goOn, " && "), left(true)))
		return
	}
	inv = goOn
	return
}

// guess is the set of invariants a loop is tried with besides its contract's.
type guess struct {
	invX, inv, ens []string
}

// setMaps: local maps whose values are only ever set to true, used as sets.
func (f *Fr) setMaps() []string {
	if f.fn == nil || f.fn.Decl == nil || f.fn.Decl.Body == nil {
		return nil
	}
	only := map[types.Object]bool{}
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for i, l := range a.Lhs {
			ix, ok := unparen(l).(*ast.IndexExpr)
			if !ok {
				continue
			}
			id, ok := unparen(ix.X).(*ast.Ident)
			if !ok {
				continue
			}
			o := f.info.ObjectOf(id)
			tv := f.info.Types[a.Rhs[min(i, len(a.Rhs)-1)]]
			ok = tv.Value != nil && tv.Value.String() == "true"
			if was, seen := only[o]; seen {
				ok = ok && was
			}
			only[o] = ok
		}
		return true
	})
	var out []string
	for o, ok := range only {
		v := f.env[o]
		if !ok || v == nil {
			continue
		}
		if m, isMap := o.Type().Underlying().(*types.Map); isMap {
			if b, isB := m.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				in := false
				for _, w := range f.vars {
					in = in || w == v
				}
				if in {
					out = append(out, fmt.Sprintf("forall|k: %s| #[trigger] %s.dom().contains(k) ==> %s[k]", f.t.vt(m.Key()), v.name, v.name))
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// counterInv: bounds of a counting loop's variable.
func (f *Fr) counterInv(x *ast.ForStmt) (pre []string, inv []string) {
	inc, ok := x.Post.(*ast.IncDecStmt)
	if !ok {
		return
	}
	id, ok := unparen(inc.X).(*ast.Ident)
	if !ok {
		return
	}
	o := f.info.ObjectOf(id)
	v := f.env[o]
	if v == nil {
		return
	}
	b, ok := v.ty.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	for _, w := range f.modified(x.Body) {
		if w == o {
			return
		}
	}
	s0 := f.fresh("s0")
	pre = append(pre, fmt.Sprintf("let ghost %s = %s;", s0, v.name))
	if inc.Tok == token.INC {
		inv = append(inv, fmt.Sprintf("%s <= %s", s0, v.name))
		if l := lenBoundOf(f.info, x); l != nil {
			free := true
			for _, w := range f.modified(x.Body) {
				free = free && w != f.rootObj(l)
			}
			if free && f.rootObj(l) != nil {
				if n := f.specText(l); n != "" {
					inv = append(inv, fmt.Sprintf("%s <= (%s).len() ==> %s <= (%s).len()", s0, n, v.name, n))
				}
			}
		}
	} else {
		inv = append(inv, fmt.Sprintf("%s >= %s", s0, v.name))
	}
	return
}

// specText is a slice expression as pure text, "" when it is not pure.
func (f *Fr) specText(e ast.Expr) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			s = ""
		}
	}()
	g := f.cloneSpec()
	g.spec = true
	v := g.expr(e)
	if len(g.lets) > 0 {
		return ""
	}
	return f.seqOf(v, f.typeOf(e))
}

// rawText is an expression as pure text in an environment.
func rawText(g *Fr, e ast.Expr) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			s = ""
		}
	}()
	h := g.cloneSpec()
	h.spec = true
	v := h.expr(e)
	if len(h.lets) > 0 {
		return ""
	}
	return v
}

// lenBound: the slice whose length bounds a counting loop, as an expression.
func lenBound(info *types.Info, x *ast.ForStmt) ast.Expr {
	be, ok := unparen(x.Cond).(*ast.BinaryExpr)
	if !ok || (be.Op != token.LSS && be.Op != token.NEQ) {
		return nil
	}
	c, ok := unparen(be.Y).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil
	}
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok {
		return nil
	}
	if b, ok := info.ObjectOf(id).(*types.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	inc, ok := x.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return nil
	}
	l, ok := unparen(be.X).(*ast.Ident)
	r, ok2 := unparen(inc.X).(*ast.Ident)
	if !ok || !ok2 || info.ObjectOf(l) != info.ObjectOf(r) {
		return nil
	}
	return c.Args[0]
}

func lenBoundOf(info *types.Info, x *ast.ForStmt) ast.Expr {
	if x.Cond == nil || x.Post == nil {
		return nil
	}
	return lenBound(info, x)
}
