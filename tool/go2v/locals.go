package main

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
)

// locals lists the variables a function declares, in source order.
func (t *Tr) locals(d *FnDecl) [][2]string {
	var out [][2]string
	seen := map[string]bool{}
	sig := d.Obj.Type().(*types.Signature)
	skip := map[types.Object]bool{}
	for _, p := range fnParams(d.Obj) {
		skip[p] = true
	}
	for i := 0; i < sig.Results().Len(); i++ {
		skip[sig.Results().At(i)] = false
	}
	ast.Inspect(d.Decl, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" {
			return true
		}
		v, ok := d.Pkg.TypesInfo.Defs[id].(*types.Var)
		if !ok || v.IsField() || skip[v] || seen[id.Name] {
			return true
		}
		seen[id.Name] = true
		out = append(out, [2]string{id.Name, types.TypeString(v.Type(), func(p *types.Package) string { return pkgAlias(p) })})
		return true
	})
	return out
}

// record writes the locals of all functions under contract.
func (t *Tr) record(path string) {
	m := map[string][][2]string{}
	for k := range t.contracts {
		if d := t.fns[k]; d != nil && d.Decl.Body != nil {
			if l := t.locals(d); len(l) > 0 {
				m[k] = l
			}
		}
	}
	// all functions there are: those that come later are helpers
	var all []string
	for k := range t.fns {
		all = append(all, k)
	}
	sort.Strings(all)
	for _, k := range all {
		m["*"] = append(m["*"], [2]string{k, ""})
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString("{")
	for i, k := range ks {
		if i > 0 {
			b.WriteString(",")
		}
		a, _ := json.Marshal(k)
		c, _ := json.Marshal(m[k])
		b.WriteString("\n" + string(a) + ": " + string(c))
	}
	b.WriteString("\n}\n")
	os.WriteFile(path, []byte(b.String()), 0o644)
}

func (t *Tr) loadRecord(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	m := map[string][][2]string{}
	if json.Unmarshal(b, &m) != nil {
		return
	}
	t.known = map[string]bool{}
	for _, k := range m["*"] {
		t.known[k[0]] = true
	}
	for k, l := range m {
		if c := t.contracts[k]; c != nil {
			c.Recorded = l
		}
	}
}

// renamed matches the local names the contract was written for, where the
// function no longer has them, with the function's new locals of that type,
// in order. (A wrong guess can only lose a proof.)
func (t *Tr) renamed(f *Fr) map[string]string {
	if f == nil || f.ctr == nil || f.fn == nil || len(f.ctr.Recorded) == 0 {
		return nil
	}
	if r, ok := t.renames[f.key()]; ok {
		return r
	}
	now, was := map[string]bool{}, map[string]bool{}
	cur := t.locals(f.fn)
	for _, l := range cur {
		now[l[0]] = true
	}
	for _, l := range f.ctr.Recorded {
		was[l[0]] = true
	}
	r := map[string]string{}
	used := map[string]bool{}
	for _, l := range f.ctr.Recorded {
		if now[l[0]] {
			continue
		}
		for _, n := range cur {
			if !was[n[0]] && !used[n[0]] && n[1] == l[1] {
				r[l[0]] = n[0]
				used[n[0]] = true
				break
			}
		}
	}
	if t.renames == nil {
		t.renames = map[string]map[string]string{}
	}
	t.renames[f.key()] = r
	return r
}

// newHelper: the function came after the contracts were written; its body is
// read in place, where the code stood before.
func (t *Tr) newHelper(d *FnDecl) bool {
	return len(t.known) > 0 && !t.known[d.Key] && t.contracts[d.Key] == nil
}

// tryInline reads a call in place unless that needs something unsupported.
func (f *Fr) tryInline(d *FnDecl, o *types.Func, c *ast.CallExpr) (rs []string, ok bool) {
	lines, loops, vars := len(f.wr.lines), *f.loops, len(f.vars)
	var inl []string
	obl := 0
	if f.finfo != nil {
		inl, obl = f.finfo.Inlined, f.finfo.Obl
	}
	defer func() {
		if e := recover(); e != nil {
			if _, un := e.(unsupported); !un {
				panic(e)
			}
			f.wr.lines = f.wr.lines[:lines]
			*f.loops = loops
			f.vars = f.vars[:vars]
			if f.finfo != nil {
				f.finfo.Inlined, f.finfo.Obl = inl, obl
			}
			rs, ok = nil, false
		}
	}()
	return f.inlineCall(d, o, c), true
}

// outOfScope matches names of the contract that mean nothing at this point
// (the code moved into a helper) with the helper's variables, by type and
// order.
func (f *Fr) outOfScope() map[string]string {
	top := f.top
	if top == nil || top.ctr == nil || len(top.ctr.Recorded) == 0 {
		return nil
	}
	was, in := map[string]bool{}, map[string]bool{}
	for _, l := range top.ctr.Recorded {
		was[l[0]] = true
	}
	for _, v := range f.vars {
		in[v.goName] = true
	}
	ren := f.t.renamed(top)
	used := map[*Var]bool{}
	r := map[string]string{}
	for _, l := range top.ctr.Recorded {
		if in[l[0]] || (ren[l[0]] != "" && in[ren[l[0]]]) {
			continue
		}
		for _, v := range f.vars {
			if v.goName == "" || was[v.goName] || used[v] || top.cnames[v.goName] != "" {
				continue
			}
			if types.TypeString(v.ty, func(p *types.Package) string { return pkgAlias(p) }) == l[1] {
				used[v] = true
				r[l[0]] = f.asRecorded(v, l[0])
				break
			}
		}
	}
	return r
}

// asRecorded is a variable the way the contract knows it: its own function's
// pointers are options where a helper's are what they point to.
func (f *Fr) asRecorded(v *Var, name string) string {
	if !v.deref || f.top == nil || f.top.ctr == nil || f.fn == f.top.fn {
		return v.name
	}
	for _, l := range f.top.ctr.Recorded {
		if l[0] == name && strings.HasPrefix(l[1], "*") {
			return "Some(" + v.name + ")"
		}
	}
	return v.name
}

// beforeLocals says whether the text names a local variable that is declared
// further down: it has nothing to say at this return.
func (f *Fr) beforeLocals(text string) bool {
	if f.fn == nil || f.fn.Decl == nil || f.fn.Decl.Body == nil {
		return false
	}
	have := map[string]bool{}
	for _, v := range f.vars {
		have[v.goName] = true
	}
	ren := f.t.renamed(f.top)
	ids := idents(text)
	found := false
	ast.Inspect(f.fn.Decl.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || found {
			return !found
		}
		if v, ok := f.info.Defs[id].(*types.Var); ok && !v.IsField() && !have[id.Name] {
			for n := range ids {
				if n == id.Name || ren[n] == id.Name {
					found = id.Pos() > f.retPos && f.retPos.IsValid()
				}
			}
		}
		return !found
	})
	return found
}
