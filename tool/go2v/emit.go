package main

import (
	"fmt"
	"go/types"
	"strings"
)

// setup declares the parameters and results of a function being translated
// for execution.
func (f *Fr) setup(d *FnDecl) {
	ps := fnParams(d.Obj)
	mut := f.t.mutated(d.Obj)
	f.old = map[string]string{}
	f.cnames = map[string]string{}
	f.pnames = map[types.Object]string{}
	for i, p := range ps {
		_, ref := byRef(p.Type())
		v := f.declare(p, p.Name(), p.Type(), ref, fmt.Sprintf("%s@", pname(i, p)))
		v.param = true
		v.borrow = !mut[i]
		cn := p.Name()
		if f.ctr != nil && i < len(f.ctr.Params) {
			cn = f.ctr.Params[i]
		}
		if cn != "" && cn != "_" {
			f.old[cn] = pname(i, p) + "@"
			f.cnames[cn] = v.name
			f.pnames[p] = cn
		}
		if mut[i] {
			f.inouts = append(f.inouts, v)
		}
	}
	sig := d.Obj.Type().(*types.Signature)
	f.named = sig.Results().Len() > 0 && sig.Results().At(0).Name() != ""
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if f.named {
			f.results = append(f.results, f.declare(r, r.Name(), r.Type(), false, f.t.zero(r.Type())))
		} else {
			f.results = append(f.results, &Var{obj: r, ty: r.Type()})
		}
	}
}

func pname(i int, p *types.Var) string {
	if p.Name() == "" || p.Name() == "_" {
		return fmt.Sprintf("p%d", i)
	}
	return fmt.Sprintf("p%d_%s", i, p.Name())
}

// letBind binds the names a clause uses.
func letBind(text string, pairs [][2]string) string {
	ids := idents(text)
	var b strings.Builder
	for _, p := range pairs {
		if ids[p[0]] {
			fmt.Fprintf(&b, "let %s = %s; ", p[0], p[1])
		}
	}
	if b.Len() == 0 {
		return "(" + oneLine(text) + ")"
	}
	return "({ " + b.String() + oneLine(text) + " })"
}

// emitFn generates the Verus function of a job.
func (t *Tr) emitFn(j *job) {
	d := t.fns[j.key]
	ctr := t.contracts[j.key]
	if d == nil {
		t.issues = append(t.issues, Issue{j.key, "", "the function under contract no longer exists"})
		return
	}
	fi := &FnInfo{Fn: j.vname, Go: t.declPos(d), Contract: ctr != nil}
	fi.Lines = t.fset.Position(d.Decl.End()).Line - t.fset.Position(d.Decl.Pos()).Line + 1
	t.fnInfo = append(t.fnInfo, fi)
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			t.issues = append(t.issues, Issue{j.key, fi.Go, u.msg})
		}
	}()
	defer t.withSubst(j.subst)()
	ps := fnParams(d.Obj)
	if ctr != nil && len(ctr.Params) != len(ps) {
		bail("the contract names %d parameters, the function has %d", len(ctr.Params), len(ps))
	}
	sig := d.Obj.Type().(*types.Signature)
	inout := t.inouts(d.Obj)
	nres := sig.Results().Len()
	if ctr != nil && len(ctr.Results) > nres {
		bail("the contract names %d results, the function has %d", len(ctr.Results), nres)
	}
	if ctr != nil && ctr.Returns != nil {
		t.pureFn(d, j.subst)
	}
	n, l := 0, 0
	f := &Fr{t: t, fn: d, info: d.Pkg.TypesInfo, env: map[types.Object]*Var{}, n: &n, loops: &l, ctr: ctr, finfo: fi, wr: &writer{}}
	f.top = f
	f.vname = j.vname

	var args, pats []string
	var preBind, postBind [][2]string
	for i, p := range ps {
		args = append(args, fmt.Sprintf("%s: Ghost<%s>", pname(i, p), t.paramVT(p.Type())))
		pats = append(pats, pname(i, p)+"@")
		if ctr != nil {
			preBind = append(preBind, [2]string{ctr.Params[i], pname(i, p) + "@"})
		}
	}
	nr := nres + len(inout)
	if ctr != nil {
		rs := splitTuple("res@", nr)
		for i, r := range ctr.Results {
			postBind = append(postBind, [2]string{r, rs[i]})
		}
		for k, i := range inout {
			postBind = append(postBind, [2]string{ctr.Params[i] + "_out", rs[nres+k]})
		}
		if len(inout) > 0 && nr == 1 {
			postBind[len(postBind)-1][1] = "res@"
		}
		// a parameter that is never written comes out as it went in
		given := map[int]bool{}
		for _, i := range inout {
			given[i] = true
		}
		for i := range ps {
			if !given[i] {
				postBind = append(postBind, [2]string{ctr.Params[i] + "_out", pname(i, ps[i]) + "@"})
			}
		}
		postBind = append(append([][2]string{}, preBind...), postBind...)
	}
	gens := t.generics(d, j.subst)
	head := func(name string) {
		f.emit("pub fn %s%s(%s) -> (res: Ghost<%s>)", name, gens, strings.Join(args, ", "), t.resTuple(d.Obj))
	}
	reqs := func() {
		if ctr == nil || len(ctr.Req) == 0 {
			return
		}
		f.emit("    requires")
		for _, c := range ctr.Req {
			f.emitL(Label{f.key(), "requires " + c.Pos, "", oneLine(c.Text)}, "        %s,", letBind(c.Text, preBind))
		}
	}
	trusted := ctr != nil && ctr.Trusted != ""
	if trusted {
		f.emit("#[verifier::external_body]")
		fi.Trusted = ctr.Trusted
		t.trusted[j.key] = ctr.Trusted
	}
	attrs := len(f.wr.lines)
	f.emit("#[verifier::loop_isolation(false)]")
	if ctr != nil {
		for _, l := range ctr.Loops {
			if len(l.InvX)+len(l.Ens) > 0 {
				f.complex = true
			}
		}
	}
	if ctr != nil && ctr.Rlimit != "" {
		f.emit("#[verifier::rlimit(%s)]", ctr.Rlimit)
	}
	if ctr != nil && ctr.Spinoff {
		f.emit("#[verifier::spinoff_prover]")
	}
	head(j.vname)
	reqs()
	if ctr != nil {
		fi.Req = len(ctr.Req)
	}
	if ctr != nil && (len(ctr.Ens) > 0 || ctr.Returns != nil) {
		f.emit("    ensures")
		if ctr.Returns != nil {
			fi.Ens++
			fi.Obl++
			f.emitL(Label{f.key(), "postcondition " + ctr.Returns.Pos, "", "returns " + oneLine(ctr.Returns.Text)}, "        res@ == %s_s(%s),", j.vname, strings.Join(pats, ", "))
		}
		for _, c := range ctr.Ens {
			fi.Ens++
			fi.Obl++
			f.emitL(Label{f.key(), "postcondition " + c.Pos, "", oneLine(c.Text)}, "        %s,", letBind(c.Text, postBind))
		}
	}
	if ctr != nil && ctr.RecDec != nil {
		f.emit("    decreases %s,", letBind(ctr.RecDec.Text, preBind))
	}
	f.emitL(Label{f.key(), "function", fi.Go, ""}, "{")
	if trusted {
		f.emit("    unimplemented!()")
		f.emit("}")
	} else {
		if ctr != nil {
			for _, h := range ctr.HideSpec {
				f.emit("hide(%s);", h)
			}
		}
		f.setup(d)
		if ctr != nil && ctr.Opaque && ctr.Returns != nil {
			f.emit("proof { reveal(%s_s); }", j.vname)
		}
		if ctr != nil && ctr.Assume != "" {
			t.trusted[j.key] = "its body assumes " + oneLine(ctr.Assume)
			f.emit("proof { assume(%s); }", letBind(ctr.Assume, preBind))
		}
		if ctr != nil {
			for _, g := range ctr.Ghost {
				i := strings.Index(g.Text, "=")
				if i < 0 {
					bail("%s: ghost without value", g.Pos)
				}
				f.emit("let ghost mut %s = ({ %s%s });", strings.TrimSpace(g.Text[:i]), f.bindings(g.Text[i+1:], nil), oneLine(strings.TrimSpace(g.Text[i+1:])))
			}
			f.hook(ctr.Entry, nil)
		}
		f.block(d.Decl.Body.List)
		if nres == 0 {
			f.ret(nil)
		} else {
			f.emit("go_unreached()")
		}
		f.emit("}")
	}
	// vacuity probe: the precondition must be satisfiable
	if ctr != nil && (len(ctr.Req) > 0 || ctr.Assume != "") {
		f.emit("pub fn probe_%s%s(%s)", j.vname, gens, strings.Join(args, ", "))
		reqs()
		asm := ""
		if ctr.Assume != "" {
			asm = "assume(" + letBind(ctr.Assume, preBind) + "); "
		}
		f.emitL(Label{f.key(), "probe", "", ""}, "{ proof { %sassert(false); } }", asm)
	}
	if f.complex {
		f.wr.lines[attrs].s += " #[verifier::allow_complex_invariants]"
	}
	t.wr.lines = append(t.wr.lines, f.wr.lines...)
}

func (t *Tr) declPos(d *FnDecl) string {
	p := t.fset.Position(d.Decl.Pos())
	return strings.TrimPrefix(p.Filename, repoDir+"/") + fmt.Sprintf(":%d", p.Line)
}
