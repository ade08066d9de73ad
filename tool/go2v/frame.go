package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
)

// FnDecl is a function of the repository with its syntax.
type FnDecl struct {
	Key  string
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *packages.Package
}

// Tr is the translation of one property's crate.
type Tr struct {
	fset         *token.FileSet
	fns          map[string]*FnDecl
	byObj        map[*types.Func]*FnDecl
	contracts    map[string]*Contract
	structs      map[string]string
	structFields map[string][][2]string
	zeros        map[string]bool
	zeroDefs     string
	needErr      bool
	tsubst       map[*types.TypeParam]types.Type
	rvRank       map[string]int
	loops        map[*ast.ForStmt]*ast.ForStmt
	inspects     map[*ast.CallExpr]*ast.RangeStmt

	queue    []*job
	done     map[string]bool
	out      []string
	labels   map[int]Label
	pure     map[string]*pureInfo
	specOut  []string
	lams     int
	lamOut   []string
	issues   []Issue
	inlineN  map[string]int
	fnInfo   []*FnInfo
	trusted  map[string]string
	libUsed  map[string]bool
	pkgVars  map[*types.Var]string
	pkgs     []*packages.Package
	loopless bool

	mutMemo      map[*types.Func][]bool
	panicMemo    map[string]bool
	assignedVars map[types.Object]bool
	axioms       []string
	reNames      map[string]string
	errTypes     map[string]bool
	specNames    map[string]*FnDecl
	typeNames    map[string]types.Type
	wr           *writer
	drop         map[string]bool
	renames      map[string]map[string]string
	known        map[string]bool
}

// Label describes the obligation on one generated line.
type Label struct {
	Fn   string `json:"fn"`
	Kind string `json:"kind"`
	Go   string `json:"go"`
	Text string `json:"text"`
}

// Issue is a translation failure: the function's obligations stay undischarged.
type Issue struct {
	Fn, Pos, Msg string
}

// FnInfo is what the evidence reports about one function.
type FnInfo struct {
	Fn       string
	Go       string
	Contract bool
	Trusted  string
	Auto     bool
	Req, Ens int
	Loops    int
	Obl      int
	Inlined  []string
	FirstLn  int
	LastLn   int
	Lines    int
}

type job struct {
	key   string
	subst map[*types.TypeParam]types.Type
	vname string
	auto  bool
}

type pureInfo struct {
	state  int // 1 in progress, 2 pure, 3 not pure
	name   string
	why    string
	inout  []int // indexes of params (receiver = -1) threaded out
	effect bool
}

type Var struct {
	goName string
	obj    types.Object
	name   string
	ty     types.Type
	deref  bool // pointer held as the pointee's value
	lam    *ast.FuncLit
	lamFr  *Fr
	param  bool
	borrow bool
	under  *Var
	origin *elemOrigin
}

type Fr struct {
	untaken map[ast.Node]bool // cases of type switches that this instance never takes
	t       *Tr
	fn      *FnDecl
	top     *Fr
	info    *types.Info
	spec    bool
	env     map[types.Object]*Var
	vars    []*Var
	lets    []string
	n       *int
	loops   *int
	ctr     *Contract
	cnames  map[string]string // contract param name -> verus name (current)
	finfo   *FnInfo
	loopIx  []loopCtx
	// results
	results       []*Var
	named         bool
	inouts        []*Var
	inline        bool
	doneVar       string
	depth         int
	deferred      []*ast.CallExpr
	mayRet        bool
	wr            *writer
	postStmt      ast.Stmt
	old           map[string]string
	vname         string
	inlined       map[string]bool
	retPos        token.Pos // of the return being translated
	oblOff        bool
	inSpecClosure bool
	brk           func(*Fr) string
	swBrk         string
	inSwitch      bool
	pnames        map[types.Object]string
	inlineStack   map[string]bool
	complex       bool // invariants that a break may leave
}

type loopCtx struct {
	idx, rng string
	post     func()
}

type writer struct {
	lines []wline
}
type wline struct {
	s string
	l *Label
}

func (f *Fr) emit(format string, a ...any) {
	if f.spec {
		panic(unsupported{"effect in pure code: " + fmt.Sprintf(format, a...)})
	}
	f.wr.lines = append(f.wr.lines, wline{fmt.Sprintf(format, a...), nil})
}

func (f *Fr) emitL(l Label, format string, a ...any) {
	if f.spec {
		return
	}
	f.wr.lines = append(f.wr.lines, wline{fmt.Sprintf(format, a...), &l})
}

func (f *Fr) pos(n ast.Node) string {
	if n == nil {
		return ""
	}
	p := f.t.fset.Position(n.Pos())
	return strings.TrimPrefix(p.Filename, repoDir+"/") + fmt.Sprintf(":%d", p.Line)
}

// oblig emits a proof obligation (panic freedom); pure code is checked in
// its own executable copy.
func (f *Fr) oblig(kind string, n ast.Node, cond string) {
	if f.spec || f.oblOff {
		return
	}
	if f.finfo != nil {
		f.finfo.Obl++
	}
	f.emitL(Label{f.top.key(), kind, f.pos(n), cond}, "proof { assert(%s); }", cond)
}

func (f *Fr) key() string {
	if f.fn == nil {
		return "?"
	}
	return f.fn.Key
}

func (f *Fr) fresh(base string) string {
	*f.n++
	b := base
	if b == "" || b == "_" {
		b = "t"
	}
	return fmt.Sprintf("%s_%d", b, *f.n)
}

func (f *Fr) declare(obj types.Object, name string, ty types.Type, deref bool, init string) *Var {
	v := &Var{goName: name, obj: obj, ty: ty, deref: deref}
	v.name = f.fresh(name)
	vt := ""
	if deref {
		vt = f.t.vt(types.Unalias(ty).(*types.Pointer).Elem())
	} else {
		vt = f.t.vt(ty)
	}
	if f.spec {
		f.lets = append(f.lets, fmt.Sprintf("let %s: %s = %s;", v.name, vt, init))
	} else {
		f.emit("let ghost mut %s: %s = %s;", v.name, vt, init)
	}
	if obj != nil {
		f.env[obj] = v
	}
	f.vars = append(f.vars, v)
	return v
}

func (f *Fr) setVar(v *Var, val string) {
	if val == v.name {
		return
	}
	if f.spec {
		nv := *v
		nv.name = f.fresh(v.goName)
		f.lets = append(f.lets, fmt.Sprintf("let %s = %s;", nv.name, val))
		*v = nv
		return
	}
	f.emit("proof { %s = %s; }", v.name, val)
}

func (f *Fr) tmp(val string) string {
	n := f.fresh("t")
	if f.spec {
		f.lets = append(f.lets, fmt.Sprintf("let %s = %s;", n, val))
	} else {
		f.emit("let ghost %s = %s;", n, val)
	}
	return n
}

// cloneEnv gives a branch its own view of the variables (pure mode).
func (f *Fr) cloneSpec() *Fr {
	g := *f
	g.env = map[types.Object]*Var{}
	m := map[*Var]*Var{}
	for o, v := range f.env {
		nv := *v
		g.env[o] = &nv
		m[v] = &nv
	}
	g.vars = nil
	for _, v := range f.vars {
		if nv, ok := m[v]; ok {
			g.vars = append(g.vars, nv)
		} else {
			nv := *v
			m[v] = &nv
			g.vars = append(g.vars, &nv)
		}
	}
	conv := func(vs []*Var) []*Var {
		var out []*Var
		for _, v := range vs {
			if nv, ok := m[v]; ok {
				out = append(out, nv)
			} else {
				nv := *v
				m[v] = &nv
				out = append(out, &nv)
			}
		}
		return out
	}
	g.results = conv(f.results)
	g.inouts = conv(f.inouts)
	g.lets = nil
	return &g
}

func (f *Fr) typeOf(e ast.Expr) types.Type {
	if tv, ok := f.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	bail("no type for expression at %s", f.pos(e))
	return nil
}

// bind wraps contract text so that Go names denote the current state.
func (f *Fr) bindings(text string, extra map[string]string) string {
	ids := idents(text)
	var b strings.Builder
	seen := map[string]bool{}
	put := func(n, v string) {
		if !ids[n] {
			n = fieldName(n)
		}
		if ids[n] && !seen[n] {
			seen[n] = true
			if n != v {
				fmt.Fprintf(&b, "let %s = %s; ", n, v)
			}
		}
	}
	for _, n := range keys(extra) {
		v := extra[n]
		if ids[n] {
			put(n, v)
		}
	}
	top := f.top
	for _, n := range keys(top.old) {
		v := top.old[n]
		put("old_"+n, v)
	}
	for _, n := range keys(top.cnames) {
		v := top.cnames[n]
		if vv := f.findVarName(v); vv != "" {
			put(n, vv)
		} else {
			put(n, v)
		}
	}
	for i := len(f.loopIx) - 1; i >= 0; i-- {
		l := f.loopIx[i]
		d := len(f.loopIx) - 1 - i
		sfx := ""
		if d > 0 {
			sfx = fmt.Sprint(d)
		}
		put("IDX"+sfx, l.idx)
		if l.rng != "" {
			put("RNG"+sfx, l.rng)
		}
	}
	for i := len(f.vars) - 1; i >= 0; i-- {
		v := f.vars[i]
		put(v.goName, f.asRecorded(v, v.goName))
	}
	ren := f.t.renamed(top)
	for _, n := range keys(ren) {
		m := ren[n]
		if ids[n] && !seen[n] {
			for i := len(f.vars) - 1; i >= 0; i-- {
				if f.vars[i].goName == m {
					put(n, f.asRecorded(f.vars[i], n))
					break
				}
			}
		}
	}
	outs := f.outOfScope()
	for _, n := range keys(outs) {
		put(n, outs[n])
	}
	if f.ctr != nil {
		for _, n := range keys(f.ctr.Locals) {
			tyn := f.ctr.Locals[n]
			if ids[n] && !seen[n] {
				var cand []*Var
				for _, v := range f.vars {
					if types.TypeString(v.ty, func(p *types.Package) string { return pkgAlias(p) }) == tyn && !f.namedInContract(v.goName) {
						cand = append(cand, v)
					}
				}
				if len(cand) >= 1 {
					put(n, cand[0].name)
				}
			}
		}
	}
	return b.String()
}

func (f *Fr) namedInContract(n string) bool {
	if f.ctr == nil {
		return false
	}
	_, ok := f.ctr.Locals[n]
	return ok
}

// findVarName resolves a parameter variable's current verus name.
func (f *Fr) findVarName(n string) string { return "" }

func (f *Fr) bound(c Clause, extra map[string]string) string {
	b := f.bindings(c.Text, extra)
	txt := oneLine(c.Text)
	if b == "" {
		return "(" + txt + ")"
	}
	return "({ " + b + txt + " })"
}

func oneLine(s string) string { // comments dropped
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		out = append(out, strings.TrimSpace(l))
	}
	return strings.Join(out, " ")
}

func (f *Fr) hook(c Clause, extra map[string]string) {
	if c.Text == "" || f.spec {
		return
	}
	b := f.bindings(c.Text, extra)
	f.emit("proof { %s", b)
	for i, st := range splitStmts(oneLine(c.Text)) {
		pos := fmt.Sprintf("%s#%d", c.Pos, i+1)
		if f.t.drop[pos] {
			continue
		}
		f.emitL(Label{f.top.key(), "proof hint " + pos, "", st}, "  %s", st)
	}
	f.emit("}")
}
