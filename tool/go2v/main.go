// go2v translates functions of the Go repository, with their contracts, into
// a Verus crate. It is re-run on the current source by every check.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

var repoDir = "/repo"

// Report is the side output of a translation.
type Report struct {
	Labels  map[int]Label     `json:"labels"`
	Issues  []Issue           `json:"issues"`
	Fns     []*FnInfo         `json:"fns"`
	Trusted map[string]string `json:"trusted"`
	Lib     []string          `json:"lib"`
	Unused  []string          `json:"unused"`
	Probes  int               `json:"probes"`
}

func main() {
	cdir := flag.String("contracts", "/verif/contracts", "contract directory")
	fns := flag.String("fns", "", "comma separated functions")
	theories := flag.String("theory", "", "comma separated .rs files")
	out := flag.String("o", "", "output crate")
	rep := flag.String("json", "", "report")
	dropped := flag.String("drop", "", "proof aids to leave out (contract file:line)")
	recOut := flag.String("record", "", "record the locals of the functions under contract in this file")
	list := flag.Bool("list", false, "list functions")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off")}
	if cliWanted(*fns) || *recOut != "" || *list {
		ov, err := cliOverlay(repoDir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cfg.Overlay = ov
		if d := os.Getenv("GO2V_CLI"); d != "" {
			for n, b := range ov {
				os.WriteFile(filepath.Join(d, filepath.Base(n)), b, 0o644)
			}
		}
	}
	pkgs, err := packages.Load(cfg, "./internal/...", "./pkg/...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad || len(pkgs) == 0 {
		os.Exit(2)
	}
	t := &Tr{fset: pkgs[0].Fset, fns: map[string]*FnDecl{}, byObj: map[*types.Func]*FnDecl{}, structs: map[string]string{}, structFields: map[string][][2]string{}, zeros: map[string]bool{}, done: map[string]bool{}, labels: map[int]Label{}, pure: map[string]*pureInfo{}, inlineN: map[string]int{}, trusted: map[string]string{}, libUsed: map[string]bool{}, pkgVars: map[*types.Var]string{}, pkgs: pkgs, mutMemo: map[*types.Func][]bool{}, panicMemo: map[string]bool{}, reNames: map[string]string{}, errTypes: map[string]bool{}, specNames: map[string]*FnDecl{}, typeNames: map[string]types.Type{}, wr: &writer{}}
	for _, p := range pkgs {
		for _, file := range p.Syntax {
			if strings.HasSuffix(t.fset.Position(file.Pos()).Filename, "_test.go") {
				continue
			}
			for _, dd := range file.Decls {
				fd, ok := dd.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, ok := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				k := pkgAlias(p.Types) + "."
				if r := obj.Type().(*types.Signature).Recv(); r != nil {
					rt := types.Unalias(r.Type())
					if pt, ok := rt.(*types.Pointer); ok {
						rt = types.Unalias(pt.Elem())
					}
					if nm, ok := rt.(*types.Named); ok {
						k += nm.Obj().Name() + "."
					}
				}
				k += fd.Name.Name
				if fd.Name.Name == "init" {
					continue
				}
				d := &FnDecl{Key: k, Obj: obj, Decl: fd, Pkg: p}
				t.fns[k] = d
				t.byObj[obj] = d
				t.specNames[strings.NewReplacer(".", "_", "/", "_").Replace(k)+"_s"] = d
			}
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() == 0 {
				t.typeNames[typeName(tn)] = nm
			}
		}
	}
	if *list {
		var ks []string
		for k := range t.fns {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	t.contracts, err = LoadContracts(*cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *recOut != "" {
		t.record(*recOut)
		return
	}
	t.loadRecord(filepath.Join(*cdir, "locals.json"))
	t.drop = map[string]bool{}
	for _, d := range strings.Split(*dropped, ",") {
		t.drop[d] = true
	}
	delete(t.drop, "")
	for _, c := range t.contracts {
		c.Drop(t.drop)
	}
	t.collectErrTypes()
	prelude, err := os.ReadFile(filepath.Join(*cdir, "prelude.rs"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	type thFile struct{ name, text string }
	var ths []thFile
	seen := map[string]bool{}
	var addTheory func(n string)
	addTheory = func(n string) {
		n = strings.TrimSpace(n)
		if n == "" || seen[n] {
			return
		}
		seen[n] = true
		b, err := os.ReadFile(filepath.Join(*cdir, n))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, line := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(line, "// include ") {
				for _, m := range strings.Split(strings.TrimPrefix(line, "// include "), ",") {
					addTheory(m)
				}
			}
		}
		ths = append(ths, thFile{n, expandLits(string(b))})
	}
	for _, n := range strings.Split(*theories, ",") {
		addTheory(n)
	}
	for _, th := range ths {
		t.demand(th.text)
	}
	for k, c := range t.contracts {
		if d := t.fns[k]; c.World && d != nil {
			worldFns[d.Obj] = true
		}
	}
	for _, k := range strings.Split(*fns, ",") {
		k = strings.TrimSpace(k)
		if k == "" {
			continue
		}
		inst := ""
		if i := strings.Index(k, "["); i > 0 {
			k, inst = k[:i], strings.TrimSuffix(k[i+1:], "]")
		}
		d := t.fns[k]
		if d == nil {
			t.issues = append(t.issues, Issue{k, "", "the function under contract no longer exists"})
			continue
		}
		if inst == "" {
			t.enqueue(&job{key: k, vname: t.fnName(d, nil)})
			continue
		}
		// one instance of a generic function
		sub := t.instanceOf(d, inst)
		if sub == nil {
			t.issues = append(t.issues, Issue{k, "", "no instance for " + inst})
			continue
		}
		t.enqueue(&job{key: k, subst: sub, vname: t.fnName(d, sub)})
	}
	scanned := 0
	for len(t.queue) > 0 || scanned < len(t.specOut) {
		for scanned < len(t.specOut) {
			s := t.specOut[scanned]
			scanned++
			t.demand(s)
		}
		if len(t.queue) == 0 {
			continue
		}
		j := t.queue[0]
		t.queue = t.queue[1:]
		if c := t.contracts[j.key]; c != nil {
			t.demandContract(c)
		}
		t.emitFn(j)
	}

	w := &writer{}
	raw := func(fn, s string) {
		for i, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
			if fn != "" {
				w.lines = append(w.lines, wline{l, &Label{fn, "lemma", fmt.Sprintf("%s:%d", fn, i+1), strings.TrimSpace(l)}})
			} else {
				w.lines = append(w.lines, wline{l, nil})
			}
		}
	}
	raw("", "// generated by go2v from the current source of the repository; do not edit")
	raw("", "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, non_camel_case_types, unreachable_code, unused_assignments, unused_braces)]")
	raw("", "use vstd::prelude::*;\nuse vstd::seq_lib::*;\nuse vstd::multiset::*;\nfn main() {}\nverus! {\npub mod m0 {\nuse super::*;")
	raw("prelude.rs", string(prelude))
	raw("", litDefs())
	raw("", t.errDef())
	raw("", t.structDefs())
	raw("", t.zeroDefs)
	for _, s := range t.specOut {
		raw("", s)
	}
	bu := []string{"m0::prelude_axioms"}
	ax := map[string]bool{}
	for _, a := range t.axioms {
		if !ax[a] {
			ax[a] = true
			bu = append(bu, "m0::"+a)
		}
	}
	raw("", "} // mod m0\npub use m0::*;")
	raw("", "pub mod th {\nuse super::*;")
	raw("", "broadcast use {"+strings.Join(bu, ", ")+"};")
	for _, th := range ths {
		raw(th.name, th.text)
		for _, m := range groupRe.FindAllStringSubmatch(th.text, -1) {
			bu = append(bu, "th::"+m[1])
		}
	}
	raw("", "} // mod th\npub use th::*;")
	raw("", "broadcast use {"+strings.Join(bu, ", ")+"};")
	w.lines = append(w.lines, t.wr.lines...)
	w.lines = append(w.lines, wline{"proof fn probe_axioms() { assert(false); }", &Label{"axioms", "probe", "", ""}})
	raw("", "} // verus!")
	r := Report{Labels: map[int]Label{}, Issues: t.issues, Fns: t.fnInfo, Trusted: t.trusted}
	var b strings.Builder
	for i, l := range w.lines {
		s := strings.ReplaceAll(l.s, "\n", " ")
		b.WriteString(s + "\n")
		if l.l != nil {
			r.Labels[i+1] = *l.l
			if l.l.Kind == "probe" {
				r.Probes++
			}
		}
	}
	for l := range t.libUsed {
		r.Lib = append(r.Lib, l)
	}
	sort.Strings(r.Lib)
	if *out != "" {
		os.WriteFile(*out, []byte(b.String()), 0o644)
	}
	if *rep != "" {
		js, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(*rep, js, 0o644)
	}
	for _, i := range t.issues {
		fmt.Fprintf(os.Stderr, "issue: %s %s: %s\n", i.Fn, i.Pos, i.Msg)
	}
}

var groupRe = regexp.MustCompile(`(?m)^pub broadcast group (\w+)`)

// keys lists the keys of a map in order, so that what is generated does not
// change from run to run.
func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// demand generates the types and spec functions a text mentions.
func (t *Tr) demand(text string) {
	for _, id := range keys(idents(text)) {
		if d := t.specNames[id]; d != nil && t.contractOrPlain(d) {
			if t.pureFn(d, nil) == "" {
				if w := t.pureWhy(d, nil); w != "recursive" {
					t.issues = append(t.issues, Issue{d.Key, t.declPos(d), "not a pure function: " + w})
				}
			}
		}
		if d := t.specNames[strings.TrimPrefix(id, "fv_")]; d != nil && strings.HasPrefix(id, "fv_") {
			if p := t.pureFn(d, nil); p != "" {
				t.funcConst(p, d.Obj.Type().(*types.Signature))
			} else {
				t.issues = append(t.issues, Issue{d.Key, t.declPos(d), "not a pure function: " + t.pureWhy(d, nil)})
			}
		}
		if n := strings.TrimPrefix(id, "rv_of_"); n != id {
			t.rvDemand(n)
		}
		n := strings.TrimPrefix(id, "zero_")
		for _, p := range []string{"any_of_", "any_is_", "any_as_"} {
			if m := strings.TrimPrefix(id, p); m != id && t.typeNames[m] != nil {
				t.vt(t.typeNames[m])
				t.needAny(m)
			}
		}
		if ty := t.typeNames[n]; ty != nil {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupported); !ok {
							panic(e)
						}
					}
				}()
				t.vt(ty)
				if n != id {
					t.zero(ty)
				}
			}()
		}
	}
}

func (t *Tr) contractOrPlain(d *FnDecl) bool {
	return !anyMono(d.Obj.Type().(*types.Signature))
}

func (t *Tr) demandContract(c *Contract) {
	var b strings.Builder
	add := func(cs []Clause) {
		for _, x := range cs {
			b.WriteString(" " + oneLine(x.Text))
		}
	}
	add(c.Req)
	add(c.Ens)
	if c.Returns != nil {
		b.WriteString(" " + oneLine(c.Returns.Text))
	}
	for _, l := range c.Loops {
		add(l.Inv)
		add(l.InvX)
		add(l.Ens)
		add(l.Dec)
		b.WriteString(" " + oneLine(l.Begin.Text+" "+l.End.Text+" "+l.After.Text+" "+l.Pre.Text))
	}
	b.WriteString(" " + oneLine(c.Entry.Text) + " " + oneLine(c.Exit.Text) + " " + oneLine(c.Assume))
	t.demand(b.String())
}

// collectErrTypes: every struct of the repository that is an error.
func (t *Tr) collectErrTypes() {
	errIface := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for _, n := range keys(t.typeNames) {
		ty := t.typeNames[n]
		if _, ok := ty.Underlying().(*types.Struct); !ok {
			continue
		}
		if types.Implements(ty, errIface) || types.Implements(types.NewPointer(ty), errIface) {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupported); !ok {
							panic(e)
						}
					}
				}()
				t.vt(ty)
				t.errTypes[n] = true
			}()
		}
	}
}

// instanceOf: the type argument of the only type parameter of a function
// whose constraint is a union of types.
func (t *Tr) instanceOf(d *FnDecl, name string) map[*types.TypeParam]types.Type {
	tps := d.Obj.Type().(*types.Signature).TypeParams()
	if tps.Len() != 1 {
		return nil
	}
	short := func(p *types.Package) string { return p.Name() }
	for _, ty := range unionTypes(tps.At(0)) {
		if types.TypeString(ty, short) == name {
			return map[*types.TypeParam]types.Type{tps.At(0): ty}
		}
	}
	return nil
}

// unionTypes: the types a constraint enumerates.
func unionTypes(tp *types.TypeParam) []types.Type {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []types.Type
	for i := 0; i < it.NumEmbeddeds(); i++ {
		e := types.Unalias(it.EmbeddedType(i))
		u, ok := e.(*types.Union)
		if !ok {
			if in, ok := e.Underlying().(*types.Interface); ok && in.NumEmbeddeds() == 1 {
				u, _ = types.Unalias(in.EmbeddedType(0)).(*types.Union)
			}
		}
		if u == nil {
			continue
		}
		for j := 0; j < u.Len(); j++ {
			r = append(r, types.Unalias(u.Term(j).Type()))
		}
	}
	return r
}
