package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func strLit(s string) string {
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	if len(s) > 16 {
		return litName(s) + "()"
	}
	return seqLit(s)
}

func seqLit(s string) string {
	var p []string
	for i := 0; i < len(s); i++ {
		p = append(p, fmt.Sprintf("%du8", s[i]))
	}
	return "(seq![" + strings.Join(p, ", ") + "])"
}

// Long string constants are opaque functions, so that a proof pays for their
// bytes only where it reveals them.
var lits = map[string]string{}

func litName(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	n := fmt.Sprintf("lit_%016x", h.Sum64())
	if o, ok := lits[n]; ok && o != s {
		bail("two string constants share the name %s", n)
	}
	lits[n] = s
	return n
}

func litDefs() string {
	var ns []string
	for n := range lits {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var b strings.Builder
	for _, n := range ns {
		fmt.Fprintf(&b, "#[verifier::opaque] pub open spec fn %s() -> Seq<u8> { %s }\n", n, seqLit(lits[n]))
	}
	return b.String()
}

var litRe = regexp.MustCompile(`\b([bB])("(?:[^"\\]|\\.)*")`)

// expandLits replaces b"..." in contracts and theories by the constant, and
// B"..." by the name of its function.
func expandLits(s string) string {
	return litRe.ReplaceAllStringFunc(s, func(m string) string {
		v, err := strconv.Unquote(m[1:])
		if err != nil {
			panic("bad literal " + m)
		}
		if m[0] == 'B' {
			return litName(v)
		}
		return strLit(v)
	})
}

func (f *Fr) constant(v constant.Value, ty types.Type) string {
	vt := f.t.vt(ty)
	switch v.Kind() {
	case constant.Bool:
		return fmt.Sprint(constant.BoolVal(v))
	case constant.String:
		return f.t.strConst(constant.StringVal(v))
	case constant.Int, constant.Float:
		s := constant.ToInt(v).ExactString()
		if strings.HasPrefix(s, "-") {
			return "((" + s + ") as " + vt + ")"
		}
		return s + vt
	}
	bail("constant %s", v)
	return ""
}

// strConst names string constants longer than a few bytes.
func (t *Tr) strConst(s string) string { return strLit(s) }

var goIntRange = map[string]bool{"i64": true, "i32": true, "i16": true, "i8": true, "u8": true, "u16": true, "u32": true, "u64": true}

func isSigned(vt string) bool { return strings.HasPrefix(vt, "i") }

// expr translates an expression to a Verus spec expression of type vt(type).
func (f *Fr) expr(e ast.Expr) string {
	if tv, ok := f.info.Types[e]; ok && tv.Value != nil {
		return f.constant(tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.expr(x.X)
	case *ast.Ident:
		return f.ident(x)
	case *ast.SelectorExpr:
		return f.selector(x)
	case *ast.IndexExpr:
		return f.index(x, nil)
	case *ast.SliceExpr:
		return f.sliceExpr(x)
	case *ast.CallExpr:
		rs := f.call(x)
		if len(rs) != 1 {
			bail("%s: call with %d results used as a value", f.pos(e), len(rs))
		}
		return rs[0]
	case *ast.UnaryExpr:
		return f.unary(x)
	case *ast.BinaryExpr:
		return f.binary(x)
	case *ast.CompositeLit:
		return f.composite(x, f.typeOf(x))
	case *ast.StarExpr:
		return f.deref(x.X)
	case *ast.FuncLit:
		return f.funcLit(x)
	case *ast.TypeAssertExpr:
		if x.Type == nil {
			bail("type switch")
		}
		v := f.expr(x.X)
		vt := f.t.vt(f.typeOf(x))
		f.t.needAny(vt)
		f.oblig("type assertion", x, fmt.Sprintf("any_is_%s(%s)", mangle(vt), v))
		return fmt.Sprintf("any_as_%s(%s)", mangle(vt), v)
	}
	bail("%s: expression %T", f.pos(e), e)
	return ""
}

func mangle(vt string) string {
	r := strings.NewReplacer("<", "_", ">", "_", ",", "_", " ", "", "(", "_", ")", "_", "->", "_")
	return r.Replace(vt)
}

func (f *Fr) ident(x *ast.Ident) string {
	obj := f.info.ObjectOf(x)
	switch o := obj.(type) {
	case *types.Nil:
		return f.nilOf(f.info.Types[x].Type)
	case *types.Var:
		if v, ok := f.env[o]; ok {
			if v.deref {
				// used as a pointer value
				return "Some(" + v.name + ")"
			}
			return v.name
		}
		if o.Parent() == o.Pkg().Scope() {
			return f.pkgVar(o)
		}
		bail("%s: variable %s out of the modelled scope", f.pos(x), o.Name())
	case *types.Func:
		return f.funcValue(o, x)
	}
	bail("%s: identifier %s", f.pos(x), x.Name)
	return ""
}

func (f *Fr) nilOf(ty types.Type) string {
	if b, ok := ty.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return "NIL"
	}
	return f.t.zero(ty)
}

// coerce converts a translated value between Go types (assignability).
func (f *Fr) coerce(v string, from, to types.Type) string {
	if to == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil || v == "NIL" {
		return f.t.zero(to)
	}
	tv := f.t.vt(to)
	fv := f.t.vt(from)
	if tv == fv {
		return v
	}
	if strings.HasPrefix(tv, "Sl<") && strings.HasPrefix(fv, "Seq<") {
		return "sl_own(" + v + ")"
	}
	if strings.HasPrefix(tv, "Seq<") && strings.HasPrefix(fv, "Sl<") {
		return "(" + v + ").d"
	}
	if tv == "GoErr" {
		return f.toErr(v, from)
	}
	if tv == "GoAny" {
		f.t.needAny(fv)
		return fmt.Sprintf("any_of_%s(%s)", mangle(fv), v)
	}
	if tv == "GoWriter" {
		return v
	}
	if tv == "GoReader" && fv == "Option<GoOsFile>" {
		return "gr_file(" + v + ")"
	}
	if tv == "AstNode" {
		return f.toAst(v, fv)
	}
	if tp, ok := types.Unalias(to).(*types.TypeParam); ok && coreSlice(tp) == nil {
		return v
	}
	// generic instantiation: the Verus types unify
	if strings.ContainsAny(tv, "EST") {
		return v
	}
	bail("conversion from %s to %s", fv, tv)
	return ""
}

func (f *Fr) toAst(val, fv string) string {
	if v, ok := map[string]string{"Option<AstCall>": "Call", "Option<AstLit>": "Lit", "Option<AstSel>": "Sel", "Option<AstIdent>": "Ident", "Option<AstImport>": "Import"}[fv]; ok {
		return "AstNode::" + v + "(Box::new(" + val + "->0))"
	}
	if fv == "Option<AstFile>" {
		return "ast_file_node(" + val + "->0)"
	}
	bail("ast conversion from %s", fv)
	return ""
}

func (f *Fr) toErr(v string, from types.Type) string {
	if p, ok := types.Unalias(from).(*types.Pointer); ok {
		from = p.Elem()
		v = "(" + v + "->0)"
	}
	n, ok := types.Unalias(from).(*types.Named)
	if !ok {
		bail("error from %s", from)
	}
	f.t.needErr = true
	return fmt.Sprintf("GoErr::%s(Box::new(%s))", typeName(n.Obj()), v)
}

func (f *Fr) exprTo(e ast.Expr, to types.Type) string {
	if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
		if _, isNil := f.info.ObjectOf(id).(*types.Nil); isNil {
			return f.t.zero(to)
		}
	}
	return f.coerce(f.expr(e), f.typeOf(e), to)
}

// selector translates x.f (fields, package-level names, method values).
func (f *Fr) selector(x *ast.SelectorExpr) string {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, isPkg := f.info.ObjectOf(id).(*types.PkgName); isPkg {
			switch o := f.info.ObjectOf(x.Sel).(type) {
			case *types.Var:
				return f.pkgVar(o)
			case *types.Func:
				return f.funcValue(o, x)
			}
			bail("%s: %s", f.pos(x), x.Sel.Name)
		}
	}
	sel, ok := f.info.Selections[x]
	if !ok {
		bail("%s: selector %s", f.pos(x), x.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		v, ty := f.derefValue(x.X)
		return f.fieldPath(v, ty, sel.Index(), x)
	case types.MethodVal:
		return f.methodValue(x, sel)
	}
	bail("%s: method expression", f.pos(x))
	return ""
}

// derefValue evaluates e, dereferencing one pointer, and returns the
// struct-level value and type.
func (f *Fr) derefValue(e ast.Expr) (string, types.Type) {
	ty := f.typeOf(e)
	if p, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok {
		return f.deref(e), p.Elem()
	}
	return f.expr(e), ty
}

func (f *Fr) deref(e ast.Expr) string {
	e = unparen(e)
	if id, ok := e.(*ast.Ident); ok {
		if v, ok := f.env[f.info.ObjectOf(id)]; ok && v.deref {
			return v.name
		}
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return f.expr(u.X)
	}
	v := f.expr(e)
	f.oblig("nil dereference", e, "("+v+") is Some")
	return "(" + v + "->0)"
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *Fr) fieldPath(v string, ty types.Type, path []int, n ast.Node) string {
	for i, k := range path {
		if p, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok {
			if i > 0 {
				f.oblig("nil dereference", n, "("+v+") is Some")
				v = "(" + v + "->0)"
			}
			ty = p.Elem()
		}
		s, ok := ty.Underlying().(*types.Struct)
		if !ok {
			bail("field of %s", ty)
		}
		f.t.vt(ty)
		fd := s.Field(k)
		if !inRepo(fd.Pkg()) {
			v = f.libField(v, ty, fd, n)
		} else {
			v = v + "." + fieldName(fd.Name())
		}
		ty = fd.Type()
	}
	return v
}

func (f *Fr) libField(v string, ty types.Type, fd *types.Var, n ast.Node) string {
	nm, ok := types.Unalias(ty).(*types.Named)
	if !ok {
		bail("library field")
	}
	switch f.t.vt(nm) {
	case "AstCall", "AstLit", "AstSel", "AstIdent", "AstImport", "AstFile", "LexToken":
		return v + "." + fieldName(fd.Name())
	}
	bail("%s: field %s of %s", f.pos(n), fd.Name(), ty)
	return ""
}

// seqOf gives the Seq view of a slice-typed translated value.
func (f *Fr) seqOf(v string, ty types.Type) string {
	if f.t.isSl(ty) {
		return "(" + v + ").d"
	}
	return v
}

func (f *Fr) index(x *ast.IndexExpr, _ any) string {
	// generic function instantiation
	if tv, ok := f.info.Types[x.X]; ok {
		if _, isSig := tv.Type.Underlying().(*types.Signature); isSig {
			return f.expr(x.X)
		}
	}
	bt := f.typeOf(x.X)
	if tp, ok := types.Unalias(bt).(*types.TypeParam); ok {
		if coreSlice(tp) == nil {
			bail("%s: index of %s", f.pos(x), bt)
		}
		s := f.seqOf(f.expr(x.X), bt)
		i := f.intExpr(x.Index)
		f.oblig("index in range", x, fmt.Sprintf("0 <= %s < (%s).len()", i, s))
		return fmt.Sprintf("%s[%s as int]", par(s), i)
	}
	switch bt.Underlying().(type) {
	case *types.Map:
		m := bt.Underlying().(*types.Map)
		has, get := f.mapLookup(x, m)
		return fmt.Sprintf("(if %s { %s } else { %s })", has, get, f.t.zero(m.Elem()))
	case *types.Slice, *types.TypeParam:
		s := f.seqOf(f.expr(x.X), bt)
		i := f.intExpr(x.Index)
		f.oblig("index in range", x, fmt.Sprintf("0 <= %s < (%s).len()", i, s))
		return fmt.Sprintf("%s[%s as int]", par(s), i)
	case *types.Basic:
		s := f.expr(x.X)
		i := f.intExpr(x.Index)
		f.oblig("index in range", x, fmt.Sprintf("0 <= %s < (%s).len()", i, s))
		return fmt.Sprintf("%s[%s as int]", par(s), i)
	}
	bail("%s: index of %s", f.pos(x), bt)
	return ""
}

func par(s string) string {
	for _, c := range s {
		if !(c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return "(" + s + ")"
		}
	}
	return s
}

func (f *Fr) intExpr(e ast.Expr) string { return f.expr(e) }

func (f *Fr) mapLookup(x *ast.IndexExpr, m *types.Map) (has, get string) {
	if o := f.pkgLevelVar(x.X); o != nil {
		k := f.exprTo(x.Index, m.Key())
		name := f.t.pkgMap(o)
		return fmt.Sprintf("%s_has(%s)", name, k), fmt.Sprintf("%s_get(%s)", name, k)
	}
	mv := f.expr(x.X)
	k := f.exprTo(x.Index, m.Key())
	return fmt.Sprintf("%s.dom().contains(%s)", par(mv), k), fmt.Sprintf("%s[%s]", par(mv), k)
}

func (f *Fr) pkgLevelVar(e ast.Expr) *types.Var {
	var id *ast.Ident
	switch x := unparen(e).(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := f.info.ObjectOf(p).(*types.PkgName); isPkg {
				id = x.Sel
			}
		}
	}
	if id == nil {
		return nil
	}
	if o, ok := f.info.ObjectOf(id).(*types.Var); ok && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		return o
	}
	return nil
}

func (f *Fr) sliceExpr(x *ast.SliceExpr) string {
	bt := f.typeOf(x.X)
	base := f.expr(x.X)
	if _, ok := bt.Underlying().(*types.Pointer); ok {
		bail("slice of array")
	}
	s := f.seqOf(base, bt)
	lo, hi := "0", ""
	if x.Low != nil {
		lo = f.intExpr(x.Low)
	}
	if x.High != nil {
		hi = f.intExpr(x.High)
	} else {
		hi = "(" + s + ").len()"
	}
	// Go allows hi up to cap; the model requires len (no reslicing into
	// unseen capacity).
	f.oblig("slice bounds", x, fmt.Sprintf("0 <= %s <= %s <= (%s).len()", lo, hi, s))
	sub := fmt.Sprintf("%s.subrange(%s as int, %s as int)", par(s), lo, hi)
	if x.Low == nil && x.High == nil {
		sub = s
	}
	if !f.t.isSl(bt) {
		return sub
	}
	cf := fmt.Sprintf("(%s).cf", base)
	if x.Slice3 {
		cf = "true"
	} else if x.High != nil {
		cf = fmt.Sprintf("((%s).cf && %s == (%s).len())", base, hi, s)
	}
	return fmt.Sprintf("Sl { d: %s, own: (%s).own, cf: %s }", sub, base, cf)
}

func (f *Fr) unary(x *ast.UnaryExpr) string {
	switch x.Op {
	case token.NOT:
		return "!(" + f.expr(x.X) + ")"
	case token.SUB:
		vt := f.t.vt(f.typeOf(x))
		return fmt.Sprintf("w_%s(0 - (%s))", vt, f.expr(x.X))
	case token.ADD:
		return f.expr(x.X)
	case token.XOR:
		vt := f.t.vt(f.typeOf(x))
		if isSigned(vt) {
			bail("%s: ^ on signed", f.pos(x))
		}
		return "(!(" + f.expr(x.X) + "))"
	case token.AND:
		switch y := unparen(x.X).(type) {
		case *ast.CompositeLit:
			return "Some(" + f.composite(y, f.typeOf(y)) + ")"
		default:
			f.addressKept(x)
			return "Some(" + f.expr(x.X) + ")"
		}
	}
	bail("%s: unary %s", f.pos(x), x.Op)
	return ""
}

func (f *Fr) nilTest(e ast.Expr) string {
	ty := f.typeOf(e)
	if id, ok := unparen(e).(*ast.Ident); ok {
		if v, ok := f.env[f.info.ObjectOf(id)]; ok && v.deref {
			return "false"
		}
	}
	v := f.expr(e)
	switch t := f.t.vt(ty); {
	case strings.HasPrefix(t, "Option<"):
		return "(" + v + " is None)"
	case t == "GoErr":
		return "(" + v + " is Nil)"
	case t == "AstNode":
		return "(" + v + " is Nil)"
	case strings.HasPrefix(t, "Seq<"):
		return "seq_is_nil(" + v + ")"
	case strings.HasPrefix(t, "Sl<"):
		return "seq_is_nil((" + v + ").d)"
	case t == "GoAny":
		return "go_any_is_nil(" + v + ")"
	case strings.HasPrefix(t, "spec_fn"):
		return "fn_is_nil(" + v + ")"
	case strings.HasPrefix(t, "Map<"):
		return "map_is_nil(" + v + ")"
	case t == "ByteOrd":
		return "(" + v + " is Nil)"
	}
	bail("%s: nil comparison", f.pos(e))
	return ""
}

func isNilIdent(info *types.Info, e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = info.ObjectOf(id).(*types.Nil)
	return ok
}

func isEmptyStr(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.Value != nil && tv.Value.Kind() == constant.String && constant.StringVal(tv.Value) == ""
}

func (f *Fr) binary(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		return f.shortCircuit(x)
	case token.EQL, token.NEQ:
		neg := ""
		if x.Op == token.NEQ {
			neg = "!"
		}
		if isNilIdent(f.info, x.Y) {
			return neg + f.nilTest(x.X)
		}
		if isNilIdent(f.info, x.X) {
			return neg + f.nilTest(x.Y)
		}
		a, b := f.operands(x)
		a, b = f.bareLen(x.X, a), f.bareLen(x.Y, b)
		if f.t.vt(f.typeOf(x.X)) == "Seq<u8>" {
			if isEmptyStr(f.info, x.Y) {
				return fmt.Sprintf("%s(%s.len() == 0)", neg, par(a))
			}
			if isEmptyStr(f.info, x.X) {
				return fmt.Sprintf("%s(%s.len() == 0)", neg, par(b))
			}
		}
		return fmt.Sprintf("%s(%s == %s)", neg, par(a), par(b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		a, b := f.operands(x)
		a, b = f.bareLen(x.X, a), f.bareLen(x.Y, b)
		op := x.Op.String()
		if f.t.vt(f.typeOf(x.X)) == "Seq<u8>" {
			return fmt.Sprintf("(str_cmp(%s, %s) %s 0)", a, b, op)
		}
		return fmt.Sprintf("(%s %s %s)", par(a), op, par(b))
	}
	vt := f.t.vt(f.typeOf(x))
	if x.Op == token.SHL || x.Op == token.SHR {
		a := f.expr(x.X)
		tv := f.info.Types[x.Y]
		if tv.Value == nil {
			bail("%s: variable shift", f.pos(x))
		}
		k := constant.ToInt(tv.Value).ExactString()
		if isSigned(vt) {
			bail("%s: signed shift", f.pos(x))
		}
		op := "<<"
		if x.Op == token.SHR {
			op = ">>"
		}
		return fmt.Sprintf("(%s %s %s%s)", par(a), op, k, vt)
	}
	a, b := f.operands(x)
	if vt == "Seq<u8>" {
		if x.Op == token.ADD {
			return fmt.Sprintf("%s.add(%s)", par(a), b)
		}
		bail("%s: string operator", f.pos(x))
	}
	switch x.Op {
	case token.ADD, token.SUB, token.MUL:
		return fmt.Sprintf("w_%s(%s %s %s)", vt, par(a), x.Op, par(b))
	case token.QUO:
		f.oblig("division by zero", x, fmt.Sprintf("%s != 0", par(b)))
		if isSigned(vt) {
			return fmt.Sprintf("w_%s(go_div(%s as int, %s as int))", vt, par(a), par(b))
		}
		return fmt.Sprintf("((%s / %s) as %s)", par(a), par(b), vt)
	case token.REM:
		f.oblig("division by zero", x, fmt.Sprintf("%s != 0", par(b)))
		if isSigned(vt) {
			return fmt.Sprintf("w_%s(go_rem(%s as int, %s as int))", vt, par(a), par(b))
		}
		return fmt.Sprintf("((%s %% %s) as %s)", par(a), par(b), vt)
	case token.AND, token.OR, token.XOR:
		return fmt.Sprintf("(%s %s %s)", par(a), x.Op, par(b))
	case token.AND_NOT:
		if isSigned(vt) {
			bail("%s: signed bit operation", f.pos(x))
		}
		return fmt.Sprintf("(%s & (!%s))", par(a), par(b))
	}
	bail("%s: operator %s", f.pos(x), x.Op)
	return ""
}

// operands evaluates both sides at the common type.
// bareLen drops the (exact) conversion of a length that is only compared.
func (f *Fr) bareLen(e ast.Expr, v string) string {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok {
		return v
	}
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "len" && strings.HasSuffix(v, ".len() as i64)") {
		return "(" + strings.TrimSuffix(strings.TrimPrefix(v, "("), " as i64)") + " as int)"
	}
	return v
}

func (f *Fr) operands(x *ast.BinaryExpr) (string, string) {
	a := f.expr(x.X)
	b := f.expr(x.Y)
	ta, tb := f.typeOf(x.X), f.typeOf(x.Y)
	va, vb := f.t.vt(ta), f.t.vt(tb)
	if va != vb {
		if va == "AstNode" || va == "GoErr" || va == "GoAny" {
			b = f.coerce(b, tb, ta)
		} else if vb == "AstNode" || vb == "GoErr" || vb == "GoAny" {
			a = f.coerce(a, ta, tb)
		}
	}
	return a, b
}

func (f *Fr) shortCircuit(x *ast.BinaryExpr) string {
	op := "&&"
	if x.Op == token.LOR {
		op = "||"
	}
	a := f.expr(x.X)
	if f.spec {
		n := len(f.lets)
		b := f.expr(x.Y)
		if len(f.lets) > n {
			lets := strings.Join(f.lets[n:], " ")
			f.lets = f.lets[:n]
			b = "({ " + lets + " " + b + " })"
		}
		return fmt.Sprintf("(%s %s %s)", par(a), op, par(b))
	}
	save := f.wr
	f.wr = &writer{}
	b := f.expr(x.Y)
	sub := f.wr
	f.wr = save
	if len(sub.lines) == 0 {
		return fmt.Sprintf("(%s %s %s)", par(a), op, par(b))
	}
	t := f.fresh("sc")
	f.emit("let ghost mut %s: bool = %s;", t, a)
	c := t
	if op == "||" {
		c = "!" + t
	}
	f.emit("if branch(Ghost(%s)) {", c)
	f.wr.lines = append(f.wr.lines, sub.lines...)
	f.emit("proof { %s = %s; }", t, b)
	f.emit("}")
	return t
}

func (f *Fr) composite(x *ast.CompositeLit, ty types.Type) string {
	if p, ok := types.Unalias(ty).(*types.Pointer); ok {
		return "Some(" + f.composite(x, p.Elem()) + ")"
	}
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		n, ok := types.Unalias(ty).(*types.Named)
		if !ok {
			if u.NumFields() == 0 {
				return "()"
			}
			bail("%s: anonymous struct", f.pos(x))
		}
		name := f.t.vt(n)
		if !inRepo(n.Obj().Pkg()) {
			if len(x.Elts) == 0 {
				return f.t.zero(n)
			}
			bail("%s: library struct literal", f.pos(x))
		}
		vals := map[string]string{}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key.(*ast.Ident).Name
				var ft types.Type
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == k {
						ft = u.Field(j).Type()
					}
				}
				vals[k] = f.elem(kv.Value, ft)
			} else {
				vals[u.Field(i).Name()] = f.elem(el, u.Field(i).Type())
			}
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			fd := u.Field(j)
			v, ok := vals[fd.Name()]
			if !ok {
				v = func() (r string) {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(unsupported); !ok {
								panic(e)
							}
							r = "zero_GoOpaque()"
						}
					}()
					return f.t.zero(fd.Type())
				}()
			}
			fs = append(fs, fieldName(fd.Name())+": "+v)
		}
		return name + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice:
		var es []string
		for _, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				bail("%s: keyed slice literal", f.pos(x))
			}
			es = append(es, f.elem(el, u.Elem()))
		}
		s := "Seq::<" + f.t.vt(u.Elem()) + ">::empty()"
		if len(es) > 0 {
			s = "(seq![" + strings.Join(es, ", ") + "])"
		}
		if f.t.isSl(ty) {
			return "sl_own(" + s + ")"
		}
		return s
	case *types.Map:
		m := f.t.zero(u)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			m = fmt.Sprintf("%s.insert(%s, %s)", m, f.elem(kv.Key, u.Key()), f.elem(kv.Value, u.Elem()))
		}
		return m
	}
	bail("%s: composite literal of %s", f.pos(x), ty)
	return ""
}

func (f *Fr) elem(e ast.Expr, ty types.Type) string {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		return f.composite(cl, ty)
	}
	return f.exprTo(e, ty)
}

// assign stores val (of type vt(lhs)) into an lvalue.
func (f *Fr) assign(lhs ast.Expr, val string) {
	switch x := unparen(lhs).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return
		}
		v, ok := f.env[f.info.ObjectOf(x)]
		if !ok {
			bail("%s: assignment to %s", f.pos(x), x.Name)
		}
		if v.deref {
			bail("%s: reassigned pointer %s", f.pos(x), x.Name)
		}
		f.setVar(v, val)
	case *ast.StarExpr:
		f.assignDeref(x.X, val)
	case *ast.SelectorExpr:
		sel, ok := f.info.Selections[x]
		if !ok {
			bail("%s: assignment to package variable", f.pos(x))
		}
		f.assignField(x.X, f.typeOf(x.X), sel.Index(), val, x)
	case *ast.IndexExpr:
		bt := f.typeOf(x.X)
		if m, ok := bt.Underlying().(*types.Map); ok {
			mv := f.expr(x.X)
			k := f.exprTo(x.Index, m.Key())
			f.assign(x.X, fmt.Sprintf("%s.insert(%s, %s)", par(mv), k, val))
			return
		}
		base := f.expr(x.X)
		i := f.intExpr(x.Index)
		s := f.seqOf(base, bt)
		f.oblig("index in range", x, fmt.Sprintf("0 <= %s < (%s).len()", i, s))
		if f.t.isSl(bt) {
			f.oblig("frame: element write only to owned storage", x, fmt.Sprintf("(%s).own", base))
			f.assign(x.X, fmt.Sprintf("Sl { d: %s.update(%s as int, %s), own: (%s).own, cf: (%s).cf }", par(s), i, val, base, base))
			return
		}
		f.assign(x.X, fmt.Sprintf("%s.update(%s as int, %s)", par(s), i, val))
	default:
		bail("%s: assignment to %T", f.pos(lhs), x)
	}
}

func (f *Fr) assignDeref(p ast.Expr, val string) {
	p = unparen(p)
	if id, ok := p.(*ast.Ident); ok {
		if v, ok := f.env[f.info.ObjectOf(id)]; ok && v.deref {
			f.setVar(v, val)
			return
		}
	}
	if u, ok := p.(*ast.UnaryExpr); ok && u.Op == token.AND {
		f.assign(u.X, val)
		return
	}
	id, isId := p.(*ast.Ident)
	var at *elemOrigin
	if isId {
		if v := f.env[f.info.ObjectOf(id)]; v != nil {
			at = v.origin
		}
		if at == nil {
			f.exclusivePtr(f.info.ObjectOf(id), id)
		}
	}
	old := f.expr(p)
	f.oblig("nil dereference", p, "("+old+") is Some")
	if ix, ok := p.(*ast.IndexExpr); ok && !f.spec {
		f.writeElem(ix.X, f.intExpr(ix.Index), old, val, p)
		return
	}
	if at != nil {
		f.checkOrigin(f.info.ObjectOf(id), at, id)
		f.writeElem(at.x, at.ix, old, val, p)
	}
	f.assign(p, "Some("+val+")")
}

func (f *Fr) assignField(base ast.Expr, bt types.Type, path []int, val string, n ast.Node) {
	cur, st := f.derefValue(base)
	nv := f.updatePath(cur, st, path, val, n)
	if _, ok := types.Unalias(bt).Underlying().(*types.Pointer); ok {
		f.assignDeref(base, nv)
		return
	}
	f.assign(base, nv)
}

func (f *Fr) updatePath(cur string, st types.Type, path []int, val string, n ast.Node) string {
	isPtr := false
	if p, ok := types.Unalias(st).Underlying().(*types.Pointer); ok {
		isPtr = true
		f.oblig("nil dereference", n, "("+cur+") is Some")
		cur = "(" + cur + "->0)"
		st = p.Elem()
	}
	s := st.Underlying().(*types.Struct)
	fd := s.Field(path[0])
	name := f.t.vt(st)
	inner := val
	if len(path) > 1 {
		inner = f.updatePath(cur+"."+fieldName(fd.Name()), fd.Type(), path[1:], val, n)
	}
	// flatten chained updates of one literal
	r := fmt.Sprintf("%s { %s: %s, ..%s }", name, fieldName(fd.Name()), inner, cur)
	if isPtr {
		return "Some(" + r + ")"
	}
	return r
}

// funcValue: a named function used as a value.
func (f *Fr) funcValue(o *types.Func, n ast.Expr) string {
	o = o.Origin()
	if !inRepo(o.Pkg()) {
		return f.libFuncValue(o, n)
	}
	d := f.t.byObj[o]
	if d == nil {
		bail("%s: function value %s", f.pos(n), o.Name())
	}
	sig := o.Type().(*types.Signature)
	p := f.t.pureFn(d, nil)
	if p == "" {
		bail("%s: function value %s is not pure: %s", f.pos(n), o.Name(), f.t.pureWhy(d, nil))
	}
	return f.t.funcConst(p, sig)
}

// funcConst defines one spec constant per function used as a value.
func (t *Tr) funcConst(specName string, sig *types.Signature) string {
	name := "fv_" + specName
	if t.libUsed["fv:"+name] {
		return name + "()"
	}
	t.libUsed["fv:"+name] = true
	var ps, as []string
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if p, ok := types.Unalias(pt).(*types.Pointer); ok && isRepoStructPtr(p) {
			pt = p.Elem()
		}
		ps = append(ps, fmt.Sprintf("a%d: %s", i, t.vt(pt)))
		as = append(as, fmt.Sprintf("a%d", i))
	}
	t.specOut = append(t.specOut, fmt.Sprintf("pub open spec fn %s() -> %s { |%s| %s(%s) }", name, t.funcType(sig), strings.Join(ps, ", "), specName, strings.Join(as, ", ")))
	return name + "()"
}

func (f *Fr) libFuncValue(o *types.Func, n ast.Expr) string {
	switch o.FullName() {
	case "strings.Compare":
		f.t.libUse("strings.Compare")
		return "fv_str_cmp()"
	case "github.com/paul-mannino/go-fuzzywuzzy.Ratio":
		f.t.libUse("fuzzywuzzy.Ratio")
		return "fv_fuzzy_ratio()"
	}
	bail("%s: library function value %s", f.pos(n), o.FullName())
	return ""
}

// methodValue: x.M not called.
func (f *Fr) methodValue(x *ast.SelectorExpr, sel *types.Selection) string {
	m := sel.Obj().(*types.Func).Origin()
	d := f.t.byObj[m]
	if d == nil {
		bail("%s: method value %s", f.pos(x), m.Name())
	}
	if ctr := f.t.contracts[d.Key]; ctr != nil && ctr.Returns != nil && len(ctr.Req) > 0 && m.Type().(*types.Signature).Params().Len() == 0 {
		return f.delayed(d, m, x, []argv{{val: f.recvValue(x, sel), expr: x.X}})
	}
	p := f.t.pureFn(d, nil)
	if p == "" {
		bail("%s: method value %s is not pure: %s", f.pos(x), m.Name(), f.t.pureWhy(d, nil))
	}
	recv := f.recvValue(x, sel)
	sig := m.Type().(*types.Signature)
	var ps, as []string
	as = append(as, recv)
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, fmt.Sprintf("a%d: %s", i, f.t.vt(sig.Params().At(i).Type())))
		as = append(as, fmt.Sprintf("a%d", i))
	}
	return fmt.Sprintf("(|%s| %s(%s))", strings.Join(ps, ", "), p, strings.Join(as, ", "))
}

// recvValue evaluates the receiver of a method selection, following
// embedded fields and one pointer.
func (f *Fr) recvValue(x *ast.SelectorExpr, sel *types.Selection) string {
	idx := sel.Index()
	path := idx[:len(idx)-1]
	v, ty := f.derefValue(x.X)
	v = f.fieldPath(v, ty, path, x)
	ft := ty
	for _, k := range path {
		if p, ok := types.Unalias(ft).Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		ft = ft.Underlying().(*types.Struct).Field(k).Type()
	}
	if len(path) > 0 {
		if _, ok := types.Unalias(ft).Underlying().(*types.Pointer); ok {
			f.oblig("nil dereference", x, "("+v+") is Some")
			v = "(" + v + "->0)"
		}
	}
	return v
}

// funcLit: a closure; its body must be pure, and becomes a spec closure.
func (f *Fr) funcLit(x *ast.FuncLit) string { return f.closure(x, false) }

// funcLitArg: a closure used only as a call argument.
func (f *Fr) funcLitArg(x *ast.FuncLit) string { return f.closure(x, true) }

// delayedCall: func() T { return g(args) } where g writes into its arguments
// and its contract gives the result as a function of them. The precondition is
// demanded where the closure is made.
func (f *Fr) delayedCall(x *ast.FuncLit, sig *types.Signature) (string, bool) {
	if f.spec || sig.Params().Len() != 0 || sig.Results().Len() != 1 || len(x.Body.List) != 1 || len(f.modified(x.Body)) == 0 {
		return "", false
	}
	r, ok := x.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return "", false
	}
	c, ok := unparen(r.Results[0]).(*ast.CallExpr)
	if !ok {
		return "", false
	}
	o := f.callee(c)
	if o == nil {
		return "", false
	}
	o = o.Origin()
	d := f.t.byObj[o]
	if d == nil || anyMono(o.Type().(*types.Signature)) || f.t.contracts[d.Key] == nil || f.t.contracts[d.Key].Returns == nil {
		return "", false
	}
	for _, v := range f.reassignedAfter(x) {
		bail("%s: captured variable %s is reassigned after the closure is created", f.pos(x), v.Name())
	}
	return f.delayed(d, o, c, f.evalArgs(o, c)), true
}

func (f *Fr) delayed(d *FnDecl, o *types.Func, n ast.Expr, args []argv) string {
	ctr := f.t.contracts[d.Key]
	sp := f.t.pureFn(d, nil)
	var vs []string
	for _, a := range args {
		vs = append(vs, a.val)
	}
	for _, r := range ctr.Req {
		f.oblig("precondition of "+d.Key+" "+r.Pos, n, f.t.reqAt(ctr, r, fnParams(o), vs))
	}
	f.t.trusted["sorting closures"] = "called at most once, on lists nothing else writes in between (" + d.Key + ")"
	return fmt.Sprintf("(|| %s(%s)%s)", sp, strings.Join(vs, ", "), map[bool]string{true: ".0", false: ""}[len(f.t.inouts(o)) > 0])
}

func (f *Fr) closure(x *ast.FuncLit, arg bool) string {
	sig := f.typeOf(x).(*types.Signature)
	if v, ok := f.delayedCall(x, sig); ok {
		return v
	}
	for _, o := range f.modified(x.Body) {
		bail("%s: the closure writes captured variable %s", f.pos(x), o.Name())
	}
	if !arg && f.fn != nil && f.fn.Decl != nil {
		for _, o := range f.reassignedAfter(x) {
			bail("%s: captured variable %s is reassigned after the closure is created", f.pos(x), o.Name())
		}
	}
	g := f.cloneSpec()
	g.spec = true
	g.lets = nil
	g.inline = false
	g.deferred = nil
	g.loopIx = nil
	g.results = nil
	g.inouts = nil
	g.inSpecClosure = true
	var ps []string
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		pt := p.Type()
		v := &Var{goName: p.Name(), obj: p, ty: pt}
		v.name = f.fresh(p.Name())
		if pp, ok := types.Unalias(pt).(*types.Pointer); ok && isRepoStructPtr(pp) {
			v.deref = true
			pt = pp.Elem()
			g.inouts = append(g.inouts, v)
		}
		ps = append(ps, fmt.Sprintf("%s: %s", v.name, f.t.vt(pt)))
		g.env[p] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		g.results = append(g.results, &Var{goName: r.Name(), obj: r, ty: r.Type()})
	}
	g.named = sig.Results().Len() > 0 && sig.Results().At(0).Name() != ""
	if g.named {
		for _, r := range g.results {
			nv := g.declare(r.obj, r.goName, r.ty, false, f.t.zero(r.ty))
			*r = *nv
			g.env[r.obj] = r
		}
	}
	body := g.specBlock(x.Body.List, func(h *Fr) string { return h.retTuple(nil) })
	return fmt.Sprintf("(|%s| %s)", strings.Join(ps, ", "), body)
}
