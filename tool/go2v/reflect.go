package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// Values seen through package reflect.

// rvName names the encoding of a type; it generates the encoding.
func (t *Tr) rvName(ty types.Type) string {
	ty = types.Unalias(ty)
	var name string
	switch x := ty.(type) {
	case *types.Named:
		if !inRepo(x.Obj().Pkg()) || x.TypeArgs().Len() > 0 {
			bail("reflection on %s", ty)
		}
		name = typeName(x.Obj())
	case *types.Basic:
		name = x.Name()
	case *types.Slice:
		name = "slice_" + t.rvName(x.Elem())
	default:
		bail("reflection on %s", ty)
	}
	if t.rvRank == nil {
		t.rvRank = map[string]int{}
	}
	if r, ok := t.rvRank[name]; ok {
		if r < 0 {
			bail("reflection on a recursive type %s", ty)
		}
		return name
	}
	t.rvRank[name] = -1
	rank := 0
	need := func(e types.Type) string {
		n := t.rvName(e)
		if r := t.rvRank[n]; r >= rank {
			rank = r + 1
		}
		return n
	}
	kind, val := 0, ""
	var exp []string
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		k, ok := rvKinds[u.Kind()]
		if !ok {
			bail("reflection on %s", ty)
		}
		kind = k
		switch {
		case kind == 1:
			val = "GoVal::Bool(x)"
		case kind <= 6:
			val = "GoVal::Int(x as i64)"
		case kind <= 12:
			val = "GoVal::Uint(x as u64)"
		default:
			val = "GoVal::Str(x)"
		}
	case *types.Slice:
		kind = 23
		e := need(u.Elem())
		s := "x"
		if t.isSl(ty) {
			s = "x.d"
		}
		val = fmt.Sprintf("GoVal::List(Seq::new(%s.len(), |i: int| rv_of_%s(%s[i], go_sub(m, i), true)))", s, e, s)
	case *types.Struct:
		kind = 25
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			fs = append(fs, fmt.Sprintf("rv_of_%s(x.%s, go_sub(m, %d), adr)", need(fd.Type()), fieldName(fd.Name()), i))
			exp = append(exp, fmt.Sprint(fd.Exported()))
		}
		val = "GoVal::Struct(seq![" + strings.Join(fs, ", ") + "])"
	default:
		bail("reflection on %s", ty)
	}
	t.rvRank[name] = rank
	es := "Seq::<bool>::empty()"
	if len(exp) > 0 {
		es = "seq![" + strings.Join(exp, ", ") + "]"
	}
	vt := t.vt(ty)
	t.specOut = append(t.specOut,
		fmt.Sprintf("pub open spec fn gt_%s() -> GoType { GoType { id: %d, kind: %d, rank: %d, exported: %s } }", name, len(t.rvRank), kind, rank, es),
		fmt.Sprintf("pub open spec fn rv_of_%s(x: %s, m: int, adr: bool) -> GoRv { GoRv { ty: gt_%s(), v: %s, addr: if adr { Some(m) } else { None::<int> } } }", name, vt, name, val),
		fmt.Sprintf("#[verifier::external_body] pub fn go_value_of_%s(x: Ghost<%s>) -> (r: Ghost<GoRv>) ensures rv_mem(r@), exists|m: int| r@ == #[trigger] rv_of_%s(x@, m, false), { unimplemented!() }", name, vt, name))
	return name
}

var rvKinds = map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.String: 24}

// rvDemand generates the encoding that a text mentions as rv_of_NAME.
func (t *Tr) rvDemand(name string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
		}
	}()
	if ty := t.rvType(name); ty != nil {
		t.rvName(ty)
	}
}

func (t *Tr) rvType(name string) types.Type {
	if strings.HasPrefix(name, "slice_") {
		if e := t.rvType(name[len("slice_"):]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	}
	if ty := t.typeNames[name]; ty != nil {
		return ty
	}
	for _, b := range types.Typ {
		if b.Name() == name {
			return b
		}
	}
	return nil
}

func (f *Fr) reflectCall(name string, c *ast.CallExpr) []string {
	if name == "reflect.ValueOf" {
		if f.spec {
			bail("%s: reflection in pure code", f.pos(c))
		}
		ty := f.typeOf(c.Args[0])
		if tp, ok := types.Unalias(ty).(*types.TypeParam); ok && f.t.tsubst != nil && f.t.tsubst[tp] != nil {
			ty = f.t.tsubst[tp]
		}
		n := f.t.rvName(ty)
		v := f.fresh("rv")
		f.emit("let Ghost(%s) = go_value_of_%s(Ghost(%s));", v, n, f.expr(c.Args[0]))
		return []string{v}
	}
	se, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		bail("%s: library call %s", f.pos(c), name)
	}
	v := f.expr(se.X)
	if !plainRe.MatchString(v) {
		v = f.tmp(v)
	}
	kind := v + ".ty.kind"
	want := func(cond string) { f.oblig("reflect method of another kind", c, cond) }
	switch name {
	case "reflect.Value.Kind":
		return []string{kind}
	case "reflect.Value.IsValid":
		return []string{kind + " != 0"}
	case "reflect.Value.Type":
		want(kind + " != 0")
		return []string{v + ".ty"}
	case "reflect.Value.Elem":
		want(kind + " == 20 || " + kind + " == 22")
		return []string{"rv_elem(" + v + ")"}
	case "reflect.Value.IsNil":
		want(kind + " == 18 || " + kind + " == 19 || 20 <= " + kind + " <= 23 || " + kind + " == 26")
		return []string{"rv_is_nil(" + v + ")"}
	case "reflect.Value.CanAddr":
		return []string{v + ".addr is Some"}
	case "reflect.Value.UnsafeAddr":
		want(v + ".addr is Some")
		return []string{v + ".addr->0"}
	case "reflect.Value.Bool":
		want(kind + " == 1")
		return []string{v + ".v->Bool_0"}
	case "reflect.Value.Int":
		want("is_int_kind(" + kind + ")")
		return []string{v + ".v->Int_0"}
	case "reflect.Value.Uint":
		want("is_uint_kind(" + kind + ")")
		return []string{v + ".v->Uint_0"}
	case "reflect.Value.String":
		want(kind + " == 24")
		return []string{v + ".v->Str_0"}
	case "reflect.Value.Float":
		want(kind + " == 13 || " + kind + " == 14")
		return []string{"rv_float(" + v + ")"}
	case "reflect.Value.Complex":
		want(kind + " == 15 || " + kind + " == 16")
		return []string{"rv_complex(" + v + ")"}
	case "reflect.Value.Len":
		want(kind + " == 17 || " + kind + " == 23")
		if !f.spec {
			f.emit("proof { lemma_go_len(rv_parts(%s)); }", v)
		}
		return []string{fmt.Sprintf("(rv_parts(%s).len() as i64)", v)}
	case "reflect.Value.Index":
		want(kind + " == 17 || " + kind + " == 23")
		i := f.tmp(f.expr(c.Args[0]))
		f.oblig("index in range", c, fmt.Sprintf("0 <= %s < rv_parts(%s).len()", i, v))
		return []string{fmt.Sprintf("rv_parts(%s)[%s as int]", v, i)}
	case "reflect.Value.NumField":
		want(kind + " == 25")
		if !f.spec {
			f.emit("proof { lemma_go_len(rv_parts(%s)); }", v)
		}
		return []string{fmt.Sprintf("(rv_parts(%s).len() as i64)", v)}
	case "reflect.Value.Field":
		want(kind + " == 25")
		i := f.tmp(f.expr(c.Args[0]))
		f.oblig("index in range", c, fmt.Sprintf("0 <= %s < rv_parts(%s).len()", i, v))
		return []string{fmt.Sprintf("rv_parts(%s)[%s as int]", v, i)}
	case "reflect.Type.NumField":
		want(v + ".kind == 25")
		if !f.spec {
			f.emit("proof { lemma_go_len(%s.exported); }", v)
		}
		return []string{fmt.Sprintf("(%s.exported.len() as i64)", v)}
	case "reflect.Type.Kind":
		return []string{v + ".kind"}
	case "reflect.Type.Field":
		want(v + ".kind == 25")
		i := f.tmp(f.expr(c.Args[0]))
		f.oblig("index in range", c, fmt.Sprintf("0 <= %s < %s.exported.len()", i, v))
		return []string{fmt.Sprintf("(GoField { exported: %s.exported[%s as int] })", v, i)}
	case "reflect.StructField.IsExported":
		return []string{v + ".exported"}
	}
	bail("%s: library call %s", f.pos(c), name)
	return nil
}
