package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func bail(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

const modPath = "github.com/Tom5521/gotext-tools/v2"

// pkgAlias names a package of the repository in generated identifiers.
func pkgAlias(p *types.Package) string {
	if p == nil {
		return ""
	}
	path := p.Path()
	if path == modPath+"/pkg/go/parse" {
		return "goparse"
	}
	return p.Name()
}

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

var rustKw = map[string]bool{"type": true, "fn": true, "match": true, "let": true, "mut": true, "ref": true, "in": true, "as": true, "use": true, "mod": true, "self": true, "impl": true, "trait": true, "where": true, "loop": true, "while": true, "move": true, "box": true, "final": true, "proof": true, "spec": true, "exec": true, "ghost": true, "tracked": true, "open": true, "closed": true, "int": true, "nat": true, "pub": true, "enum": true, "struct": true, "dyn": true, "static": true, "const": true, "true": true, "false": true, "str": true, "f": false, "old": true, "assert": true, "assume": true, "forall": true, "exists": true, "choose": true, "decreases": true, "requires": true, "ensures": true, "is": true, "has": true, "abstract": true, "do": true, "try": true, "yield": true, "virtual": true, "override": true, "priv": true, "become": true, "macro": true, "unsized": true, "typeof": true, "by": true, "via": true, "when": true, "recommends": true, "returns": true, "invariant": true, "default_ensures": true, "extern": true, "crate": true, "super": true, "unsafe": true, "async": true, "await": true, "break": true, "continue": true, "else": true, "if": true, "for": true, "return": true}

func fieldName(n string) string {
	if rustKw[n] {
		return n + "_"
	}
	return n
}

// typeName is the Verus name of a named type of the repository.
func typeName(n *types.TypeName) string {
	a := pkgAlias(n.Pkg())
	if a == "po" {
		return n.Name()
	}
	return strings.ToUpper(a[:1]) + a[1:] + "_" + n.Name()
}

// lib types with a fixed model in the prelude.
var libTypes = map[string]string{
	"strings.Builder":              "Seq<u8>",
	"bytes.Buffer":                 "Seq<u8>",
	"bufio.Writer":                 "GoWriter",
	"verif.Fs":                     "GoFs",
	"bytes.Reader":                 "BytesReader",
	"encoding/binary.ByteOrder":    "ByteOrd",
	"encoding/binary.littleEndian": "ByteOrd",
	"encoding/binary.bigEndian":    "ByteOrd",
	"io.Writer":                    "GoWriter",
	"io.Reader":                    "GoReader",
	"log.Logger":                   "GoLogger",
	"go/token.Pos":                 "i64",
	"go/token.Token":               "i64",
	"go/ast.Node":                  "AstNode",
	"go/ast.Expr":                  "AstNode",
	"go/ast.CallExpr":              "AstCall",
	"go/ast.BasicLit":              "AstLit",
	"go/ast.SelectorExpr":          "AstSel",
	"go/ast.Ident":                 "AstIdent",
	"go/ast.ImportSpec":            "AstImport",
	"go/ast.File":                  "AstFile",
	"go/ast.Object":                "AstObject",
	"regexp.Regexp":                "GoRegexp",
	"github.com/alecthomas/participle/v2/lexer.Token":     "LexToken",
	"github.com/alecthomas/participle/v2/lexer.TokenType": "i64",
	"os.File":                 "GoOsFile",
	"github.com/kr/fs.Walker": "KrWalker",
	"io/fs.FileInfo":          "KrItem",
	"os.FileInfo":             "KrItem",
	"io/fs.DirEntry":          "GoDirEntry",
	"reflect.Value":           "GoRv",
	"reflect.Type":            "GoType",
	"reflect.StructField":     "GoField",
}

func qualName(n *types.TypeName) string {
	if n.Pkg() == nil {
		return n.Name()
	}
	return n.Pkg().Path() + "." + n.Name()
}

// isEntrySlice tells slices modelled with an ownership flag (Sl<T>).
func (t *Tr) isSl(ty types.Type) bool {
	ty = types.Unalias(ty)
	switch x := ty.(type) {
	case *types.TypeParam:
		return coreSlice(x) != nil
	case *types.Named:
		if s, ok := x.Underlying().(*types.Slice); ok {
			return isEntry(s.Elem())
		}
	case *types.Slice:
		return isEntry(x.Elem())
	}
	return false
}

func isEntry(ty types.Type) bool {
	ty = types.Unalias(ty)
	n, ok := ty.(*types.Named)
	return ok && inRepo(n.Obj().Pkg()) && pkgAlias(n.Obj().Pkg()) == "po" && n.Obj().Name() == "Entry"
}

func coreSlice(tp *types.TypeParam) *types.Slice {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch e := types.Unalias(it.EmbeddedType(i)).(type) {
		case *types.Union:
			if e.Len() == 1 {
				if s, ok := e.Term(0).Type().Underlying().(*types.Slice); ok {
					return s
				}
			}
		case *types.Slice:
			return e
		}
	}
	return nil
}

// needsMono reports a numeric/ordered type parameter, translated per instance.
func needsMono(tp *types.TypeParam) bool {
	if coreSlice(tp) != nil {
		return false
	}
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return it.NumEmbeddeds() > 0 && !it.IsComparable() || it.NumEmbeddeds() > 0
}

func (t *Tr) vt(ty types.Type) string {
	switch x := ty.(type) {
	case *types.Alias:
		return t.vt(types.Unalias(x))
	case *types.Basic:
		switch x.Kind() {
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.Int, types.Int64, types.UntypedInt:
			return "i64"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.Int16:
			return "i16"
		case types.Int8:
			return "i8"
		case types.Uint8:
			return "u8"
		case types.Uint16:
			return "u16"
		case types.Uint32:
			return "u32"
		case types.Uint, types.Uint64:
			return "u64"
		case types.String, types.UntypedString:
			return "Seq<u8>"
		case types.Uintptr:
			return "int" // an address
		case types.Float64:
			return "GoFloat"
		case types.Complex128:
			return "GoComplex"
		}
		bail("type %s", x)
	case *types.Named:
		if x.Obj().Pkg() == nil && x.Obj().Name() == "error" {
			t.needErr = true
			return "GoErr"
		}
		if !inRepo(x.Obj().Pkg()) {
			if m, ok := libTypes[qualName(x.Obj())]; ok {
				return m
			}
			switch x.Underlying().(type) {
			case *types.Basic:
				return t.vt(x.Underlying())
			}
			bail("library type %s", x)
		}
		switch u := x.Underlying().(type) {
		case *types.Struct:
			if x.TypeArgs().Len() > 0 {
				bail("generic struct %s", x)
			}
			t.needStruct(x.Obj(), u)
			return typeName(x.Obj())
		case *types.Interface:
			return "GoAny"
		default:
			if t.isSl(x) {
				return "Sl<" + t.vt(x.Underlying().(*types.Slice).Elem()) + ">"
			}
			return t.vt(u)
		}
	case *types.Pointer:
		return "Option<" + t.vt(x.Elem()) + ">"
	case *types.Slice:
		if t.isSl(x) {
			return "Sl<" + t.vt(x.Elem()) + ">"
		}
		return "Seq<" + t.vt(x.Elem()) + ">"
	case *types.Map:
		return "Map<" + t.vt(x.Key()) + ", " + t.vt(x.Elem()) + ">"
	case *types.Struct:
		if x.NumFields() == 0 {
			return "()"
		}
		bail("anonymous struct type")
	case *types.Interface:
		return "GoAny"
	case *types.Signature:
		return t.funcType(x)
	case *types.TypeParam:
		if t.tsubst != nil {
			if s, ok := t.tsubst[x]; ok {
				return t.vt(s)
			}
		}
		if s := coreSlice(x); s != nil {
			return "Sl<" + t.vt(s.Elem()) + ">"
		}
		return x.Obj().Name()
	case *types.Tuple:
		var ps []string
		for i := 0; i < x.Len(); i++ {
			ps = append(ps, t.vt(x.At(i).Type()))
		}
		return "(" + strings.Join(ps, ", ") + ")"
	}
	bail("type %s (%T)", ty, ty)
	return ""
}

// funcType: a function value is a total pure spec function; pointer
// parameters are threaded as extra results.
func (t *Tr) funcType(sig *types.Signature) string {
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if p, ok := types.Unalias(pt).(*types.Pointer); ok && isRepoStructPtr(p) {
			ps = append(ps, t.vt(p.Elem()))
			rs = append(rs, t.vt(p.Elem()))
			continue
		}
		ps = append(ps, t.vt(pt))
	}
	var rr []string
	for i := 0; i < sig.Results().Len(); i++ {
		rr = append(rr, t.vt(sig.Results().At(i).Type()))
	}
	return "spec_fn(" + strings.Join(ps, ", ") + ") -> " + tupleType(append(rr, rs...))
}

func isRepoStructPtr(p *types.Pointer) bool {
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || !inRepo(n.Obj().Pkg()) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func tupleType(ts []string) string {
	switch len(ts) {
	case 0:
		return "()"
	case 1:
		return ts[0]
	}
	return "(" + strings.Join(ts, ", ") + ")"
}

func (t *Tr) needStruct(n *types.TypeName, s *types.Struct) {
	name := typeName(n)
	if _, ok := t.structs[name]; ok {
		return
	}
	t.structs[name] = "" // in progress
	var b strings.Builder
	fmt.Fprintf(&b, "pub struct %s {\n", name)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		ft := func() (r string) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsupported); !ok {
						panic(e)
					}
					r = "GoOpaque" // a field the model does not interpret
				}
			}()
			saved := t.tsubst
			t.tsubst = nil
			defer func() { t.tsubst = saved }()
			return t.vt(f.Type())
		}()
		fmt.Fprintf(&b, "    pub %s: %s,\n", fieldName(f.Name()), ft)
		t.structFields[name] = append(t.structFields[name], [2]string{fieldName(f.Name()), ft})
	}
	b.WriteString("}\n")
	t.structs[name] = b.String()
}

func (t *Tr) structDefs() string {
	var names []string
	for n := range t.structs {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		b.WriteString(t.structs[n])
	}
	return b.String()
}

// zero value of a type.
func (t *Tr) zero(ty types.Type) string {
	switch x := ty.(type) {
	case *types.Alias:
		return t.zero(types.Unalias(x))
	case *types.Named:
		v := t.vt(x)
		if v == "GoErr" {
			return "GoErr::Nil"
		}
		switch v {
		case "Seq<u8>":
			return "Seq::<u8>::empty()"
		}
		if inRepo(x.Obj().Pkg()) {
			if s, ok := x.Underlying().(*types.Struct); ok {
				t.needStruct(x.Obj(), s)
				return t.structZero(x.Obj(), s)
			}
			if t.isSl(x) {
				return "sl_nil::<" + t.vt(x.Underlying().(*types.Slice).Elem()) + ">()"
			}
			return t.zero(x.Underlying())
		}
		if _, ok := x.Underlying().(*types.Basic); ok {
			return t.zero(x.Underlying())
		}
		return "zero_" + v + "()"
	case *types.Basic:
		switch v := t.vt(x); v {
		case "bool":
			return "false"
		case "Seq<u8>":
			return "Seq::<u8>::empty()"
		default:
			return "0" + v
		}
	case *types.Slice:
		if t.isSl(x) {
			return "sl_nil::<" + t.vt(x.Elem()) + ">()"
		}
		return "Seq::<" + t.vt(x.Elem()) + ">::empty()"
	case *types.Map:
		return "Map::<" + t.vt(x.Key()) + ", " + t.vt(x.Elem()) + ">::empty()"
	case *types.Pointer:
		return "None::<" + t.vt(x.Elem()) + ">"
	case *types.Struct:
		if x.NumFields() == 0 {
			return "()"
		}
	case *types.Interface:
		return "go_any_nil()"
	case *types.TypeParam:
		if t.tsubst != nil {
			if s, ok := t.tsubst[x]; ok {
				return t.zero(s)
			}
		}
		if s := coreSlice(x); s != nil {
			return "sl_nil::<" + t.vt(s.Elem()) + ">()"
		}
		return "zero_of::<" + x.Obj().Name() + ">()"
	case *types.Signature:
		return "arbitrary::<" + t.vt(x) + ">()"
	}
	bail("zero of %s", ty)
	return ""
}

func (t *Tr) structZero(n *types.TypeName, s *types.Struct) string {
	name := typeName(n)
	fn := "zero_" + name
	if !t.zeros[name] {
		t.zeros[name] = true
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			z := func() (r string) {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupported); !ok {
							panic(e)
						}
						r = "zero_GoOpaque()"
					}
				}()
				return t.zero(f.Type())
			}()
			fs = append(fs, fieldName(f.Name())+": "+z)
		}
		t.zeroDefs += fmt.Sprintf("pub open spec fn %s() -> %s { %s { %s } }\n", fn, name, name, strings.Join(fs, ", "))
	}
	return fn + "()"
}
