package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// --- C11: extraction from Go sources ---

// want is a message as the program that was written says it.
type want struct {
	id, plural, ctx string
	line            int
	call            bool // a call of the package, not a literal of its own
}

// goGen writes a Go file and keeps account of the messages in it.
type goGen struct {
	*C
	b     strings.Builder
	names []string // names of the package in this file
	msgs  []want   // every message, with extract-all
	shade int      // functions written so far
}

var goFuncs = map[string][3]int{ // id, plural, context
	"Get": {0, -1, -1}, "GetN": {0, 1, -1}, "GetD": {1, -1, -1}, "GetND": {1, 2, -1},
	"GetC": {0, -1, 1}, "GetNC": {0, 1, 3}, "GetDC": {1, -1, 2}, "GetNDC": {1, 2, 4},
}
var goFuncArgs = map[string]int{"Get": 1, "GetN": 3, "GetD": 2, "GetND": 4, "GetC": 2, "GetNC": 4, "GetDC": 3, "GetNDC": 5}
var goFuncNames = []string{"Get", "GetN", "GetD", "GetND", "GetC", "GetNC", "GetDC", "GetNDC"}

func (g *goGen) w(s string) { g.b.WriteString(s) }
func (g *goGen) line() int  { return 1 + strings.Count(g.b.String(), "\n") }

func (g *goGen) lit() (src, val string) {
	val = g.text(2)
	if g.Intn(4) == 0 {
		val = g.pick([]string{"", "\n", "\nfirst", "one\ntwo\n", "a", "%s", "caf\u00e9", "\u2028", "//", "/*"})
	}
	if !strings.ContainsAny(val, "`\r\x00\ufeff") && g.Intn(3) == 0 {
		return "`" + val + "`", val
	}
	if g.Intn(5) == 0 {
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(val); i++ {
			fmt.Fprintf(&b, []string{"\\x%02x", "\\%03o"}[g.Intn(2)], val[i])
		}
		return b.String() + "\"", val
	}
	return strconv.Quote(val), val
}

func (g *goGen) gap() {
	switch g.Intn(14) {
	case 0:
		g.w("\n\t\t")
	case 1:
		g.w(" /* \"not a literal\" */ ")
	case 2:
		g.w(" // \"nor\" this\n")
	case 3:
		g.w(" ")
	}
}

// plain writes a string literal that is no text of a call.
func (g *goGen) plain() {
	src, val := g.lit()
	if val != "" {
		g.msgs = append(g.msgs, want{id: val, line: g.line()})
	}
	g.w(src)
}

// value writes an expression that is no string literal.
func (g *goGen) value(depth, from int) {
	switch from + g.Intn(9-from) {
	case 0:
		g.w("x")
	case 1:
		g.w("'c'")
	case 2:
		g.w("3")
	case 3:
		g.w("(")
		g.plain()
		g.w(")")
	case 4:
		g.plain()
		g.w(" + ")
		g.plain()
	case 5:
		g.w("T{a: ")
		g.plain()
		g.w("}.a")
	case 6:
		if depth < 2 {
			g.call(depth + 1)
		} else {
			g.w("y")
		}
	case 7:
		g.w("func() string { return ")
		if depth < 2 {
			g.call(depth + 1)
		} else {
			g.plain()
		}
		g.w(" }()")
	default:
		g.w("v[2]")
	}
}

// call writes a call that counts, or looks as if it did.
func (g *goGen) call(depth int) {
	fn := goFuncNames[g.Intn(len(goFuncNames))]
	pos := goFuncs[fn]
	n := goFuncArgs[fn] + g.Intn(2)
	counts := len(g.names) > 0
	recv := ""
	if counts {
		recv = g.names[g.Intn(len(g.names))]
	}
	if recv == "_" || recv == "." {
		counts, recv = false, ""
	}
	other := fn
	switch g.Intn(12) {
	case 0:
		counts, recv = false, g.pick([]string{"gotext2", "other", "fmt", "l"})
	case 1:
		counts, other = false, g.pick([]string{"Got", "GetX", "get", "SetDomain", "GetNDCs", ""})
		if other == "" {
			other = "Get_"
		}
	case 2:
		if recv == "" {
			recv = "gotext"
		}
		counts, recv = false, recv+".Sub"
	case 3:
		// all arguments from one call
		if recv == "" {
			recv = "gotext"
		}
		g.w(recv + "." + fn + "(args())")
		return
	case 4:
		counts, recv = false, ""
	}
	if recv == "" {
		g.w("my" + other)
	} else {
		g.w(recv)
		if g.Intn(15) == 0 {
			g.w(".\n\t")
		} else {
			g.w(".")
		}
		g.w(other)
	}
	g.w("(")
	// the arguments are decided on first: a call stands before what is in it
	type arg struct {
		lit      bool
		src, val string
	}
	args := make([]arg, n)
	for i := range args {
		text := i == pos[0] || i == pos[1] || i == pos[2]
		if text && g.Intn(6) > 0 || !text && g.Intn(3) == 0 {
			args[i].lit = true
			args[i].src, args[i].val = g.lit()
		}
	}
	role := func(i int) bool {
		return counts && args[pos[0]].lit && args[pos[0]].val != "" && (i == pos[0] || i == pos[1] || i == pos[2])
	}
	me := -1
	if counts && args[pos[0]].lit && args[pos[0]].val != "" {
		m := want{id: args[pos[0]].val, call: true}
		if pos[1] >= 0 && args[pos[1]].lit {
			m.plural = args[pos[1]].val
		}
		if pos[2] >= 0 && args[pos[2]].lit {
			m.ctx = args[pos[2]].val
		}
		me = len(g.msgs)
		g.msgs = append(g.msgs, m)
	}
	for i, a := range args {
		if i > 0 {
			g.w(",")
		}
		g.gap()
		if i == pos[0] && me >= 0 {
			g.msgs[me].line = g.line()
		}
		switch {
		case !a.lit:
			if i == pos[0] || i == pos[1] || i == pos[2] {
				g.value(depth+1, 3)
			} else {
				g.value(depth+1, 1)
			}
		case role(i):
			g.w(a.src)
		default:
			if a.val != "" {
				g.msgs = append(g.msgs, want{id: a.val, line: g.line()})
			}
			g.w(a.src)
		}
	}
	if g.Intn(10) == 0 {
		g.w(",\n\t")
	}
	g.w(")")
}

const gotextPath = "github.com/leonelquinteros/gotext"

func (c *C) goFile(size int) (string, []want) {
	g := &goGen{C: c}
	for n := c.Intn(3); n > 0; n-- {
		g.w("// \"comment\" gotext.Get(\"comment\")\n")
	}
	g.w("package p\n")
	imports := []string{}
	for n := []int{0, 1, 1, 1, 1, 2}[c.Intn(6)]; n > 0; n-- {
		alias := g.pick([]string{"", "", "", "gotext", "i18n", "_t", "_", ".", "Ü"})
		q := "\"" + gotextPath + "\""
		if c.Intn(6) == 0 {
			q = "`" + gotextPath + "`"
		}
		imports = append(imports, strings.TrimSpace(alias+" "+q))
		if alias == "" {
			alias = "gotext"
		}
		g.names = append(g.names, alias)
	}
	for n := c.Intn(3); n > 0; n-- {
		imports = append(imports, g.pick([]string{`"fmt"`, `f "fmt"`, `"github.com/leonelquinteros/gotext/v2"`, `"github.com/other/gotext"`, "l `log`", `_ "embed"`, `. "strings"`}))
	}
	c.Shuffle(len(imports), func(i, j int) { imports[i], imports[j] = imports[j], imports[i] })
	if c.Intn(2) == 0 {
		g.w("import (\n")
		for _, i := range imports {
			g.w("\t" + i + "\n")
		}
		g.w(")\n")
	} else {
		for _, i := range imports {
			g.w("import " + i + "\n")
		}
	}
	for n := c.Intn(size + 1); n > 0; n-- {
		switch c.Intn(9) {
		case 0:
			g.w("\nvar v" + strconv.Itoa(n) + " = ")
			g.plain()
			g.w("\n")
		case 1:
			g.w("\nconst k" + strconv.Itoa(n) + " = ")
			g.plain()
			g.w("\n")
		case 2:
			g.w("\ntype S" + strconv.Itoa(n) + " struct {\n\tA int ")
			g.plain()
			g.w("\n}\n")
		case 3:
			g.w("\nvar w" + strconv.Itoa(n) + " = ")
			g.call(0)
			g.w("\n")
		case 4:
			// the package's name means something else in here
			if len(g.names) > 0 && g.names[0] != "_" && g.names[0] != "." {
				k := g.names[0]
				src, val := "\"shadowed\"", "shadowed"
				switch c.Intn(3) {
				case 0:
					g.w(fmt.Sprintf("\nfunc s%d(%s T) {\n\t%s.Get(", n, k, k))
				case 1:
					g.w(fmt.Sprintf("\nfunc s%d() {\n\t%s := T{}\n\t%s.Get(", n, k, k))
				case 2:
					g.w(fmt.Sprintf("\nfunc s%d() {\n\tvar %s T\n\tfunc() { %s.GetD(x, ", n, k, k))
					g.msgs = append(g.msgs, want{id: val, line: g.line()})
					g.w(src + ") }()\n}\n")
					continue
				}
				g.msgs = append(g.msgs, want{id: val, line: g.line()})
				g.w(src + ")\n}\n")
				continue
			}
			fallthrough
		default:
			g.shade++
			g.w(fmt.Sprintf("\nfunc f%d() {\n", g.shade))
			for k := c.Intn(4); k >= 0; k-- {
				switch c.Intn(7) {
				case 0:
					g.w("\tif x == ")
					g.plain()
					g.w(" {\n\t\tg(")
					g.call(0)
					g.w(")\n\t}\n")
				case 1:
					g.w("\tswitch x {\n\tcase ")
					g.plain()
					g.w(":\n\t\t_ = ")
					g.call(0)
					g.w("\n\t}\n")
				case 2:
					g.w("\tgo g(")
					g.value(0, 0)
					g.w(")\n")
				case 3:
					g.w("\tm := map[string]string{")
					g.plain()
					g.w(": ")
					g.call(0)
					g.w("}\n")
				default:
					g.w("\t")
					g.call(0)
					g.w("\n")
				}
			}
			g.w("}\n")
		}
	}
	return g.b.String(), g.msgs
}

// messagesOf says what extraction gives for a file.
func messagesOf(ms []want, name string, all bool) (out []string) {
	for _, m := range ms {
		if m.call || all {
			out = append(out, fmt.Sprintf("id=%q plural=%q ctx=%q at %s:%d", m.id, m.plural, m.ctx, name, m.line))
		}
	}
	return out
}

func shownEntries(es po.Entries) (out []string, err error) {
	for _, e := range es {
		if len(e.Locations) != 1 || e.Str != "" || len(e.Plurals) > 0 || len(e.Flags) > 0 || e.Obsolete || len(e.Comments)+len(e.ExtractedComments) > 0 {
			return nil, fmt.Errorf("unexpected parts in %+v", e)
		}
		out = append(out, fmt.Sprintf("id=%q plural=%q ctx=%q at %s:%d", e.ID, e.Plural, e.Context, e.Locations[0].File, e.Locations[0].Line))
	}
	return out, nil
}

func sameMessages(what string, got po.Entries, want []string) error {
	g, err := shownEntries(got)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for i := 0; i < len(g) || i < len(want); i++ {
		switch {
		case i >= len(g):
			return fmt.Errorf("%s: message %d is missing: %s", what, i, want[i])
		case i >= len(want):
			return fmt.Errorf("%s: unexpected message %d: %s", what, i, g[i])
		case g[i] != want[i]:
			return fmt.Errorf("%s: message %d is %s, expected %s", what, i, g[i], want[i])
		}
	}
	return nil
}

// summary of entries with duplicates joined: keys in order, and all locations.
func joined(es po.Entries) string {
	var ks []string
	locs := map[string][]string{}
	for _, e := range es {
		k := fmt.Sprintf("%q/%q", e.Context, e.ID)
		if _, ok := locs[k]; !ok {
			ks = append(ks, k)
		}
		for _, l := range e.Locations {
			locs[k] = append(locs[k], fmt.Sprintf("%s:%d", l.File, l.Line))
		}
	}
	var b strings.Builder
	sort.Strings(ks)
	for _, k := range ks {
		sort.Strings(locs[k])
		fmt.Fprintf(&b, "%s %v\n", k, uniq(locs[k]))
	}
	return b.String()
}

func uniq(l []string) (out []string) {
	for _, s := range l {
		if len(out) == 0 || out[len(out)-1] != s {
			out = append(out, s)
		}
	}
	return out
}

func init() {
	register("C11", "source", "generated Go files, written together with the messages they hold: from bytes, string, reader, open file and path, extract-all or not; twice; duplicates cleaned", func(c *C) {
		path := filepath.Join(scratch, "one.go")
		c.Iter(1500, func(i, size int) {
			src, ms := c.goFile(size)
			all := c.Intn(2) == 0
			name := []string{"a.go", "", "d/x y.go", "a.go"}[c.Intn(4)]
			kind := c.Intn(7)
			c.Try(map[string]any{"source": src, "name": name, "all": all, "through": kind}, func() error {
				opts := []goparse.Option{goparse.WithNoHeader(true), goparse.WithExtractAll(all), goparse.WithCleanDuplicates(false)}
				var f *po.File
				var err error
				switch kind {
				case 0:
					f, err = goparse.FromBytes([]byte(src), name, opts...)
				case 1:
					f, err = goparse.FromString(src, name, opts...)
				case 2:
					f, err = goparse.FromReader(iotest.OneByteReader(strings.NewReader(src)), name, opts...)
				case 3:
					if err := os.WriteFile(path, []byte(src), 0o644); err != nil {
						return nil
					}
					name = path
					f, err = goparse.FromPath(path, opts...)
				case 4:
					if err := os.WriteFile(path, []byte(src), 0o644); err != nil {
						return nil
					}
					h, e := os.Open(path)
					if e != nil {
						return nil
					}
					defer h.Close()
					name = path
					f, err = goparse.FromFile(h, opts...)
				case 5:
					// one operation with other options, then again
					p, e := goparse.NewParserFromString(src, name, append(opts, goparse.WithExtractAll(!all))...)
					if e != nil {
						return fmt.Errorf("valid file refused: %w", e)
					}
					f = p.ParseWithOptions(goparse.WithExtractAll(all))
					if err := sameMessages("with options", f.Entries, messagesOf(ms, name, all)); err != nil {
						return err
					}
					f = p.Parse()
					all = !all
					err = p.Error()
				case 6:
					// duplicates joined, header in front
					f, err = goparse.FromString(src, name, goparse.WithExtractAll(all))
					if err != nil {
						return fmt.Errorf("valid file refused: %w", err)
					}
					if len(f.Entries) == 0 || !f.Entries[0].IsHeader() {
						return errors.New("no header in front")
					}
					got := f.Entries[1:]
					raw, err := goparse.FromString(src, name, opts...)
					if err != nil {
						return err
					}
					if err := sameMessages("all of them", raw.Entries, messagesOf(ms, name, all)); err != nil {
						return err
					}
					if a, b := joined(got), joined(raw.Entries); a != b {
						return fmt.Errorf("duplicates joined:\n%s\nexpected:\n%s", a, b)
					}
					seen := map[string]bool{}
					for _, e := range got {
						k := fmt.Sprintf("%q/%q", e.Context, e.ID)
						if seen[k] {
							return fmt.Errorf("%s twice", k)
						}
						seen[k] = true
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("valid file refused: %w", err)
				}
				return sameMessages("extracted", f.Entries, messagesOf(ms, name, all))
			})
		})
	})
	register("C11", "header", "the header in front of the messages: none, the usual one, one from settings, one given; from bytes, readers and open files; files and readers that cannot be parsed", func(c *C) {
		n := 0
		c.Iter(300, func(i, size int) {
			n++
			src, ms := c.goFile(2)
			mode, how, bad := c.Intn(5), c.Intn(4), c.Intn(5) == 0
			hc := po.HeaderConfig{Template: c.Intn(2) == 0, Language: c.pick([]string{"", "de", "pt_BR"}), ProjectIDVersion: c.pick([]string{"", "p 1.0"}), XGenerator: c.pick([]string{"", "other"}), Charset: "UTF-8", MediaType: "text/plain", ExtraFields: []po.HeaderField{{Key: "X-K", Value: "v"}}}
			hd := po.Header{Template: c.Intn(2) == 0}
			hd.Set("Language", "fr")
			hd.Set("X-Mine", c.pick([]string{"a", "b"}))
			if bad {
				src = c.pick([]string{"", "package", src + "\nfunc (", "x" + src})
			}
			c.Try(map[string]any{"source": src, "mode": mode, "how": how, "settings": hc, "header": hd}, func() error {
				opts := []goparse.Option{goparse.WithCleanDuplicates(false)}
				given := hc
				var head *po.Entry
				fromConfig := func(h po.HeaderConfig) {
					h.XGenerator = "xgotext"
					e := h.ToHeader().ToEntry()
					head = &e
				}
				switch mode {
				case 0:
					opts = append(opts, goparse.WithNoHeader(true), goparse.WithHeaderConfig(&given))
				case 1:
					fromConfig(po.DefaultTemplateHeaderConfig())
				case 2:
					opts = append(opts, goparse.WithHeaderConfig(&given))
					fromConfig(hc)
				case 3, 4:
					own := hd
					own.Fields = append([]po.HeaderField{}, hd.Fields...)
					opts = append(opts, goparse.WithCustomHeader(&own))
					if mode == 4 {
						opts = append(opts, goparse.WithHeaderConfig(&given))
					}
					e := hd.ToEntry()
					head = &e
				}
				name := filepath.Join(scratch, fmt.Sprintf("head%d.go", n))
				if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
					return nil
				}
				defer os.Remove(name)
				h, err := os.Open(name)
				if err != nil {
					return nil
				}
				defer h.Close()
				var f *po.File
				switch how {
				case 0:
					f, err = goparse.FromBytes([]byte(src), name, opts...)
				case 1:
					f, err = goparse.FromReader(strings.NewReader(src), name, opts...)
				case 2:
					f, err = goparse.FromFile(h, opts...)
				case 3:
					hs := []*os.File{h}
					if bad && i%2 == 0 {
						// one that does parse, before or after
						other := name + ".other"
						if os.WriteFile(other, []byte("package p\n"), 0o644) != nil {
							return nil
						}
						defer os.Remove(other)
						o, err := os.Open(other)
						if err != nil {
							return nil
						}
						defer o.Close()
						hs = append(hs, o)
						if i%4 == 0 {
							hs = []*os.File{o, h}
						}
					}
					f, err = goparse.FromFiles(hs, opts...)
				}
				if bad {
					if err == nil {
						return errors.New("a source that does not parse is not reported")
					}
					p, err := goparse.NewParserFromFile(h, opts...)
					if (p == nil) != (err != nil) {
						return fmt.Errorf("NewParserFromFile gives %v and the error %v", p, err)
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("reported: %w", err)
				}
				if f == nil {
					return errors.New("no file")
				}
				got := f.Entries
				if head != nil {
					if len(got) == 0 || !eqEntry(got[0], *head) {
						return fmt.Errorf("the first entry of %v is not the header %v", got, *head)
					}
					got = got[1:]
				}
				if given.XGenerator != hc.XGenerator {
					return errors.New("the settings given were changed")
				}
				return sameMessages("extracted", got, messagesOf(ms, name, false))
			})
		})
	})
	register("C11", "file", "one File used again and again: Entries twice, Reset to other sources, names and settings, from readers read in part; a source that does not parse", func(c *C) {
		c.Iter(400, func(i, size int) {
			type step struct {
				Src, Name string
				All, Bad  bool
				msgs      []want
			}
			var steps []step
			for n := 1 + c.Intn(4); n > 0; n-- {
				src, ms := c.goFile(size)
				s := step{Src: src, Name: c.pick([]string{"a.go", "b.go", "a.go"}), All: c.Intn(2) == 0, msgs: ms}
				if c.Intn(8) == 0 {
					s.Bad = true
					s.Src = c.pick([]string{"", "package", src + "\nfunc (", "x" + src})
				}
				steps = append(steps, s)
			}
			c.Try(steps, func() error {
				var f *goparse.File
				for k, s := range steps {
					cfg := goparse.DefaultConfig(goparse.WithExtractAll(s.All))
					var err error
					if f == nil {
						f, err = goparse.NewFile(iotest.HalfReader(strings.NewReader(s.Src)), s.Name, &cfg)
					} else if k%2 == 0 {
						err = f.Reset(strings.NewReader(s.Src), s.Name, &cfg)
					} else {
						r := bytes.NewReader([]byte("junk" + s.Src))
						r.Seek(4, 0)
						err = f.Reset(r, s.Name, &cfg)
					}
					if (err != nil) != s.Bad {
						return fmt.Errorf("source %d: error %v", k, err)
					}
					if s.Bad {
						f = nil
						continue
					}
					for t := 0; t < 2; t++ {
						if err := sameMessages(fmt.Sprintf("source %d, time %d", k, t), f.Entries(), messagesOf(s.msgs, s.Name, s.All)); err != nil {
							return err
						}
						if f.Error() != nil {
							return fmt.Errorf("source %d: %w", k, f.Error())
						}
					}
				}
				return nil
			})
		})
	})
	register("C11", "paths", "directories of generated Go files and other files, paths given twice, excluded files, files that are missing or do not parse", func(c *C) {
		n := 0
		c.Iter(250, func(i, size int) {
			n++
			root := filepath.Join(scratch, fmt.Sprintf("tree%d", n))
			defer os.RemoveAll(root)
			type file struct {
				Path, Src string
				Excluded  bool
				msgs      []want
			}
			var files []file
			used := map[string]bool{}
			for k := c.Intn(5); k >= 0; k-- {
				p := filepath.Join(c.pick([]string{"", "d", "d/e", "z"}), c.pick([]string{"a.go", "b.go", "B.go", "b_test.go", ".h.go", "x.txt", "go", "a.go.txt", ".go", "c.GO"}))
				if used[p] {
					continue
				}
				used[p] = true
				src, ms := c.goFile(size)
				files = append(files, file{p, src, c.Intn(5) == 0, ms})
			}
			bad := c.Intn(10)
			var paths []string
			switch c.Intn(3) {
			case 0:
				paths = []string{root}
			case 1:
				paths = []string{root, root}
			case 2:
				for _, f := range files {
					paths = append(paths, filepath.Join(root, f.Path))
				}
				paths = append(paths, root)
			}
			all := c.Intn(2) == 0
			c.Try(map[string]any{"files": files, "paths": paths, "all": all, "bad": bad}, func() error {
				os.MkdirAll(root, 0o755)
				var exclude []string
				for _, f := range files {
					p := filepath.Join(root, f.Path)
					os.MkdirAll(filepath.Dir(p), 0o755)
					if err := os.WriteFile(p, []byte(f.Src), 0o644); err != nil {
						return nil
					}
					if f.Excluded {
						exclude = append(exclude, p)
					}
				}
				if all {
					// no file is called so
					exclude = append(exclude, filepath.Join(root, "b"), filepath.Join(root, "d", "a"), "a.go", "b.go", "/a.go", filepath.Join(root, "a.go", "x.go"))
				}
				fails := false
				switch bad {
				case 0:
					paths = append(paths, filepath.Join(root, "missing.go"))
					fails = true
				case 1:
					os.WriteFile(filepath.Join(root, "bad.go"), []byte("package p\nfunc {"), 0o644)
					fails = true
				case 2:
					// not read, so it does not matter
					os.WriteFile(filepath.Join(root, "bad.go"), []byte("package p\nfunc {"), 0o644)
					exclude = append(exclude, filepath.Join(root, "d", "..", "bad.go"))
				}
				// what there is, in the order of the walk
				var expect []string
				done := map[string]bool{}
				for _, p := range paths {
					filepath.Walk(p, func(q string, info os.FileInfo, err error) error {
						if err != nil || info.IsDir() {
							return nil
						}
						for _, f := range files {
							if filepath.Join(root, f.Path) == q && strings.HasSuffix(q, ".go") && !done[q] {
								done[q] = true
								if !f.Excluded {
									expect = append(expect, messagesOf(f.msgs, q, all)...)
								}
							}
						}
						return nil
					})
				}
				opts := []goparse.Option{goparse.WithNoHeader(true), goparse.WithExtractAll(all), goparse.WithCleanDuplicates(false), goparse.WithExclude(exclude...)}
				var f *po.File
				var err error
				if len(paths) == 1 && c.Intn(2) == 0 {
					f, err = goparse.FromPath(paths[0], opts...)
				} else {
					f, err = goparse.FromPaths(paths, opts...)
				}
				if fails {
					if err == nil {
						return errors.New("a file that cannot be read or parsed is not reported")
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("reported: %w", err)
				}
				if err := sameMessages("extracted", f.Entries, expect); err != nil {
					return err
				}
				// duplicates joined, also those of different files
				g, err := goparse.FromPaths(paths, append(opts, goparse.WithCleanDuplicates(true))...)
				if err != nil {
					return fmt.Errorf("reported: %w", err)
				}
				if a, b := joined(g.Entries), joined(f.Entries); a != b {
					return fmt.Errorf("duplicates joined:\n%s\nexpected:\n%s", a, b)
				}
				seen := map[string]bool{}
				for _, e := range g.Entries {
					k := fmt.Sprintf("%q/%q", e.Context, e.ID)
					if seen[k] {
						return fmt.Errorf("%s twice", k)
					}
					seen[k] = true
				}
				return nil
			})
		})
	})
}
