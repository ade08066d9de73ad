package main

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// --- C12: temporary options ---

// cfgOpt is one option with the setting it names ("*" for the whole) and the
// value it gives to it.
type cfgOpt[T any] struct {
	field string
	val   any
	fn    func(*T)
}

// cfgKit describes one configuration type.
type cfgKit[T any] struct {
	name    string
	opts    func(c *C) []cfgOpt[T]
	apply   func(x *T, o []func(*T))
	restore func(x *T)
	whole   func(v T) func(*T)
}

// visible gives the exported settings of a configuration.
func visible(v any) []any {
	rv := reflect.ValueOf(v)
	var out []any
	for i := 0; i < rv.NumField(); i++ {
		if rv.Type().Field(i).PkgPath == "" {
			out = append(out, rv.Field(i).Interface())
		}
	}
	return out
}

func sameCfg(a, b any) error {
	x, y := visible(a), visible(b)
	n := 0
	for i := 0; i < reflect.TypeOf(a).NumField(); i++ {
		f := reflect.TypeOf(a).Field(i)
		if f.PkgPath != "" {
			continue
		}
		if !reflect.DeepEqual(x[n], y[n]) {
			return fmt.Errorf("setting %s is %v, expected %v", f.Name, x[n], y[n])
		}
		n++
	}
	return nil
}

// put sets the setting of one name.
func put[T any](x *T, field string, val any) {
	f := reflect.ValueOf(x).Elem().FieldByName(field)
	if val == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	f.Set(reflect.ValueOf(val).Convert(f.Type()))
}

// model of one configuration with its saved ones
type cfgModel[T any] struct {
	cur  T
	last *cfgModel[T]
}

func runCfg[T any](c *C, k cfgKit[T]) {
	// each option changes only the setting it names
	for _, base := range []bool{false, true} {
		for i := 0; i < 6; i++ {
			for _, o := range k.opts(c) {
				var x T
				if base {
					for _, p := range k.opts(c) {
						put(&x, p.field, p.val)
					}
				}
				want := x
				put(&want, o.field, o.val)
				c.Try(fmt.Sprintf("%s: option for %s with %v on %+v", k.name, o.field, o.val, visible(x)), func() error {
					o.fn(&x)
					return sameCfg(x, want)
				})
			}
		}
	}
	// histories of applying and restoring
	c.Iter(60, func(i, size int) {
		var x T
		m := &cfgModel[T]{}
		var saved []T
		hist := ""
		for s := 0; s < 1+c.Intn(size+2); s++ {
			if c.Intn(2) == 0 {
				var fs []func(*T)
				next := m.cur
				hist += "Apply("
				for n := c.Intn(4); n > 0; n-- {
					if c.Intn(4) == 0 {
						var w T
						if len(saved) > 0 && c.Intn(2) == 0 {
							w = saved[c.Intn(len(saved))]
						} else if os := k.opts(c); len(os) > 0 {
							put(&w, os[0].field, os[0].val)
						}
						fs = append(fs, k.whole(w))
						next = w
						hist += fmt.Sprintf("whole=%+v ", visible(w))
						continue
					}
					os := k.opts(c)
					o := os[c.Intn(len(os))]
					fs = append(fs, o.fn)
					put(&next, o.field, o.val)
					hist += fmt.Sprintf("%s=%v ", o.field, o.val)
				}
				hist += ") "
				m = &cfgModel[T]{cur: next, last: m}
				c.Try(k.name+": "+hist, func() error { k.apply(&x, fs); return sameCfg(x, m.cur) })
				saved = append(saved, x)
			} else {
				hist += "Restore "
				if m.last != nil {
					m = m.last
				}
				c.Try(k.name+": "+hist, func() error { k.restore(&x); return sameCfg(x, m.cur) })
			}
		}
	})
}

var logA, logB = log.New(&bytes.Buffer{}, "", 0), log.New(&bytes.Buffer{}, "x", 0)

func (c *C) logger() *log.Logger { return []*log.Logger{nil, logA, logB}[c.Intn(3)] }
func (c *C) bit() bool           { return c.Intn(2) == 0 }

func moReadKit() cfgKit[poparse.MoConfig] {
	type T = poparse.MoConfig
	return cfgKit[T]{
		name: "parse.MoConfig",
		opts: func(c *C) []cfgOpt[T] {
			l, b, e := c.logger(), c.bit(), poparse.Endianness(c.Intn(3))
			return []cfgOpt[T]{{"Logger", l, poparse.MoWithLogger(l)}, {"MustBeSorted", b, poparse.MoWithMustBeSorted(b)}, {"Endianness", e, poparse.MoWithEndianness(e)}}
		},
		apply: func(x *T, o []func(*T)) {
			var os []poparse.MoOption
			for _, f := range o {
				os = append(os, f)
			}
			x.ApplyOptions(os...)
		},
		restore: func(x *T) { x.RestoreLastCfg() },
		whole:   func(v T) func(*T) { return poparse.MoWithConfig(v) },
	}
}

func poReadKit() cfgKit[poparse.PoConfig] {
	type T = poparse.PoConfig
	return cfgKit[T]{
		name: "parse.PoConfig",
		opts: func(c *C) []cfgOpt[T] {
			l, r := c.logger(), rune('!'+c.Intn(20))
			a, b, d, e, f, g, h := c.bit(), c.bit(), c.bit(), c.bit(), c.bit(), c.bit(), c.bit()
			return []cfgOpt[T]{
				{"Logger", l, poparse.PoWithLogger(l)}, {"IgnoreComments", a, poparse.PoWithIgnoreComments(a)},
				{"IgnoreAllComments", b, poparse.PoWithIgnoreAllComments(b)}, {"Verbose", d, poparse.PoWithVerbose(d)},
				{"SkipHeader", e, poparse.PoWithSkipHeader(e)}, {"CleanDuplicates", f, poparse.PoWithCleanDuplicates(f)},
				{"ParseObsoletes", g, poparse.PoWithParseObsolete(g)}, {"UseCustomObsoletePrefix", h, poparse.PoWithUseCustomObsoletePrefix(h)},
				{"CustomObsoletePrefix", r, poparse.PoWithCustomObsoletePrefix(r)},
			}
		},
		apply: func(x *T, o []func(*T)) {
			var os []poparse.PoOption
			for _, f := range o {
				os = append(os, f)
			}
			x.ApplyOptions(os...)
		},
		restore: func(x *T) { x.RestoreLastCfg() },
		whole:   func(v T) func(*T) { return poparse.PoWithConfig(v) },
	}
}

func moWriteKit() cfgKit[compile.MoConfig] {
	type T = compile.MoConfig
	return cfgKit[T]{
		name: "compile.MoConfig",
		opts: func(c *C) []cfgOpt[T] {
			l, e := c.logger(), compile.Endianness(c.Intn(3))
			a, b, d, f, g, h := c.bit(), c.bit(), c.bit(), c.bit(), c.bit(), c.bit()
			return []cfgOpt[T]{
				{"Logger", l, compile.MoWithLogger(l)}, {"Endianness", e, compile.MoWithEndianness(e)}, {"Force", a, compile.MoWithForce(a)},
				{"Verbose", b, compile.MoWithVerbose(b)}, {"IgnoreErrors", d, compile.MoWithIgnoreErrors(d)}, {"HashTable", f, compile.MoWithHashTable(f)},
				{"DepureEntries", g, compile.MoWithDepureEntries(g)}, {"SortEntries", h, compile.MoWithSortEntries(h)},
			}
		},
		apply: func(x *T, o []func(*T)) {
			var os []compile.MoOption
			for _, f := range o {
				os = append(os, f)
			}
			x.ApplyOptions(os...)
		},
		restore: func(x *T) { x.RestoreLastCfg() },
		whole:   func(v T) func(*T) { return compile.MoWithConfig(v) },
	}
}

func poWriteKit() cfgKit[compile.PoConfig] {
	type T = compile.PoConfig
	return cfgKit[T]{
		name: "compile.PoConfig",
		opts: func(c *C) []cfgOpt[T] {
			l, r, s := c.logger(), rune('!'+c.Intn(20)), func() string { return c.pick([]string{"", "a", "b c", "é"}) }
			var out []cfgOpt[T]
			b := func(name string, f func(bool) compile.PoOption) {
				v := c.bit()
				out = append(out, cfgOpt[T]{name, v, f(v)})
			}
			t := func(name string, f func(string) compile.PoOption) {
				v := s()
				out = append(out, cfgOpt[T]{name, v, f(v)})
			}
			h := []compile.CSSClassesHighlighting{nil, {}, compile.DefaultHighlight}[c.Intn(3)]
			m := compile.PoLocationMode(c.pick([]string{"full", "never", "file"}))
			out = append(out, cfgOpt[T]{"Logger", l, compile.PoWithLogger(l)}, cfgOpt[T]{"CustomObsoletePrefixRune", r, compile.PoWithCustomObsoletePrefixRune(r)},
				cfgOpt[T]{"Highlight", h, compile.PoWithHighlight(h)}, cfgOpt[T]{"AddLocation", m, compile.PoWithAddLocation(m)})
			b("NoColor", compile.PoWithNoColor)
			b("UseCustomObsoletePrefix", compile.PoWithUseCustomObsoletePrefix)
			b("ManageHeader", compile.PoWithManageHeader)
			b("WordWrap", compile.PoWithWordWrap)
			b("HeaderFields", compile.PoWithHeaderFields)
			b("HeaderComments", compile.PoWithHeaderComments)
			b("CommentFuzzy", compile.PoWithCommentFuzzy)
			b("Verbose", compile.PoWithVerbose)
			b("IgnoreErrors", compile.PoWithIgnoreErrors)
			b("ForcePo", compile.PoWithForcePo)
			b("OmitHeader", compile.PoWithOmitHeader)
			b("ForeignUser", compile.PoWithForeignUser)
			b("NoLocation", compile.PoWithNoLocation)
			t("PackageName", compile.PoWithPackageName)
			t("CopyrightHolder", compile.PoWithCopyrightHolder)
			t("Title", compile.PoWithTitle)
			t("MsgstrPrefix", compile.PoWithMsgstrPrefix)
			t("MsgstrSuffix", compile.PoWithMsgstrSuffix)
			return out
		},
		apply: func(x *T, o []func(*T)) {
			var os []compile.PoOption
			for _, f := range o {
				os = append(os, f)
			}
			x.ApplyOptions(os...)
		},
		restore: func(x *T) { x.RestoreLastCfg() },
		whole:   func(v T) func(*T) { return compile.PoWithConfig(v) },
	}
}

func goKit() cfgKit[parse.Config] {
	type T = parse.Config
	return cfgKit[T]{
		name: "go/parse.Config",
		opts: func(c *C) []cfgOpt[T] {
			l, a, b, d, e, x := c.logger(), c.bit(), c.bit(), c.bit(), c.bit(), []string{"x", "y"}[:c.Intn(3)]
			hc := []*po.HeaderConfig{nil, {Nplurals: 3, Language: "de"}}[c.Intn(2)]
			h := []*po.Header{nil, {Fields: []po.HeaderField{{Key: "a", Value: "b"}}}}[c.Intn(2)]
			return []cfgOpt[T]{
				{"Logger", l, parse.WithLogger(l)}, {"ExtractAll", a, parse.WithExtractAll(a)}, {"NoHeader", b, parse.WithNoHeader(b)}, {"Verbose", d, parse.WithVerbose(d)},
				{"CleanDuplicates", e, parse.WithCleanDuplicates(e)}, {"Exclude", x, parse.WithExclude(x...)}, {"HeaderConfig", hc, parse.WithHeaderConfig(hc)}, {"CustomHeader", h, parse.WithCustomHeader(h)},
			}
		},
		apply: func(x *T, o []func(*T)) {
			var os []parse.Option
			for _, f := range o {
				os = append(os, f)
			}
			x.ApplyOptions(os...)
		},
		restore: func(x *T) { x.RestoreLastCfg() },
		whole:   func(v T) func(*T) { return parse.WithConfig(v) },
	}
}

// tempOpts runs an operation with temporary options on a receiver whose
// configuration has a history, against the same operation on a fresh receiver
// configured directly, and looks at the configuration afterwards.
// run gives the result of the operation on the receiver with the options, or,
// with none, that of the plain operation.
func tempOpts[T any](c *C, k cfgKit[T], op string, cfg *T, with func(o []func(*T)) any, plain func() any) {
	var before T // what the caller had before their own options
	for _, o := range k.opts(c) {
		put(&before, o.field, o.val)
	}
	*cfg = before
	var mine []func(*T)
	now := before
	if c.bit() {
		for _, o := range k.opts(c) {
			if c.Intn(3) == 0 {
				mine = append(mine, o.fn)
				put(&now, o.field, o.val)
			}
		}
	}
	k.apply(cfg, mine)
	during := now
	hist := fmt.Sprintf("configuration %+v, then options: ", visible(now))
	var temp []func(*T)
	for n := c.Intn(4); n > 0; n-- {
		if c.Intn(3) == 0 {
			var w T
			for _, o := range k.opts(c) {
				put(&w, o.field, o.val)
			}
			temp = append(temp, k.whole(w))
			during = w
			hist += fmt.Sprintf("whole=%+v ", visible(w))
			continue
		}
		os := k.opts(c)
		o := os[c.Intn(len(os))]
		temp = append(temp, o.fn)
		put(&during, o.field, o.val)
		hist += fmt.Sprintf("%s=%v ", o.field, o.val)
	}
	c.Try(k.name+" "+op+": "+hist, func() error {
		keep := *cfg
		*cfg = during
		want := plain()
		*cfg = keep
		got := with(temp)
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s with these options gives %.2000v, the options in the configuration give %.2000v", op, got, want)
		}
		if err := sameCfg(*cfg, now); err != nil {
			return fmt.Errorf("the configuration after %s: %v", op, err)
		}
		k.restore(cfg)
		if err := sameCfg(*cfg, before); err != nil {
			return fmt.Errorf("%s and then restoring what was saved before it: %v", op, err)
		}
		return nil
	})
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}

func errTexts(es []error) (out []string) {
	for _, e := range es {
		out = append(out, e.Error())
	}
	return
}

func fileOf(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "no file"
	}
	return string(b)
}

func moOpts[T any, O ~func(*T)](o []func(*T)) (out []O) {
	for _, f := range o {
		out = append(out, O(f))
	}
	return
}

func init() {
	register("C12", "settings", "every option on zero and random configurations, histories of applying and restoring with options that replace the whole configuration", func(c *C) {
		runCfg(c, moReadKit())
		runCfg(c, poReadKit())
		runCfg(c, moWriteKit())
		runCfg(c, poWriteKit())
		runCfg(c, goKit())
	})
	register("C12", "operations", "every operation with temporary options, succeeding and failing, against the options in the configuration", func(c *C) {
		n := 0
		path := func() string {
			n++
			return filepath.Join(scratch, fmt.Sprintf("c12-%d", n))
		}
		c.Iter(60, func(i, size int) {
			es := c.entries(size)
			file := &po.File{Name: "f.po", Entries: es}
			limit := c.Intn(2000)
			writer := func() *failWriter { return &failWriter{after: limit} }
			badDir := c.Intn(3) == 0
			exists := c.bit()
			outFile := func() string {
				if badDir {
					return filepath.Join(scratch, "missing", "x")
				}
				p := filepath.Join(scratch, "c12-out")
				os.Remove(p)
				if exists {
					os.WriteFile(p, []byte("old"), 0o600)
				}
				return p
			}
			_ = path
			{
				mc := compile.MoCompiler{File: file}
				type O = compile.MoOption
				k := moWriteKit()
				tempOpts(c, k, "ToBytesWithOptions", &mc.Config, func(o []func(*compile.MoConfig)) any {
					return string(mc.ToBytesWithOptions(moOpts[compile.MoConfig, O](o)...))
				}, func() any { return string(mc.ToBytes()) })
				tempOpts(c, k, "ToWriterWithOptions", &mc.Config,
					func(o []func(*compile.MoConfig)) any {
						w := writer()
						err := mc.ToWriterWithOptions(w, moOpts[compile.MoConfig, O](o)...)
						return w.b.String() + errText(err)
					},
					func() any { w := writer(); err := mc.ToWriter(w); return w.b.String() + errText(err) })
				tempOpts(c, k, "ToFileWithOptions", &mc.Config,
					func(o []func(*compile.MoConfig)) any {
						p := outFile()
						err := mc.ToFileWithOptions(p, moOpts[compile.MoConfig, O](o)...)
						return errText(err) + fileOf(p)
					},
					func() any { p := outFile(); err := mc.ToFile(p); return errText(err) + fileOf(p) })
			}
			{
				pc := compile.PoCompiler{File: file}
				type O = compile.PoOption
				k := poWriteKit()
				fresh := func() { pc.File = &po.File{Name: "f.po", Entries: cpEntries(es)} }
				tempOpts(c, k, "ToBytesWithOptions", &pc.Config, func(o []func(*compile.PoConfig)) any {
					fresh()
					return string(pc.ToBytesWithOptions(moOpts[compile.PoConfig, O](o)...))
				}, func() any { fresh(); return string(pc.ToBytes()) })
				tempOpts(c, k, "ToStringWithOptions", &pc.Config, func(o []func(*compile.PoConfig)) any {
					fresh()
					return pc.ToStringWithOptions(moOpts[compile.PoConfig, O](o)...)
				}, func() any { fresh(); return pc.ToString() })
				tempOpts(c, k, "ToWriterWithOptions", &pc.Config,
					func(o []func(*compile.PoConfig)) any {
						fresh()
						w := writer()
						err := pc.ToWriterWithOptions(w, moOpts[compile.PoConfig, O](o)...)
						return w.b.String() + errText(err)
					},
					func() any { fresh(); w := writer(); err := pc.ToWriter(w); return w.b.String() + errText(err) })
				tempOpts(c, k, "ToFileWithOptions", &pc.Config,
					func(o []func(*compile.PoConfig)) any {
						fresh()
						p := outFile()
						err := pc.ToFileWithOptions(p, moOpts[compile.PoConfig, O](o)...)
						return errText(err) + fileOf(p)
					},
					func() any { fresh(); p := outFile(); err := pc.ToFile(p); return errText(err) + fileOf(p) })
			}
			{
				text := compile.PoCompiler{File: &po.File{Entries: cpEntries(es)}, Config: compile.DefaultPoConfig()}.ToString()
				if c.Intn(3) == 0 && len(text) > 0 {
					text = text[:c.Intn(len(text))]
				}
				p := poparse.NewPoFromString(text, "f.po")
				res := func(f *po.File) any { return []any{f, errTexts(p.Errors())} }
				tempOpts(c, poReadKit(), "ParseWithOptions", &p.Config, func(o []func(*poparse.PoConfig)) any {
					return res(p.ParseWithOptions(moOpts[poparse.PoConfig, poparse.PoOption](o)...))
				}, func() any { return res(p.Parse()) })
			}
			{
				data := compile.NewMo(file).ToBytes()
				if c.Intn(3) == 0 {
					data = data[:c.Intn(len(data))]
				}
				p := poparse.NewMoFromBytes(data, "f.mo")
				res := func(f *po.File) any { return []any{f, errTexts(p.Errors())} }
				tempOpts(c, moReadKit(), "ParseWithOptions", &p.Config, func(o []func(*poparse.MoConfig)) any {
					return res(p.ParseWithOptions(moOpts[poparse.MoConfig, poparse.MoOption](o)...))
				}, func() any { return res(p.Parse()) })
			}
			{
				src := "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar s = \"plain\"\n\nfunc f() {\n"
				for k := c.Intn(4); k > 0; k-- {
					src += "\tgotext.Get(\"" + c.small(3) + "\")\n"
				}
				p, err := parse.NewParserFromString(src+"}\n", "f.go")
				if err != nil {
					return
				}
				res := func(f *po.File) any {
					// the header names the time it was made
					var es po.Entries
					for _, e := range f.Entries {
						if e.ID != "" {
							es = append(es, e)
						} else {
							es = append(es, po.Entry{Str: strings.SplitN(e.Str, "\n", 2)[0]})
						}
					}
					return []any{es, errTexts(p.Errors())}
				}
				tempOpts(c, goKit(), "ParseWithOptions", &p.Config, func(o []func(*parse.Config)) any {
					return res(p.ParseWithOptions(moOpts[parse.Config, parse.Option](o)...))
				}, func() any { return res(p.Parse()) })
			}
		})
	})
}
