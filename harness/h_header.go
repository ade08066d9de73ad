package main

import (
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// --- C13: headers ---

var fieldNames = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator", "X-Poedit-Basepath", "X", "language", "Language ", "x-é"}

var fieldValues = []string{"", " ", "v", "2024-01-02 10:20+0300", "YEAR-MO-DA HO:MI+ZONE", "http://example.org:80/a?b=c", "a: b: c", "text/plain; charset=UTF-8", "nplurals=2; plural=(n != 1);", "nplurals=1; plural=0;", "trailing ", "trailing\t", "é日本", "a\\nb", "\"q\"", ":", "::", "FULL NAME <EMAIL@ADDRESS>", "1.0", "8bit"}

func (c *C) fieldName() string { return strings.TrimRight(c.pick(fieldNames), " ") }

// fieldValue is one that fits on a line of its own.
func (c *C) fieldValue() string { return strings.TrimLeft(c.pick(fieldValues), " ") }

func (c *C) header(ok bool) po.Header {
	h := po.Header{Template: c.bit()}
	for n := c.Intn(7); n > 0; n-- {
		if ok {
			h.Fields = append(h.Fields, po.HeaderField{Key: c.fieldName(), Value: c.fieldValue()})
		} else {
			h.Fields = append(h.Fields, po.HeaderField{Key: c.pick(fieldNames), Value: c.pick(append(fieldValues, "a\nb", "\n", "x:\ny: z", "\x00", "a\rb"))})
		}
	}
	return h
}

func hfields(f []po.HeaderField) string { return fmt.Sprintf("%q", f) }

func modelLoad(f []po.HeaderField, k string) (string, bool) {
	for _, x := range f {
		if x.Key == k {
			return x.Value, true
		}
	}
	return "", false
}

func init() {
	register("C13", "edits", "setting and registering a field: the value is found, every other field stays", func(c *C) {
		c.Iter(4000, func(i, size int) {
			h := c.header(false)
			model := append([]po.HeaderField{}, h.Fields...)
			tmpl := h.Template
			ops := []string{}
			c.Try(func() string { return fmt.Sprintf("template %v fields %s operations %q", tmpl, hfields(model), ops) }, func() error {
				for n := 1 + c.Intn(5); n > 0; n-- {
					k, v := c.pick(fieldNames), c.pick(fieldValues)
					_, has := modelLoad(model, k)
					if c.bit() {
						ops = append(ops, "Set "+k+" "+v)
						h.Set(k, v)
						done := false
						for j := range model {
							if model[j].Key == k && !done {
								model[j].Value, done = v, true
							}
						}
						if !done {
							model = append(model, po.HeaderField{Key: k, Value: v})
						}
					} else {
						ops = append(ops, "Register "+k+" "+v)
						if c.bit() {
							h.Register(k, v)
						} else {
							h.Register(k)
							v = ""
						}
						if !has {
							model = append(model, po.HeaderField{Key: k, Value: v})
						}
					}
					if hfields(h.Fields) != hfields(model) {
						return fmt.Errorf("fields are %s", hfields(h.Fields))
					}
					if h.Template != tmpl {
						return fmt.Errorf("the template mark changed")
					}
					for _, k := range fieldNames {
						want, _ := modelLoad(model, k)
						if got := h.Load(k); got != want {
							return fmt.Errorf("Load(%q) = %q, expected %q", k, got, want)
						}
					}
				}
				return nil
			})
		})
	})

	register("C13", "message", "a header made into its message is read back with the same fields", func(c *C) {
		c.Iter(6000, func(i, size int) {
			h := c.header(true)
			in := fmt.Sprintf("template %v fields %s", h.Template, hfields(h.Fields))
			c.Try(func() string { return in }, func() error {
				e := h.ToEntry()
				if e.ID != "" || e.Context != "" || e.Plural != "" || e.Obsolete || len(e.Plurals) != 0 {
					return fmt.Errorf("the header message is %v", e)
				}
				if e.IsFuzzy() != h.Template {
					return fmt.Errorf("fuzzy %v", e.IsFuzzy())
				}
				got := po.EntryToHeader(e)
				if hfields(got.Fields) != hfields(h.Fields) || got.Template != h.Template {
					return fmt.Errorf("read back as template %v fields %s", got.Template, hfields(got.Fields))
				}
				// found in a catalogue
				var es po.Entries
				for n := c.Intn(4); n > 0; n-- {
					es = append(es, po.Entry{ID: "x" + c.word(), Str: "A: b"}, po.Entry{Context: "c" + c.word(), Str: "C: d"})
				}
				if es.HasHeader() {
					return fmt.Errorf("a header is found in %v", es)
				}
				if g := es.Header(); g.Template || len(g.Fields) != 0 {
					return fmt.Errorf("header %v of a catalogue without", g)
				}
				k := c.Intn(len(es) + 1)
				es = append(append(append(po.Entries{}, es[:k]...), e), es[k:]...)
				es = append(es, po.Entry{Str: "Z: z"})
				g, g2 := es.Header(), es.HeaderFromIndex(k)
				if !es.HasHeader() || hfields(g.Fields) != hfields(h.Fields) || g.Template != h.Template || hfields(g2.Fields) != hfields(h.Fields) || g2.Template != h.Template {
					return fmt.Errorf("header of the catalogue: %v", g)
				}
				return nil
			})
		})
	})

	register("C13", "any text", "reading a header from any text, and what it declares, returns without panic", func(c *C) {
		c.Iter(4000, func(i, size int) {
			var b strings.Builder
			for n := c.Intn(6); n > 0; n-- {
				b.WriteString(c.pick([]string{"Plural-Forms: ", "Content-Type: ", "nplurals", "=", ";", " ", "\n", ":", "plural", "charset", "text/plain", "99999999999999999999", "-1", "2", "é", "\x00", "\xff", "n != 1", "Language: es\n", "\\n"}))
			}
			e := po.Entry{Str: b.String()}
			c.Try(func() string { return fmt.Sprintf("header text %q", e.Str) }, func() error {
				h := po.EntryToHeader(e)
				n := 0
				for _, l := range strings.Split(e.Str, "\n") {
					k := strings.Index(l, ":")
					if k < 0 {
						continue
					}
					if n >= len(h.Fields) || h.Fields[n].Key != strings.TrimRight(l[:k], " \t\r\f") || h.Fields[n].Value != strings.TrimLeft(l[k+1:], " \t\r\f") {
						return fmt.Errorf("line %q read as %s", l, hfields(h.Fields))
					}
					n++
				}
				if n != len(h.Fields) {
					return fmt.Errorf("%d lines with a colon, fields %s", n, hfields(h.Fields))
				}
				h.Nplurals()
				cfg := h.ToConfig()
				cfg.Validate()
				cfg.ToHeader()
				return nil
			})
		})
	})

	register("C13", "plural forms", "the declared number of plural forms is read back as declared", func(c *C) {
		c.Iter(3000, func(i, size int) {
			np := uint(c.Intn(8))
			if c.Intn(5) == 0 {
				np = []uint{1 << 20, 1<<32 - 1, 1 << 40, 1<<63 - 1, 1<<64 - 1}[c.Intn(5)]
			}
			expr := c.pick([]string{"(n != 1)", "0", "n==1 ? 0 : 1", "(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)", "n>1"})
			pf := fmt.Sprintf(c.pick([]string{"nplurals=%d; plural=%s;", "nplurals=%d; plural=%s", "nplurals = %d;plural = %s ;", " nplurals=%d;  plural=%s; "}), np, expr)
			h := c.header(true)
			keep := h.Fields[:0]
			for _, f := range h.Fields {
				if f.Key != "Plural-Forms" {
					keep = append(keep, f)
				}
			}
			h.Fields = keep
			if h.Nplurals() != 2 {
				c.Try(func() string { return hfields(h.Fields) }, func() error { return fmt.Errorf("%d plural forms by default", h.Nplurals()) })
			}
			h.Set("Plural-Forms", pf)
			c.Try(func() string { return fmt.Sprintf("Plural-Forms %q", pf) }, func() error {
				if g := h.Nplurals(); g != np {
					return fmt.Errorf("%d forms", g)
				}
				g := po.EntryToHeader(h.ToEntry())
				if n := g.Nplurals(); n != np {
					return fmt.Errorf("%d forms after the message", n)
				}
				cfg := h.ToConfig()
				if cfg.Nplurals != np || cfg.Plural != expr {
					return fmt.Errorf("configuration has %d, %q", cfg.Nplurals, cfg.Plural)
				}
				if np > 0 && !cfg.Template {
					b := cfg.ToHeader()
					if b.Nplurals() != np {
						return fmt.Errorf("%d forms after the configuration", b.Nplurals())
					}
				}
				return nil
			})
		})
	})

	register("C13", "configuration", "a header made from a configuration holds its values and gives it back", func(c *C) {
		c.Iter(4000, func(i, size int) {
			v := func() string { return c.pick(fieldValues) }
			cfg := po.HeaderConfig{Template: c.bit(), ProjectIDVersion: v(), ReportMsgidBugsTo: v(), POTCreationDate: v(), PORevisionDate: v(), LastTranslator: v(), LanguageTeam: v(), Language: v(), MimeVersion: v(), MediaType: c.pick([]string{"", "text/plain", "text/html"}), Charset: c.pick([]string{"", "UTF-8", "ISO-8859-1"}), ContentTransferEncoding: v(), Nplurals: uint(c.Intn(4)), Plural: c.pick([]string{"", "(n != 1)", "0"}), XGenerator: v()}
			used := map[string]bool{}
			for n := c.Intn(3); n > 0; n-- {
				k := c.pick([]string{"X-A", "X-B", "X-É", "Other"})
				if x := v(); !used[k] && x != "" {
					cfg.ExtraFields = append(cfg.ExtraFields, po.HeaderField{Key: k, Value: x})
				}
				used[k] = true
			}
			c.Try(func() string { return fmt.Sprintf("configuration %+v", cfg) }, func() error {
				h := cfg.ToHeader()
				if po.NewHeader(po.HeaderWithConfig(cfg)).String() != h.String() {
					return fmt.Errorf("NewHeader with the configuration differs")
				}
				if h.Template != cfg.Template {
					return fmt.Errorf("template %v", h.Template)
				}
				want := [][2]string{{"Project-Id-Version", cfg.ProjectIDVersion}, {"Report-Msgid-Bugs-To", cfg.ReportMsgidBugsTo}, {"PO-Revision-Date", cfg.PORevisionDate}, {"Last-Translator", cfg.LastTranslator}, {"Language-Team", cfg.LanguageTeam}, {"Language", cfg.Language}, {"MIME-Version", cfg.MimeVersion}, {"Content-Transfer-Encoding", cfg.ContentTransferEncoding}, {"X-Generator", cfg.XGenerator}}
				pot := ""
				if cfg.Template {
					pot = cfg.POTCreationDate
				}
				want = append(want, [2]string{"POT-Creation-Date", pot})
				pf := ""
				if !cfg.Template && cfg.Nplurals > 0 && cfg.Plural != "" {
					pf = fmt.Sprintf("nplurals=%d; plural=%s;", cfg.Nplurals, cfg.Plural)
				}
				want = append(want, [2]string{"Plural-Forms", pf})
				for _, f := range cfg.ExtraFields {
					want = append(want, [2]string{f.Key, f.Value})
				}
				n := 0
				for _, w := range want {
					if h.Load(w[0]) != w[1] {
						return fmt.Errorf("%s is %q, expected %q", w[0], h.Load(w[0]), w[1])
					}
					if w[1] != "" {
						n++
					}
				}
				if cfg.MediaType != "" && cfg.Charset != "" {
					n++
					if ct := h.Load("Content-Type"); ct != cfg.MediaType+"; charset="+cfg.Charset {
						return fmt.Errorf("content type %q", ct)
					}
				}
				if len(h.Fields) != n {
					return fmt.Errorf("%d fields, expected %d: %s", len(h.Fields), n, hfields(h.Fields))
				}
				b := h.ToConfig()
				if b.Template != cfg.Template || b.ProjectIDVersion != cfg.ProjectIDVersion || b.ReportMsgidBugsTo != cfg.ReportMsgidBugsTo || b.POTCreationDate != pot || b.PORevisionDate != cfg.PORevisionDate || b.LastTranslator != cfg.LastTranslator || b.LanguageTeam != cfg.LanguageTeam || b.Language != cfg.Language || b.XGenerator != cfg.XGenerator || hfields(b.ExtraFields) != hfields(cfg.ExtraFields) {
					return fmt.Errorf("read back as %+v", b)
				}
				if (cfg.MimeVersion != "" && b.MimeVersion != cfg.MimeVersion) || (pf != "" && (b.Plural != cfg.Plural || b.Nplurals != cfg.Nplurals)) || (cfg.MimeVersion == "" && b.MimeVersion != "1.0") || (cfg.MediaType != "" && cfg.Charset != "" && (b.Charset != cfg.Charset || b.MediaType != cfg.MediaType)) ||
					((cfg.MediaType == "" || cfg.Charset == "") && (b.Charset != "UTF-8" || b.MediaType != "text/plain")) || b.ContentTransferEncoding != "8bit" {
					return fmt.Errorf("read back as %+v", b)
				}
				return nil
			})
		})
	})

	register("C13", "options", "each header option changes only the setting it names", func(c *C) {
		c.Iter(2000, func(i, size int) {
			v := func() string { return c.pick(fieldValues) }
			base := po.HeaderConfig{Template: c.bit(), ProjectIDVersion: v(), ReportMsgidBugsTo: v(), POTCreationDate: v(), PORevisionDate: v(), LastTranslator: v(), LanguageTeam: v(), Language: v(), MimeVersion: v(), MediaType: v(), Charset: v(), ContentTransferEncoding: v(), Nplurals: uint(c.Intn(4)), Plural: v(), XGenerator: v()}
			opts := []po.HeaderOption{po.HeaderWithConfig(base)}
			want := base
			names := []string{}
			for n := c.Intn(4); n > 0; n-- {
				x := v() + c.small(3)
				t, np := c.bit(), uint(c.Intn(9))
				all := []struct {
					name string
					opt  po.HeaderOption
					set  func()
				}{
					{"Template", po.HeaderWithTemplate(t), func() { want.Template = t }},
					{"Plural", po.HeaderWithPlural(x), func() { want.Plural = x }},
					{"POTCreationDate", po.HeaderWithPOTCreationDate(x), func() { want.POTCreationDate = x }},
					{"PORevisionDate", po.HeaderWithPORevisionDate(x), func() { want.PORevisionDate = x }},
					{"XGenerator", po.HeaderWithXGenerator(x), func() { want.XGenerator = x }},
					{"ContentTransferEncoding", po.HeaderWtihContentTransferEncoding(x), func() { want.ContentTransferEncoding = x }},
					{"MediaType", po.HeaderWithMediaType(x), func() { want.MediaType = x }},
					{"Charset", po.HeaderWithCharset(x), func() { want.Charset = x }},
					{"MimeVersion", po.HeaderWithMimeVersion(x), func() { want.MimeVersion = x }},
					{"Nplurals", po.HeaderWithNplurals(np), func() { want.Nplurals = np }},
					{"ProjectIDVersion", po.HeaderWithProjectIDVersion(x), func() { want.ProjectIDVersion = x }},
					{"ReportMsgidBugsTo", po.HeaderWithReportMsgidBugsTo(x), func() { want.ReportMsgidBugsTo = x }},
					{"Language", po.HeaderWithLanguage(x), func() { want.Language = x }},
					{"LanguageTeam", po.HeaderWithLanguageTeam(x), func() { want.LanguageTeam = x }},
					{"LastTranslator", po.HeaderWithLastTranslator(x), func() { want.LastTranslator = x }},
				}
				o := all[c.Intn(len(all))]
				names = append(names, o.name+" "+x)
				opts = append(opts, o.opt)
				o.set()
			}
			c.Try(func() string { return fmt.Sprintf("options %q on %+v", names, base) }, func() error {
				for _, got := range []po.HeaderConfig{po.HeaderConfigFromOptions(opts...), po.DefaultHeaderConfig(opts...), po.DefaultTemplateHeaderConfig(opts...)} {
					if fmt.Sprintf("%+v", got) != fmt.Sprintf("%+v", want) {
						return fmt.Errorf("gives %+v", got)
					}
				}
				if po.NewHeader(opts...).String() != want.ToHeader().String() {
					return fmt.Errorf("NewHeader differs")
				}
				d := po.DefaultHeaderConfig()
				if d.Template || d.Nplurals != 2 || d.Plural != "(n != 1)" || d.Charset != "UTF-8" || len(d.Validate()) != 0 {
					return fmt.Errorf("default configuration %+v", d)
				}
				if t := po.DefaultTemplateHeaderConfig(); !t.Template || t.Nplurals != 0 {
					return fmt.Errorf("default template %+v", t)
				}
				return nil
			})
		})
	})
}
