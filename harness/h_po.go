package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// --- C05, C06, C14: PO texts ---

// any characters: controls, quotes, backslashes, escapes, wide and unprintable ones
var poBits = []string{"a", "Z", " ", "0", "\n", "\n\n", "\t", "\r", "\"", "\\", "\\n", "\\\"", "\\x41", "\\new", "\a", "\b", "\v", "\f", "\x00", "\x1b", "\x7f", "é", "\u0085", "\u00a0", "\u00ad", "日", "\u2028", "\ufeff", "\ufffd", "\U0001f600", "\U0010ffff", "%s", "#", "#~ ", "msgid", "msgstr \"x\"", "[0]", "---", "Content-Type: x\n", "'", "\\\\", "\n#~ msgid \"x\"\n"}

func (c *C) poText(max int) string {
	if c.Intn(6) == 0 {
		return c.word()
	}
	var b strings.Builder
	for n := c.Intn(max + 1); n > 0; n-- {
		if c.Intn(5) == 0 {
			b.WriteRune(rune(c.Intn(0x250)))
		} else {
			b.WriteString(c.pick(poBits))
		}
	}
	return strings.ToValidUTF8(b.String(), "?")
}

// poLine is the text of a comment: one line, no blanks before it.
func (c *C) poLine() string {
	s := strings.ReplaceAll(c.poText(4), "\n", c.pick([]string{"", " ", "x"}))
	if c.Intn(4) == 0 {
		s = c.pick([]string{"#~ msgid \"x\"", "~ x", ": a.go:3", ", fuzzy", "| msgid \"x\"", ". e", "# x", "msgid \"\"", "!", "x  ", "x\r"})
	}
	return strings.TrimLeft(s, " ")
}

func (c *C) poLines(max int) []string {
	var l []string
	for n := c.Intn(max + 1); n > 0; n-- {
		l = append(l, c.poLine())
	}
	return l
}

// poEntry is a message that a PO file can express.
func (c *C) poEntry(id string) po.Entry {
	e := po.Entry{ID: id}
	if c.Intn(3) == 0 {
		e.Context = c.poText(3)
	}
	switch c.Intn(4) {
	case 0:
		e.Plural = c.poText(4)
		for n := 1 + c.Intn(3); n > 0; n-- {
			k := c.Intn(4)
			if c.Intn(8) == 0 {
				k = c.Intn(1 << 30)
			}
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: k, Str: c.poText(5)})
		}
	default:
		e.Str = c.poText(6)
	}
	e.Obsolete = c.Intn(4) == 0
	for n := c.Intn(3); n > 0; n-- {
		e.Flags = append(e.Flags, c.pick([]string{"fuzzy", "go-format", "c-format", "no-wrap", "range: 0..3", "ü", "#", "", "\""}))
	}
	if c.bit() {
		e.Comments, e.ExtractedComments, e.Previous = c.poLines(3), c.poLines(2), c.poLines(2)
	}
	for n := c.Intn(4); n > 0; n-- {
		e.Locations = append(e.Locations, po.Location{File: c.pick([]string{"a.go", "dir/b.go", "c:\\d.go", "x:1", "ü.go", "", "#", "\"", "a,b"}), Line: c.line()})
	}
	return e
}

// poCatalogue has messages with distinct keys.
func (c *C) poCatalogue(size int) po.Entries {
	var act, obs po.Entries
	seen := map[[2]string]bool{}
	if c.Intn(3) == 0 {
		h := c.header(true)
		e := po.Entry{Str: h.ToEntry().Str}
		if c.bit() {
			e.Comments = c.poLines(2)
		}
		if c.Intn(3) == 0 {
			e.Flags = []string{"fuzzy"}
		}
		act = append(act, e)
		seen[[2]string{}] = true
	}
	for n := c.Intn(size + 1); n > 0; n-- {
		e := c.poEntry(c.poText(4))
		k := [2]string{e.Context, e.ID}
		if seen[k] {
			continue
		}
		seen[k] = true
		if e.Obsolete {
			obs = append(obs, e)
		} else {
			act = append(act, e)
		}
	}
	es := append(act, obs...)
	if c.Intn(4) == 0 {
		c.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	return es
}

// parted is the catalogue as a PO file tells it: active messages first.
func parted(es po.Entries) (out po.Entries) {
	for _, obsolete := range []bool{false, true} {
		for _, e := range es {
			if e.Obsolete == obsolete {
				out = append(out, e)
			}
		}
	}
	return out
}

type poOpt struct {
	Wrap, Custom bool
	Rune         rune
	Mode         string
	NoLocation   bool
	Prefix       string
	Suffix       string
	Clean        bool
}

func (c *C) poOpt() poOpt {
	o := poOpt{Wrap: c.bit(), Mode: "full", Clean: c.bit()}
	if c.Intn(4) == 0 {
		o.Custom, o.Rune = true, []rune{'~', '!', '=', 'x', 'é', '日', '\U0001f600', '"', '\\'}[c.Intn(9)]
	}
	switch c.Intn(8) {
	case 0:
		o.Mode = "never"
	case 1:
		o.Mode = "file"
	case 2:
		o.NoLocation = true
	}
	if c.Intn(6) == 0 {
		o.Prefix, o.Suffix = c.poText(2), c.poText(2)
	}
	return o
}

func (o poOpt) write() []compile.PoOption {
	w := []compile.PoOption{compile.PoWithWordWrap(o.Wrap), compile.PoWithAddLocation(compile.PoLocationMode(o.Mode)), compile.PoWithNoLocation(o.NoLocation), compile.PoWithMsgstrPrefix(o.Prefix), compile.PoWithMsgstrSuffix(o.Suffix)}
	if o.Custom {
		w = append(w, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune(o.Rune))
	}
	return w
}

func (o poOpt) read() []poparse.PoOption {
	r := []poparse.PoOption{poparse.PoWithCleanDuplicates(o.Clean)}
	if o.Custom {
		r = append(r, poparse.PoWithUseCustomObsoletePrefix(true), poparse.PoWithCustomObsoletePrefix(o.Rune))
	}
	return r
}

// want is the catalogue as the options leave it.
func (o poOpt) want(es po.Entries) po.Entries {
	es = parted(cpEntries(es))
	for i := range es {
		if isPlural(es[i]) {
			for j := range es[i].Plurals {
				es[i].Plurals[j].Str = o.Prefix + es[i].Plurals[j].Str + o.Suffix
			}
		} else {
			es[i].Str = o.Prefix + es[i].Str + o.Suffix
		}
		switch {
		case o.NoLocation || o.Mode == "never":
			es[i].Locations = nil
		case o.Mode == "file":
			var ls po.Locations
			for _, l := range es[i].Locations {
				// a name with a number behind a colon is a name and a line
				if l.File != "" {
					ls = append(ls, readRef(l.File))
				}
			}
			es[i].Locations = ls
		}
	}
	return es
}

func readRef(s string) po.Location {
	i := strings.LastIndex(s, ":")
	if i == -1 {
		return po.Location{File: s, Line: -1}
	}
	if i == len(s)-1 {
		return po.Location{File: s[:i], Line: -1}
	}
	var n int
	var rest string
	if k, err := fmt.Sscanf(s[i+1:]+" .", "%d%s", &n, &rest); err != nil || k != 2 || rest != "." {
		return po.Location{File: s, Line: -1}
	}
	return po.Location{File: s[:i], Line: n}
}

// plainPo is an independent reader of the writer's plain dialect: it returns
// the quoted texts behind each keyword, or says what is wrong with a line.
func plainPo(text string) (kw []string, val []string, err error) {
	for n, l := range strings.Split(text, "\n") {
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		i := strings.Index(l, "\"")
		if i == -1 {
			return nil, nil, fmt.Errorf("line %d has no text: %q", n+1, l)
		}
		k := strings.TrimSpace(l[:i])
		s := l[i:]
		if len(s) < 2 || s[len(s)-1] != '"' {
			return nil, nil, fmt.Errorf("line %d does not end with a quote: %q", n+1, l)
		}
		s = s[1 : len(s)-1]
		var b []byte
		for len(s) > 0 {
			ch := s[0]
			switch {
			case ch == '"' || ch < 32 || ch == 127:
				return nil, nil, fmt.Errorf("line %d holds the byte %#x without an escape: %q", n+1, ch, l)
			case ch == '\\':
				if len(s) < 2 {
					return nil, nil, fmt.Errorf("line %d escapes its closing quote: %q", n+1, l)
				}
				switch s[1] {
				case 'n':
					ch = '\n'
				case 't':
					ch = '\t'
				case 'r':
					ch = '\r'
				case 'a':
					ch = '\a'
				case 'b':
					ch = '\b'
				case 'v':
					ch = '\v'
				case 'f':
					ch = '\f'
				case '"', '\\':
					ch = s[1]
				case 'x':
					var h int
					if len(s) < 4 {
						return nil, nil, fmt.Errorf("line %d: %q", n+1, l)
					}
					if _, err := fmt.Sscanf(s[2:4], "%02x", &h); err != nil {
						return nil, nil, fmt.Errorf("line %d: %q", n+1, l)
					}
					ch = byte(h)
					s = s[2:]
				default:
					return nil, nil, fmt.Errorf("line %d holds the escape \\%c: %q", n+1, s[1], l)
				}
				s = s[2:]
				b = append(b, ch)
				continue
			}
			b = append(b, ch)
			s = s[1:]
		}
		switch {
		case k == "":
			if len(val) == 0 {
				return nil, nil, fmt.Errorf("line %d continues nothing: %q", n+1, l)
			}
			val[len(val)-1] += string(b)
		case k == "msgctxt" || k == "msgid" || k == "msgid_plural" || k == "msgstr" || strings.HasPrefix(k, "msgstr["):
			kw, val = append(kw, k), append(val, string(b))
		default:
			return nil, nil, fmt.Errorf("line %d is none of a PO file: %q", n+1, l)
		}
	}
	return kw, val, nil
}

func poTextOf(es po.Entries, o ...compile.PoOption) string {
	return compile.NewPo(&po.File{Entries: es, Name: "x.po"}, o...).ToString()
}

func parsePo(b []byte, o ...poparse.PoOption) (*po.File, []string) {
	p := poparse.NewPoFromBytes(b, "x.po", o...)
	f := p.Parse()
	return f, errTexts(p.Errors())
}

func entriesOf(f *po.File) po.Entries {
	if f == nil {
		return nil
	}
	return f.Entries
}

func init() {
	register("C05", "round-trip", "random catalogues a PO file can express (any characters, all kinds of comments, plural forms, obsolete entries) are written and read back", func(c *C) {
		c.Iter(2500, func(i, size int) {
			es := c.poCatalogue(size)
			if c.Intn(12) == 0 {
				// many entries of one text each
				es = po.Entries{c.poEntry(c.poText(40))}
				if es[0].Obsolete = c.bit(); es[0].Obsolete {
					es[0].Comments = c.poLines(5)
				}
			}
			o := c.poOpt()
			var text string
			c.Try(func() string { return fmt.Sprintf("catalogue %#v\nsettings %+v\ntext\n%s", es, o, text) }, func() error {
				text = poTextOf(cpEntries(es), o.write()...)
				f, errs := parsePo([]byte(text), o.read()...)
				if f == nil || len(errs) > 0 {
					return fmt.Errorf("the text is not read: %q", errs)
				}
				return eqEntries(f.Entries, o.want(es))
			})
		})
	})
	register("C05", "lines", "every text the writer quotes stays in its quotes, as an independent reader of the lines finds", func(c *C) {
		c.Iter(6000, func(i, size int) {
			e := c.poEntry(c.poText(8))
			e.Obsolete, e.Comments, e.ExtractedComments, e.Previous, e.Locations = false, nil, nil, nil, nil
			if c.Intn(3) == 0 {
				// texts that are no UTF-8 stay in their lines, too
				e.ID += "\xff\"\n\x80\\"
			}
			for _, wrap := range []bool{false, true} {
				var text string
				c.Try(func() string { return fmt.Sprintf("entry %#v wrap %v\ntext\n%s", e, wrap, text) }, func() error {
					text = poTextOf(po.Entries{cpEntry(e)}, compile.PoWithWordWrap(wrap))
					kw, val, err := plainPo(text)
					if err != nil {
						return err
					}
					var k, v []string
					put := func(a, b string) { k, v = append(k, a), append(v, b) }
					if e.Context != "" {
						put("msgctxt", e.Context)
					}
					put("msgid", e.ID)
					if isPlural(e) {
						put("msgid_plural", e.Plural)
						for _, p := range e.Plurals {
							put(fmt.Sprintf("msgstr[%d]", p.ID), p.Str)
						}
					} else {
						put("msgstr", e.Str)
					}
					if !eqStrs(k, kw) || !eqStrs(v, val) {
						return fmt.Errorf("the lines say %q %q, expected %q %q", kw, val, k, v)
					}
					return nil
				})
			}
		})
	})
	register("C05", "header", "catalogues with a managed header, header comments or no header", func(c *C) {
		c.Iter(500, func(i, size int) {
			es := c.poCatalogue(size)
			h := c.header(true)
			cut := es.CutHeader()
			at := 0
			if c.bit() {
				at = c.Intn(len(cut) + 1)
			}
			with := append(append(cpEntries(cut[:at]), po.Entry{Str: h.ToEntry().Str}), cpEntries(cut[at:])...)
			comments, omit, foreign := c.bit(), c.Intn(3) == 0, c.bit()
			title := c.pick([]string{"T", "", "é\"x"})
			var text string
			c.Try(func() string {
				return fmt.Sprintf("catalogue %#v\nomit %v comments %v\ntext\n%s", with, omit, comments, text)
			}, func() error {
				text = poTextOf(cpEntries(with), compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(comments), compile.PoWithOmitHeader(omit), compile.PoWithForeignUser(foreign), compile.PoWithTitle(title), compile.PoWithWordWrap(c.bit()))
				f, errs := parsePo([]byte(text))
				if f == nil || len(errs) > 0 {
					return fmt.Errorf("the text is not read: %q", errs)
				}
				if omit {
					return eqEntries(f.Entries, parted(cut))
				}
				want := ""
				for _, x := range h.Fields {
					want += x.Key + ": " + x.Value + "\n"
				}
				if len(f.Entries) == 0 || key(f.Entries[0]) != "" || f.Entries[0].Str != want {
					return fmt.Errorf("the header comes back as %#v, expected %q", f.Entries, want)
				}
				return eqEntries(f.Entries[1:], parted(cut))
			})
		})
	})
	register("C05", "file", "catalogues written to and read from files", func(c *C) {
		path := filepath.Join(scratch, "c05.po")
		c.Iter(60, func(i, size int) {
			es := c.poCatalogue(size)
			c.Try(func() string { return fmt.Sprintf("catalogue %#v", es) }, func() error {
				mc := compile.NewPo(&po.File{Entries: cpEntries(es)}, compile.PoWithForcePo(true))
				if err := mc.ToFile(path); err != nil {
					return err
				}
				b, err := os.ReadFile(path)
				if err != nil {
					return err
				}
				if string(b) != mc.ToString() {
					return fmt.Errorf("the file holds %q, the text is %q", b, mc.ToString())
				}
				p, err := poparse.NewPo(path)
				if err != nil {
					return err
				}
				f := p.Parse()
				if f == nil || p.Error() != nil {
					return fmt.Errorf("the file is not read: %v", p.Errors())
				}
				return eqEntries(f.Entries, parted(es))
			})
		})
	})

	register("C06", "arbitrary text", "random bytes, token soups and damaged PO texts: no panic, a catalogue or an error; again the same; the bytes stay", func(c *C) {
		c.Iter(6000, func(i, size int) {
			b := c.poBytes(size)
			opts := c.readOpts()
			extra := c.Intn(60)
			in := string(b)
			c.Try(func() string { return fmt.Sprintf("text %q\nsettings %+v", in, poparse.DefaultPoConfig(opts...)) }, func() error {
				store := make([]byte, len(b)+extra)
				for j := range store {
					store[j] = '#'
				}
				copy(store, b)
				p := poparse.NewPoFromBytes(store[:len(b)], "x.po", opts...)
				cfg := p.Config
				f := p.Parse()
				if !reflect.DeepEqual(p.Config, cfg) {
					return fmt.Errorf("the settings are now %+v", p.Config)
				}
				errs := errTexts(p.Errors())
				if f == nil && len(errs) == 0 {
					return errors.New("neither a catalogue nor an error")
				}
				if (p.Error() == nil) != (len(errs) == 0) || (len(errs) > 0 && p.Error().Error() != errs[0]) {
					return fmt.Errorf("Error is %v, Errors are %q", p.Error(), errs)
				}
				first := cpEntries(entriesOf(f))
				check := func(what string, g *po.File, ge []string) error {
					if (f == nil) != (g == nil) {
						return fmt.Errorf("%s: a catalogue once but not twice (%q, %q)", what, errs, ge)
					}
					if err := eqEntries(entriesOf(g), first); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
					if !eqStrs(ge, errs) {
						return fmt.Errorf("%s: errors %q, before %q", what, ge, errs)
					}
					return nil
				}
				g := p.Parse()
				if err := check("parsed again", g, errTexts(p.Errors())); err != nil {
					return err
				}
				// what a caller does with one result shows in no other
				for j := range entriesOf(g) {
					e := &g.Entries[j]
					e.ID = "changed"
					for k := range e.Comments {
						e.Comments[k] = "changed"
					}
					for k := range e.Plurals {
						e.Plurals[k].Str = "changed"
					}
				}
				if err := eqEntries(entriesOf(f), first); err != nil {
					return fmt.Errorf("the first result changed with the second: %w", err)
				}
				f2, e2 := parsePo([]byte(in), opts...)
				if err := check("another parser", f2, e2); err != nil {
					return err
				}
				q := poparse.NewPoFromString(in, "x.po", opts...)
				f3 := q.Parse()
				if err := check("from a string", f3, errTexts(q.Errors())); err != nil {
					return err
				}
				r, err := poparse.NewPoFromReader(strings.NewReader(in), "x.po", opts...)
				if err != nil {
					return err
				}
				f4 := r.Parse()
				if err := check("from a reader", f4, errTexts(r.Errors())); err != nil {
					return err
				}
				if string(store[:len(b)]) != in {
					return fmt.Errorf("the caller's bytes are now %q", store[:len(b)])
				}
				for _, x := range store[len(b):] {
					if x != '#' {
						return fmt.Errorf("the bytes behind the caller's are now %q", store[len(b):])
					}
				}
				return nil
			})
		})
	})
	register("C06", "histories", "sequences of parses of one parser under changing options", func(c *C) {
		c.Iter(3000, func(i, size int) {
			b := c.poBytes(size)
			var sets [][]poparse.PoOption
			var plain []bool
			for n := 2 + c.Intn(3); n > 0; n-- {
				sets = append(sets, c.readOpts())
				plain = append(plain, c.bit())
			}
			c.Try(func() string { return fmt.Sprintf("text %q, %d option lists", b, len(sets)) }, func() error {
				p := poparse.NewPoFromBytes(b, "x.po")
				for k, o := range sets {
					f := p.ParseWithOptions(o...)
					if plain[k] {
						// the settings themselves changed, for good
						for _, x := range o {
							x(&p.Config)
						}
						f = p.Parse()
						p.Config = poparse.DefaultPoConfig()
					}
					errs := errTexts(p.Errors())
					q := poparse.NewPoFromBytes([]byte(string(b)), "x.po")
					q.Config.ApplyOptions(o...)
					g := q.Parse()
					if (f == nil) != (g == nil) || !eqStrs(errs, errTexts(q.Errors())) {
						return fmt.Errorf("parse %d: errors %q, a new parser says %q", k, errs, errTexts(q.Errors()))
					}
					if err := eqEntries(entriesOf(f), entriesOf(g)); err != nil {
						return fmt.Errorf("parse %d: %w", k, err)
					}
				}
				return nil
			})
		})
	})

	register("C14", "compile", "catalogues with shared storage compiled to PO and MO, into texts, writers and files, under all options, in any order, twice", func(c *C) {
		path := filepath.Join(scratch, "c14")
		c.Iter(6000, func(i, size int) {
			es := roomy(c.entries(size))
			if c.bit() {
				h := c.header(true)
				at := c.Intn(len(es) + 1)
				es = append(es, po.Entry{})
				copy(es[at+1:], es[at:])
				es[at] = po.Entry{Str: h.ToEntry().Str, Comments: c.strs(2)}
				if c.Intn(3) == 0 {
					es[at].Flags = []string{"fuzzy"}
				}
				es = roomy(es)
			}
			for j := range es {
				// plural forms in no order, with spare room
				if isPlural(es[j]) && c.bit() {
					for k := range es[j].Plurals {
						es[j].Plurals[k].ID = (k * 7) % 3
					}
				}
			}
			// other catalogues share the storage
			file := &po.File{Name: "x", Entries: es}
			other := &po.File{Name: "y", Entries: es[:c.Intn(len(es)+1)]}
			before := cpEntries(es)
			type job struct {
				name string
				run  func() (string, error)
			}
			// what callers were given, and what it said then
			var kept [][]byte
			var said []string
			keep := func(b []byte) string {
				kept, said = append(kept, b), append(said, string(b))
				return string(b)
			}
			var jobs []job
			for n := 1 + c.Intn(4); n > 0; n-- {
				f := file
				if c.Intn(4) == 0 {
					f = other
				}
				kind := c.Intn(8)
				po1, mo1 := c.writeOpts(), c.moOpt().opts()
				after, short := c.Intn(200), c.bit()
				pc, mc := compile.NewPo(f, po1...), compile.NewMo(f, mo1...)
				jobs = append(jobs, job{fmt.Sprint("kind ", kind, " ", f.Name, fmt.Sprintf(" %+v", pc.Config)), func() (string, error) {
					var b bytes.Buffer
					switch kind {
					case 0:
						return pc.ToString(), nil
					case 1:
						return keep(pc.ToBytes()), nil
					case 2:
						err := pc.ToWriter(&b)
						return b.String(), err
					case 3:
						return keep(mc.ToBytes()), nil
					case 4:
						err := mc.ToWriter(&b)
						return b.String(), err
					case 5:
						os.Remove(path)
						if err := pc.ToFile(path); err != nil {
							return "", err
						}
						return fileOf(path), nil
					case 6:
						pw, mw := &failWriter{after: after, short: short}, &failWriter{after: after, short: short}
						return errText(pc.ToWriter(pw)) + errText(mc.ToWriter(mw)) + pw.b.String() + mw.b.String(), nil
					}
					os.Remove(path)
					if err := mc.ToFile(path); err != nil {
						return "", err
					}
					return fileOf(path), nil
				}})
			}
			c.Try(func() string {
				var n []string
				for _, j := range jobs {
					n = append(n, j.name)
				}
				return fmt.Sprintf("catalogue %#v\nin this order, twice: %s", before, strings.Join(n, "; "))
			}, func() error {
				out := make([]string, len(jobs))
				for round := 0; round < 2; round++ {
					for k, j := range jobs {
						s, err := j.run()
						if err != nil {
							return fmt.Errorf("compilation %d: %w", k, err)
						}
						if round == 1 && s != out[k] {
							return fmt.Errorf("compilation %d gave %q, before %q", k, s, out[k])
						}
						out[k] = s
						if err := unchanged(es, before); err != nil {
							return fmt.Errorf("compilation %d: %w", k, err)
						}
						for m, b := range kept {
							if string(b) != said[m] {
								return fmt.Errorf("after compilation %d, bytes given out before are %q, they were %q", k, b, said[m])
							}
						}
						if len(file.Entries) != len(before) {
							return fmt.Errorf("compilation %d: the file has %d entries, it had %d", k, len(file.Entries), len(before))
						}
						if file.Name != "x" || other.Name != "y" {
							return fmt.Errorf("compilation %d: the file's name changed", k)
						}
					}
				}
				return nil
			})
		})
	})
}

// readOpts are options of the PO reader.
func (c *C) readOpts() (o []poparse.PoOption) {
	for n := c.Intn(4); n > 0; n-- {
		v := c.bit()
		switch c.Intn(7) {
		case 0:
			o = append(o, poparse.PoWithIgnoreComments(v))
		case 1:
			o = append(o, poparse.PoWithIgnoreAllComments(v))
		case 2:
			o = append(o, poparse.PoWithSkipHeader(v))
		case 3:
			o = append(o, poparse.PoWithCleanDuplicates(v))
		case 4:
			o = append(o, poparse.PoWithParseObsolete(v))
		case 5:
			o = append(o, poparse.PoWithUseCustomObsoletePrefix(v), poparse.PoWithCustomObsoletePrefix([]rune{'~', ':', ' ', 'x', 0, '\n', -1, '|', '日'}[c.Intn(9)]))
		case 6:
			o = append(o, poparse.PoWithVerbose(v))
		}
	}
	return o
}

// writeOpts are options of the PO writer.
func (c *C) writeOpts() (o []compile.PoOption) {
	for n := c.Intn(6); n > 0; n-- {
		v := c.bit()
		switch c.Intn(13) {
		case 12:
			h := po.DefaultHeaderConfig()
			h.Language = c.word()
			o = append(o, func(cfg *compile.PoConfig) {
				cfg.HeaderConfig = nil
				if v {
					cfg.HeaderConfig = &h
				}
			})
		case 0:
			o = append(o, compile.PoWithWordWrap(v))
		case 1:
			o = append(o, compile.PoWithOmitHeader(v))
		case 2, 3:
			o = append(o, compile.PoWithManageHeader(v), compile.PoWithHeaderFields(c.bit()))
		case 4:
			o = append(o, compile.PoWithHeaderComments(v))
		case 5:
			o = append(o, compile.PoWithCommentFuzzy(v))
		case 6:
			o = append(o, compile.PoWithNoLocation(v))
		case 7:
			o = append(o, compile.PoWithAddLocation(compile.PoLocationMode(c.pick([]string{"full", "never", "file", ""}))))
		case 8:
			o = append(o, compile.PoWithForeignUser(v))
		case 9:
			o = append(o, compile.PoWithMsgstrPrefix(c.word()), compile.PoWithMsgstrSuffix(c.word()))
		case 10:
			o = append(o, compile.PoWithUseCustomObsoletePrefix(v), compile.PoWithCustomObsoletePrefixRune('x'))
		case 11:
			o = append(o, compile.PoWithIgnoreErrors(v))
		}
	}
	return o
}

var poTokens = []string{"msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "[", "]", "0", "7", "99999999999999999999", "\"\"", "\"a\"", "\"b\\n\"", "\"\\\"\"", "\"\\", "\"", "\n", "\n", "\n", " ", "\t", "#", "# c\n", "#. e\n", "#: a.go:1 b.go:2\n", "#: a b\n", "#:\n", "#: x:\n", "#: x:99999999999999999999\n", "#, fuzzy, c-format\n", "#,\n", "#| p\n", "#~ msgid \"o\"\n", "#~ msgstr \"o\"\n", "#~| msgid \"p\"\n", "#~", "#~~", "#x msgid \"o\"\n", "#x msgstr \"o\"\n", "#~ junk\n", "---", "\x00", "\xff", "é", "\ufeff", "\r\n", "msgid \"\"\nmsgstr \"A: b\\n\"\n", "msgid \"i\"\nmsgstr \"s\"\n", "msgctxt \"c\"\n", "\"\\x41\\101\\u00e9\\q\"", "\"\\400\"", "msgid \"---\"\nmsgstr \"---\"\n"}

// poBytes are texts of every kind for the PO reader.
func (c *C) poBytes(size int) []byte {
	switch c.Intn(6) {
	case 0:
		b := make([]byte, c.Intn(20))
		c.Read(b)
		return b
	case 1, 2:
		var s strings.Builder
		for n := c.Intn(4 * size); n > 0; n-- {
			s.WriteString(c.pick(poTokens))
			if c.bit() {
				s.WriteString(c.pick([]string{" ", "\n"}))
			}
		}
		return []byte(s.String())
	case 3:
		es := c.poCatalogue(size)
		return []byte(poTextOf(es, c.poOpt().write()...))
	}
	// a written text, damaged
	b := []byte(poTextOf(c.poCatalogue(1+size/2), c.poOpt().write()...))
	for n := 1 + c.Intn(3); n > 0 && len(b) > 0; n-- {
		k := c.Intn(len(b))
		switch c.Intn(5) {
		case 0:
			b = b[:k]
		case 1:
			b[k] = byte(c.Intn(256))
		case 2:
			b = append(b[:k:k], append([]byte(c.pick(poTokens)), b[k:]...)...)
		case 3:
			m := k + c.Intn(len(b)-k)
			b = append(b[:k:k], b[m:]...)
		case 4:
			if i := bytes.IndexByte(b[k:], '\n'); i >= 0 {
				b = append(b[:k:k], b[k+i:]...)
			}
		}
	}
	if c.Intn(3) == 0 {
		b = bytes.TrimRight(b, "\n")
	}
	return b
}
