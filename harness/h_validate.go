package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// --- C16: validation ---

func init() {
	register("C16", "validate", "one report per repeated key and per entry that is singular and plural at once, nothing else, the file unchanged", func(c *C) {
		c.Iter(5000, func(i, size int) {
			es := c.entries(size)
			for j := range es {
				switch c.Intn(5) {
				case 0:
					es[j].ID = fmt.Sprint("k", j)
				case 1:
					es[j].Str = ""
				case 2:
					es[j].Plurals = nil
				}
			}
			before := cpEntries(es)
			f := po.File{Name: c.word(), Entries: es}
			c.Try(before, func() error {
				var want []string
				first := map[string]int{}
				for j, e := range before {
					if k, ok := first[key(e)]; ok {
						want = append(want, fmt.Sprintf("dup %d of %d", j, k))
					} else {
						first[key(e)] = j
					}
				}
				dups := len(want)
				for j, e := range before {
					if e.Str != "" && len(e.Plurals) > 0 {
						want = append(want, fmt.Sprintf("mixed %d", j))
					}
				}
				show := func(errs []error, file bool) ([]string, error) {
					var got []string
					for _, err := range errs {
						var fe *po.InvalidFileError
						if errors.As(err, &fe) != file || (file && fe.Filename != f.Name) {
							return nil, fmt.Errorf("%v does not name the file", err)
						}
						var ae *po.InvalidEntryAtIndexError
						if !errors.As(err, &ae) {
							return nil, fmt.Errorf("%v does not name an entry", err)
						}
						var de *po.DuplicatedEntryError
						if errors.As(err, &de) {
							got = append(got, fmt.Sprintf("dup %d of %d", ae.Index, de.OriginalIndex))
						} else if errors.Is(err, po.ErrBadPluralEntry) {
							var ie *po.InvalidEntryError
							if !errors.As(err, &ie) || ae.Index < 0 || ae.Index >= len(before) || ie.ID != before[ae.Index].UnifiedID() {
								return nil, fmt.Errorf("%v names the wrong entry", err)
							}
							got = append(got, fmt.Sprintf("mixed %d", ae.Index))
						} else {
							return nil, fmt.Errorf("unexpected report %v", err)
						}
						if err.Error() == "" {
							return nil, fmt.Errorf("an empty report")
						}
					}
					return got, nil
				}
				for _, x := range []struct {
					errs []error
					file bool
					want []string
				}{{f.Validate(), true, want}, {f.Entries.Validate(), false, want}, {f.CatchDuplicateEntries(), true, want[:dups]}, {f.Entries.CatchDuplicateEntries(), false, want[:dups]}, {f.Validate(), true, want}} {
					got, err := show(x.errs, x.file)
					if err != nil {
						return err
					}
					if fmt.Sprint(got) != fmt.Sprint(x.want) {
						return fmt.Errorf("reports %v, expected %v", got, x.want)
					}
				}
				if err := eqEntries(f.Entries, before); err != nil {
					return fmt.Errorf("the file changed: %v", err)
				}
				return nil
			})
		})
	})
	register("C16", "settings", "settings of headers and of the PO compiler, rules broken and kept", func(c *C) {
		known := map[string]bool{}
		for _, n := range strings.Fields("ASCII ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-6 ISO-8859-7 ISO-8859-8 ISO-8859-9 ISO-8859-13 ISO-8859-14 ISO-8859-15 KOI8-R KOI8-U KOI8-T CP850 CP866 CP874 CP932 CP949 CP950 CP1250 CP1251 CP1252 CP1253 CP1254 CP1255 CP1256 CP1257 GB2312 EUC-JP EUC-KR EUC-TW BIG5 BIG5-HKSCS GBK GB18030 SHIFT_JIS JOHAB TIS-620 VISCII GEORGIAN-PS UTF-8") {
			known[n] = true
		}
		pick := func(xs ...string) string { return xs[c.Intn(len(xs))] }
		c.Iter(1500, func(i, size int) {
			cfg := po.HeaderConfig{
				Nplurals: uint([]uint64{0, 0, 1, 2, 1 << 40}[c.Intn(5)]), Plural: pick("", "", "(n != 1)", "0"),
				MediaType: pick("", "text/plain", "text/plain", "text/html", "TEXT/PLAIN"), Charset: pick("", "UTF-8", "ISO-8859-15", "CP1252", "utf 8", "KLINGON", "UTF-8 "),
				ContentTransferEncoding: pick("", "8bit", "8bit", "7bit", "8BIT"),
			}
			pc := compile.DefaultPoConfig(compile.PoWithNoLocation(c.Intn(2) == 0), compile.PoWithAddLocation(compile.PoLocationMode(pick("", "full", "file", "never"))))
			c.Try(map[string]any{"header": cfg, "compiler": pc}, func() error {
				want := 0
				for _, broken := range []bool{
					cfg.Plural == "" && cfg.Nplurals != 0, cfg.Plural != "" && cfg.Nplurals == 0,
					cfg.MediaType != "" && cfg.MediaType != "text/plain",
					cfg.ContentTransferEncoding != "" && cfg.ContentTransferEncoding != "8bit",
					cfg.Charset != "" && !known[cfg.Charset],
				} {
					if broken {
						want++
					}
				}
				errs := cfg.Validate()
				if len(errs) != want {
					return fmt.Errorf("%d reports %v, expected %d", len(errs), errs, want)
				}
				for _, err := range errs {
					if err == nil || err.Error() == "" {
						return fmt.Errorf("an empty report")
					}
				}
				if err := pc.Validate(); (err != nil) != (pc.NoLocation && pc.AddLocation != compile.PoLocationModeNever) {
					return fmt.Errorf("compiler settings: %v", err)
				}
				return nil
			})
		})
	})
}
