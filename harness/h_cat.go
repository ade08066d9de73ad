package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// --- C09: concatenation ---

type occurrence struct {
	e    po.Entry
	file string
}

func runOf(a, b []string) bool {
	for i := 0; i+len(a) <= len(b); i++ {
		if eqStrs(a, b[i:i+len(a)]) {
			return true
		}
	}
	return false
}

func locsOf(a, b po.Locations) bool {
	for i := 0; i+len(a) <= len(b); i++ {
		if eqLocs(a, b[i:i+len(a)]) {
			return true
		}
	}
	return false
}

// joins reports whether got is the one text there is among texts, or holds
// all of them.
func joins(texts []string, got string) error {
	distinct := map[string]bool{}
	for _, t := range texts {
		if t != "" {
			distinct[t] = true
		}
	}
	if len(distinct) <= 1 {
		want := ""
		for t := range distinct {
			want = t
		}
		if got != want {
			return fmt.Errorf("the text is %q, expected %q", got, want)
		}
		return nil
	}
	for t := range distinct {
		if !strings.Contains(got, "  #-#-#-#-#\n"+t) {
			return fmt.Errorf("the text %q does not hold %q under a file's name", got, t)
		}
	}
	return nil
}

func checkJoined(r po.Entry, occ []occurrence) error {
	first := occ[0].e
	if len(occ) == 1 {
		if !eqEntry(r, first) {
			return fmt.Errorf("expected %s", show(first))
		}
		return nil
	}
	if r.ID != first.ID || r.Context != first.Context || r.Plural != first.Plural || isPlural(r) != isPlural(first) {
		return fmt.Errorf("it has another key or kind than its first occurrence %s", show(first))
	}
	obsolete, differ, nlocs, nforms := true, false, 0, len(first.Plurals)
	var texts, flags []string
	lines := map[string]bool{}
	said := ""
	conflict := func(s string) bool {
		if said == "" {
			said = s
		}
		return s != "" && s != said
	}
	for _, o := range occ {
		obsolete = obsolete && o.e.Obsolete
		nlocs += len(o.e.Locations)
		if !locsOf(o.e.Locations, r.Locations) {
			return fmt.Errorf("the locations of %s are missing", show(o.e))
		}
		for i, l := range [][2][]string{{o.e.Comments, r.Comments}, {o.e.ExtractedComments, r.ExtractedComments}, {o.e.Previous, r.Previous}} {
			if !runOf(l[0], l[1]) {
				return fmt.Errorf("the comments %q of %s are missing", l[0], show(o.e))
			}
			for _, s := range l[0] {
				lines[fmt.Sprint(i, s)] = true
			}
			lines[fmt.Sprint(i, "#-#-#-#-#  "+o.file+"  #-#-#-#-#")] = true
		}
		for _, f := range o.e.Flags {
			if !runOf([]string{f}, r.Flags) {
				return fmt.Errorf("the flag %q is missing", f)
			}
			flags = append(flags, f)
		}
		if isPlural(o.e) == isPlural(first) {
			texts = append(texts, o.e.Str)
			if isPlural(first) && len(o.e.Plurals) > nforms {
				nforms = len(o.e.Plurals)
			}
		}
		if o.e.Plural != first.Plural || !isPlural(o.e) && !isPlural(first) && conflict(o.e.Str) {
			differ = true
		}
	}
	if len(r.Locations) != nlocs {
		return fmt.Errorf("%d locations, expected %d", len(r.Locations), nlocs)
	}
	for i, l := range [][]string{r.Comments, r.ExtractedComments, r.Previous} {
		for _, s := range l {
			if !lines[fmt.Sprint(i, s)] {
				return fmt.Errorf("the comment %q is in no file", s)
			}
		}
	}
	for _, f := range r.Flags {
		if f != "fuzzy" && !runOf([]string{f}, flags) {
			return fmt.Errorf("the flag %q is in no file", f)
		}
	}
	if differ && !isFuzzy(r) {
		return fmt.Errorf("its occurrences differ, but it is not fuzzy")
	}
	// all alike, but for those that are not translated
	same := true
	var one *po.Entry
	for i := range occ {
		o := &occ[i].e
		same = same && !isFuzzy(*o) && o.Plural == first.Plural && isPlural(*o) == isPlural(first) && len(o.Plurals) == len(first.Plurals)
		empty := o.Str == ""
		for k := range o.Plurals {
			same = same && o.Plurals[k].ID == first.Plurals[k].ID
			empty = empty && o.Plurals[k].Str == ""
		}
		if !same || empty {
			continue
		}
		if one == nil {
			one = o
		}
		same = one.Str == o.Str && eqPlurals(one.Plurals, o.Plurals)
	}
	if same && isFuzzy(r) {
		return fmt.Errorf("its occurrences agree, but it is fuzzy")
	}
	if r.Obsolete != obsolete {
		return fmt.Errorf("obsolete is %v, expected %v", r.Obsolete, obsolete)
	}
	if err := joins(texts, r.Str); err != nil {
		return err
	}
	if len(r.Plurals) != nforms {
		return fmt.Errorf("%d plural forms, expected %d", len(r.Plurals), nforms)
	}
	for i, p := range r.Plurals {
		texts = nil
		for _, o := range occ {
			if isPlural(o.e) == isPlural(first) && i < len(o.e.Plurals) {
				texts = append(texts, o.e.Plurals[i].Str)
			}
		}
		if err := joins(texts, p.Str); err != nil {
			return fmt.Errorf("plural form %d: %v", i, err)
		}
	}
	return nil
}

func checkCat(cfg po.MsgcatMergeConfig, files []*po.File, got po.Entries) error {
	var keys []string
	occ := map[string][]occurrence{}
	for _, f := range files {
		for _, e := range f.Entries {
			k := key(e)
			if occ[k] == nil {
				keys = append(keys, k)
			}
			occ[k] = append(occ[k], occurrence{e, f.Name})
		}
	}
	n := 0
	for _, k := range keys {
		if c := uint(len(occ[k])); c <= cfg.MoreThan || c >= cfg.LessThan {
			continue
		}
		if n >= len(got) || key(got[n]) != k {
			return fmt.Errorf("the message %q, which occurs %d times, is not at %d", k, len(occ[k]), n)
		}
		o := occ[k]
		if cfg.UseFirst {
			o = o[:1]
		}
		if err := checkJoined(got[n], o); err != nil {
			return fmt.Errorf("message %d is %s: %v", n, show(got[n]), err)
		}
		n++
	}
	if n != len(got) {
		return fmt.Errorf("%d messages, expected %d", len(got), n)
	}
	return nil
}

func init() {
	register("C09", "concatenate", "lists of up to 4 catalogues with common messages, every option; non-trivial: distinct lists", func(c *C) {
		c.Iter(6000, func(i, size int) {
			var files []*po.File
			for n := c.Intn(4); n >= 0; n-- {
				es := c.entries(size)
				if len(files) > 0 {
					prev := files[c.Intn(len(files))].Entries
					for j := range es {
						if len(prev) == 0 || c.Intn(2) == 0 {
							continue
						}
						d := prev[c.Intn(len(prev))]
						switch c.Intn(4) {
						case 0:
							es[j] = cpEntry(d)
							for k := range es[j].Plurals {
								if c.Intn(3) == 0 {
									es[j].Plurals[k].Str = c.near(es[j].Plurals[k].Str)
								}
							}
							if c.Intn(2) == 0 {
								es[j].Str = c.near(d.Str)
							}
							if len(d.Comments) > 0 && c.Intn(3) == 0 {
								es[j].Comments[0] = c.near(d.Comments[0])
							}
						case 1:
							es[j].ID, es[j].Context, es[j].Plural, es[j].Plurals = d.ID, d.Context, d.Plural, cpEntry(d).Plurals
						default:
							es[j].ID, es[j].Context = d.ID, d.Context
						}
					}
				}
				files = append(files, &po.File{Name: c.pick([]string{"a.po", "b.po", "dir/c.po", "", "%s"}), Entries: roomy(es)})
				if c.Intn(8) == 0 {
					files = append(files, files[c.Intn(len(files))])
				}
			}
			cfg := po.DefaultMsgcatMergeConfig()
			if c.Intn(2) == 0 {
				cfg.LessThan = uint(c.Intn(5))
			}
			if c.Intn(2) == 0 {
				cfg.MoreThan = uint(c.Intn(4))
			}
			cfg.UseFirst = c.Intn(3) == 0
			var before []*po.File
			for _, f := range files {
				before = append(before, &po.File{Name: f.Name, Entries: cpEntries(f.Entries)})
			}
			in := func() string {
				s := fmt.Sprintf("%+v", cfg)
				for _, f := range before {
					s += fmt.Sprintf("\n%q: %#v", f.Name, f.Entries)
				}
				return s
			}
			c.Try(in, func() error {
				if d := po.DefaultMsgcatMergeConfig(); d.LessThan != math.MaxUint || d.MoreThan != 0 || d.UseFirst {
					return fmt.Errorf("the default configuration is %+v", d)
				}
				got := po.MsgcatMergeFiles(files, po.MsgcatMergeWithConfig(cfg))
				for j, f := range files {
					if err := unchanged(f.Entries, before[j].Entries); err != nil {
						return err
					}
					if err := spare(f.Entries); err != nil {
						return err
					}
					if f.Name != before[j].Name {
						return fmt.Errorf("a file was renamed")
					}
				}
				if err := checkCat(cfg, before, got); err != nil {
					return err
				}
				again := po.MsgcatMergeFiles(files, po.MsgcatMergeWithUseFirst(!cfg.UseFirst), po.MsgcatMergeWithLessThan(0), po.MsgcatMergeWithMoreThan(math.MaxUint),
					po.MsgcatMergeWithMoreThan(cfg.MoreThan), po.MsgcatMergeWithLessThan(cfg.LessThan), po.MsgcatMergeWithUseFirst(cfg.UseFirst))
				if err := eqEntries(again, got); err != nil {
					return fmt.Errorf("by options and by configuration differ: %v", err)
				}
				return nil
			})
		})
	})
}
