package main

import (
	"fmt"
	"sort"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// --- C08: merging with a template ---

func withFuzzy(e po.Entry) po.Entry {
	if isFuzzy(e) {
		return e
	}
	e = cpEntry(e)
	e.Flags = append(e.Flags, "fuzzy")
	return e
}

func following(e, t po.Entry) po.Entry {
	e = cpEntry(e)
	t = cpEntry(t)
	e.Obsolete, e.ExtractedComments, e.Locations = t.Obsolete, t.ExtractedComments, t.Locations
	return e
}

// translated is t with the translation of s.
func translated(t, s po.Entry) po.Entry {
	t = cpEntry(t)
	s = cpEntry(s)
	switch {
	case isPlural(t) && isPlural(s):
		t.Plurals = s.Plurals
	case isPlural(t):
		if len(t.Plurals) == 0 {
			t.Plurals = make(po.PluralEntries, 1)
		}
		t.Plurals[0].Str = s.Str
	case isPlural(s):
		if len(s.Plurals) > 0 {
			t.Str = s.Plurals[0].Str
		}
	default:
		t.Str = s.Str
	}
	return t
}

func firstKey(es po.Entries, k string) int {
	for i := range es {
		if key(es[i]) == k {
			return i
		}
	}
	return -1
}

// checkMerged is the property, for an unsorted result.
func checkMerged(cfg po.MergeConfig, def, tpl, got po.Entries) error {
	s := solveSpec(def, solveMergeSpec)
	if len(got) < len(s) {
		return fmt.Errorf("%d entries, but there were %d old messages", len(got), len(s))
	}
	seen := map[string]bool{}
	for i, e := range got {
		if seen[key(e)] {
			return fmt.Errorf("entry %d repeats the key %q", i, key(e))
		}
		seen[key(e)] = true
	}
	for _, t := range tpl {
		if key(t) != "" && !seen[key(t)] {
			return fmt.Errorf("the template's message %q is missing", key(t))
		}
	}
	for i, e := range s {
		r := got[i]
		if r.Str != e.Str || !eqPlurals(r.Plurals, e.Plurals) || !eqStrs(r.Comments, e.Comments) {
			return fmt.Errorf("old message %d is %s, its translation or comments are not those of %s", i, show(r), show(e))
		}
		var want []po.Entry
		k := firstKey(tpl, key(e))
		switch {
		case key(e) == "":
			want = append(want, e)
		case k >= 0:
			want = append(want, following(e, tpl[k]))
		case cfg.FuzzyMatch:
			w := e
			w.Obsolete = true
			want = append(want, w)
			if key(r) != "" && firstKey(s, key(r)) < 0 {
				for _, t := range tpl {
					if key(t) == key(r) && isPlural(t) == isPlural(e) {
						w := following(withFuzzy(e), t)
						w.ID, w.Context, w.Plural = t.ID, t.Context, t.Plural
						want = append(want, w)
					}
				}
			}
		case cfg.KeepPreviousIDs:
			want = append(want, withFuzzy(e))
		default:
			w := e
			w.Obsolete = true
			want = append(want, w)
		}
		ok := false
		for _, w := range want {
			ok = ok || eqEntry(r, w)
		}
		if !ok {
			return fmt.Errorf("old message %d is %s, expected %s", i, show(r), show(want[0]))
		}
	}
	n := len(s)
	old := got[:len(s)]
	for _, t := range tpl {
		if key(t) == "" || firstKey(got[:n], key(t)) >= 0 {
			continue
		}
		if n >= len(got) || key(got[n]) != key(t) {
			return fmt.Errorf("new message %q is not at %d", key(t), n)
		}
		r := got[n]
		ok := eqEntry(r, t)
		if cfg.FuzzyMatch {
			for _, o := range old {
				ok = ok || eqEntry(r, translated(withFuzzy(t), o))
			}
		} else if isPlural(t) && len(t.Plurals) == 0 {
			w := cpEntry(t)
			for j := range r.Plurals {
				w.Plurals = append(w.Plurals, po.PluralEntry{ID: j, Str: t.ID})
			}
			ok = ok || eqEntry(r, w)
		}
		if !ok {
			return fmt.Errorf("new message %d is %s, expected %s or that with an old message's translation, marked fuzzy", n, show(r), show(t))
		}
		n++
	}
	if n != len(got) {
		return fmt.Errorf("%d entries more than old and new messages", len(got)-n)
	}
	return nil
}

func sortedShow(es po.Entries) []string {
	var out []string
	for _, e := range es {
		out = append(out, show(e))
	}
	sort.Strings(out)
	return out
}

func init() {
	register("C08", "merge", "pairs of related catalogues under every option; non-trivial: distinct pairs", func(c *C) {
		header := func() po.Entry {
			return po.Entry{Str: []string{"", "Language: es\n", "Plural-Forms: nplurals=3; plural=(n%10==1 ? 0 : n != 1);\n", "a: b\nPlural-Forms: nplurals=1; plural=0;\n"}[c.Intn(4)]}
		}
		c.Iter(5000, func(i, size int) {
			def, tpl := c.entries(size), c.entries(size)
			// related messages: the same, or slightly different, ids
			for j := range tpl {
				if len(def) == 0 {
					break
				}
				d := def[c.Intn(len(def))]
				switch c.Intn(5) {
				case 0:
					tpl[j].ID, tpl[j].Context = d.ID, d.Context
				case 1:
					tpl[j].ID, tpl[j].Context = d.ID+"x", d.Context
				case 2:
					tpl[j].ID, tpl[j].Context, tpl[j].Plural = d.ID+"x", "", d.Plural
				case 3:
					tpl[j].Str, tpl[j].Plurals = "", nil
				}
			}
			if c.Intn(3) == 0 {
				def = append(def, header())
			}
			if c.Intn(3) == 0 {
				tpl = append(po.Entries{header()}, tpl...)
			}
			if c.Intn(2) == 0 {
				def, tpl = roomy(def), roomy(tpl)
				if len(tpl) > 0 && len(def) > 0 && c.Intn(2) == 0 {
					// shared storage
					a, b := c.Intn(len(tpl)), c.Intn(len(def))
					tpl[a].Plurals, tpl[a].Flags = def[b].Plurals, def[b].Flags
				}
			}
			cfg := po.MergeConfig{FuzzyMatch: c.Intn(2) == 0, KeepPreviousIDs: c.Intn(2) == 0, SortMode: po.SortMode(c.Intn(6))}
			bdef, btpl := cpEntries(def), cpEntries(tpl)
			in := func() string { return fmt.Sprintf("%+v\nold: %#v\ntemplate: %#v", cfg, bdef, btpl) }
			c.Try(in, func() error {
				got := po.MergeWithConfig(cfg, def, tpl)
				for _, w := range []struct{ a, b po.Entries }{{def, bdef}, {tpl, btpl}} {
					if err := unchanged(w.a, w.b); err != nil {
						return err
					}
					if err := spare(w.a); err != nil {
						return err
					}
				}
				if err := checkMerged(cfg, bdef, btpl, got); err != nil {
					return err
				}
				before := cpEntries(got)
				// the options in order, the last one wins
				scfg := cfg
				scfg.Sort = true
				again := po.Merge(def, tpl, po.MergeWithMergeConfig(po.MergeConfig{}), po.MergeWithFuzzyMatch(!cfg.FuzzyMatch), po.MergeWithFuzzyMatch(cfg.FuzzyMatch),
					po.MergeWithKeepPreviousIDs(cfg.KeepPreviousIDs), po.MergeWithSort(true), po.MergeWithSortMode(cfg.SortMode))
				if err := eqEntries(again, po.MergeWithConfig(scfg, def, tpl)); err != nil {
					return fmt.Errorf("by options and by configuration differ: %v", err)
				}
				if !eqStrs(sortedShow(again), sortedShow(before)) {
					return fmt.Errorf("sorted, the messages are others: %#v and %#v", again, before)
				}
				if len(again) > 1 && key(again[0]) != "" {
					cmp := map[po.SortMode]func(a, b po.Entry) int{
						po.SortByAll: po.CompareEntry, po.SortByID: po.CompareEntryByID, po.SortByFile: po.CompareEntryByFile,
						po.SortByLine: po.CompareEntryByLine, po.SortByFuzzy: po.CompareEntryByFuzzy, po.SortByObsolete: po.CompareEntryByObsolete,
					}[cfg.SortMode]
					for j := 1; j < len(again); j++ {
						if key(again[j]) != "" && cmp(again[j-1], again[j]) > 0 {
							return fmt.Errorf("entries %d and %d are not in the order asked for", j-1, j)
						}
					}
				}
				if err := eqEntries(po.Merge(def, tpl), po.MergeWithConfig(po.MergeConfig{FuzzyMatch: true, Sort: true}, def, tpl)); err != nil {
					return fmt.Errorf("without options: %v", err)
				}
				return nil
			})
		})
	})
}

// spare verifies that the room behind the slices of roomy entries is unused.
func spare(es po.Entries) error {
	for i, e := range es {
		for _, l := range [][]string{e.Flags, e.Comments, e.ExtractedComments, e.Previous} {
			for _, f := range l[len(l):cap(l)] {
				if f != "" {
					return fmt.Errorf("something was written behind the flags or comments of entry %d", i)
				}
			}
		}
		for _, p := range e.Plurals[len(e.Plurals):cap(e.Plurals)] {
			if p != (po.PluralEntry{}) {
				return fmt.Errorf("something was written behind the plural forms of entry %d", i)
			}
		}
		for _, l := range e.Locations[len(e.Locations):cap(e.Locations)] {
			if l != (po.Location{}) {
				return fmt.Errorf("something was written behind the locations of entry %d", i)
			}
		}
	}
	return nil
}
