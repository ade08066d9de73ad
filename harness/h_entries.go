package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/slices"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"

	fuzzy "github.com/paul-mannino/go-fuzzywuzzy"
)

// solveSpec mirrors the specification function sv of the contracts.
func solveSpec(es po.Entries, merge func(a, b po.Entry) *po.Entry) po.Entries {
	var out po.Entries
	at := map[string]int{}
	for _, e := range es {
		if i, ok := at[key(e)]; ok {
			if m := merge(cpEntry(out[i]), cpEntry(e)); m != nil {
				out[i] = *m
			}
			continue
		}
		at[key(e)] = len(out)
		out = append(out, cpEntry(e))
	}
	return out
}

func joinLocs(a, b po.Entry) *po.Entry {
	a = cpEntry(a)
	a.Locations = append(a.Locations, b.Locations...)
	return &a
}

func plStr(a, b po.PluralEntries) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if x := strings.Compare(a[i].Str, b[i].Str); x != 0 {
			return x
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func cmpLoc(a, b po.Location) int {
	if x := strings.Compare(filepath.Clean(a.File), filepath.Clean(b.File)); x != 0 {
		return x
	}
	return cmpInt(a.Line, b.Line)
}

func cmpLocs(a, b po.Locations, f func(a, b po.Location) int) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if x := f(a[i], b[i]); x != 0 {
			return x
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

func cmpBool(a, b bool) int {
	if a == b {
		return 0
	} else if a {
		return 1
	}
	return -1
}

func specCompareEntry(a, b po.Entry) int {
	if x := cmpBool(a.Obsolete, b.Obsolete); x != 0 {
		return x
	}
	if x := cmpBool(isFuzzy(a), isFuzzy(b)); x != 0 {
		return x
	}
	if x := cmpLocs(a.Locations, b.Locations, cmpLoc); x != 0 {
		return x
	}
	return strings.Compare(key(a), key(b))
}

func isPlural(e po.Entry) bool { return e.Plural != "" || len(e.Plurals) > 0 }

func specCompareStr(a, b po.Entry) int {
	if isPlural(a) && isPlural(b) {
		if x := plStr(a.Plurals, b.Plurals); x != 0 {
			return x
		}
	}
	return strings.Compare(a.Str, b.Str)
}

func solveMergeSpec(a, b po.Entry) *po.Entry {
	p := cpEntry(b)
	if specCompareEntry(a, b) > 0 {
		p = cpEntry(a)
	}
	p.Locations = append(append(po.Locations{}, a.Locations...), b.Locations...)
	s := b
	if specCompareStr(a, b) > 0 {
		s = a
	}
	p.Str = s.Str
	p.Plurals = cpEntry(s).Plurals
	return &p
}

// unchanged verifies that the input list still holds what it held.
func unchanged(es, before po.Entries) error {
	if err := eqEntries(es, before); err != nil {
		return fmt.Errorf("the input was modified: %v", err)
	}
	return nil
}

// roomy returns the same entries in slices with spare capacity, so that an
// append that writes into shared storage is observable.
func roomy(es po.Entries) po.Entries {
	out := make(po.Entries, len(es), len(es)+4)
	for i, e := range es {
		e = cpEntry(e)
		e.Locations = append(make(po.Locations, 0, len(e.Locations)+4), e.Locations...)
		e.Plurals = append(make(po.PluralEntries, 0, len(e.Plurals)+4), e.Plurals...)
		for _, l := range []*[]string{&e.Flags, &e.Comments, &e.ExtractedComments, &e.Previous} {
			*l = append(make([]string, 0, len(*l)+4), *l...)
		}
		out[i] = e
	}
	return out
}

func init() {
	register("C07", "resolve", "random entry lists with few distinct keys; non-trivial: distinct lists", func(c *C) {
		c.Iter(4000, func(i, size int) {
			es := c.entries(size)
			if i%3 == 0 {
				es = roomy(es)
			}
			before := cpEntries(es)
			c.Try(es, func() error {
				if err := eqEntries(es.CleanDuplicates(), solveSpec(before, joinLocs)); err != nil {
					return fmt.Errorf("CleanDuplicates: %v", err)
				}
				if err := unchanged(es, before); err != nil {
					return err
				}
				got := es.Solve()
				if err := eqEntries(got, solveSpec(before, solveMergeSpec)); err != nil {
					return fmt.Errorf("Solve: %v", err)
				}
				if err := unchanged(es, before); err != nil {
					return err
				}
				nth := 0
				pickSome := func(a, b po.Entry) *po.Entry {
					nth++
					switch nth % 3 {
					case 0:
						return nil
					case 1:
						return &b
					}
					return &a
				}
				got = es.SolveFunc(pickSome)
				nth = 0
				if err := eqEntries(got, solveSpec(before, pickSome)); err != nil {
					return fmt.Errorf("SolveFunc: %v", err)
				}
				// one entry per key, in order of first occurrence
				var keys []string
				seen := map[string]int{}
				for j, e := range before {
					if _, ok := seen[key(e)]; !ok {
						seen[key(e)] = j
						keys = append(keys, key(e))
					}
				}
				dd := es.CleanDuplicates()
				for j, k := range keys {
					if key(dd[j]) != k {
						return fmt.Errorf("resolved entry %d has key %q, expected %q", j, key(dd[j]), k)
					}
				}
				if dd.HasDuplicates() || len(dd.CatchDuplicateEntries()) != 0 {
					return errors.New("duplicates remain after resolution")
				}
				if err := eqEntries(dd.CleanDuplicates(), dd); err != nil {
					return fmt.Errorf("resolving twice differs: %v", err)
				}
				if es.HasDuplicates() != (len(keys) != len(es)) {
					return fmt.Errorf("HasDuplicates says %v for %d entries with %d keys", es.HasDuplicates(), len(es), len(keys))
				}
				errs := es.CatchDuplicateEntries()
				n := 0
				for j, e := range before {
					if f := seen[key(e)]; f != j {
						if n >= len(errs) {
							return fmt.Errorf("duplicate at %d is not reported", j)
						}
						var at *po.InvalidEntryAtIndexError
						var iv *po.InvalidEntryError
						var du *po.DuplicatedEntryError
						if !errors.As(errs[n], &at) || !errors.As(errs[n], &iv) || !errors.As(errs[n], &du) || at.Index != j || iv.ID != key(e) || du.OriginalIndex != f {
							return fmt.Errorf("report %d is %v, expected a duplicate at %d of %d", n, errs[n], j, f)
						}
						n++
					}
				}
				if n != len(errs) {
					return fmt.Errorf("%d reports, expected %d", len(errs), n)
				}
				return unchanged(es, before)
			})
		})
	})
	register("C07", "mergers", "the predefined resolution strategies on random lists", func(c *C) {
		c.Iter(2500, func(i, size int) {
			es := c.entries(size)
			prior := c.entries(3)
			var ids []string
			for _, p := range prior {
				ids = append(ids, key(p))
			}
			before, pb := cpEntries(es), cpEntries(prior)
			c.Try(map[string]any{"entries": es, "prior": prior}, func() error {
				find := func(k string) *po.Entry {
					for j := range pb {
						if key(pb[j]) == k {
							x := cpEntry(pb[j])
							return &x
						}
					}
					return nil
				}
				for _, t := range []struct {
					n string
					f po.MergeFunc
					s func(a, b po.Entry) *po.Entry
				}{
					{"MergeUsingPriorAsBase", po.MergeUsingPriorAsBase(prior), func(a, b po.Entry) *po.Entry {
						if p := find(key(a)); p != nil {
							return solveMergeSpec(*p, b)
						}
						return solveMergeSpec(a, b)
					}},
					{"MergeAndMarkObsoleteIfNotPrioritized", po.MergeAndMarkObsoleteIfNotPrioritized(ids), func(a, b po.Entry) *po.Entry {
						m := solveMergeSpec(a, b)
						if find(key(a)) == nil {
							m.Obsolete = true
						}
						return m
					}},
					{"MergeIfInPriorityList", po.MergeIfInPriorityList(ids), func(a, b po.Entry) *po.Entry {
						if find(key(a)) != nil {
							return solveMergeSpec(a, b)
						}
						return nil
					}},
					{"MergeUsingPriorityOrFallback", po.MergeUsingPriorityOrFallback(prior), func(a, b po.Entry) *po.Entry {
						if p := find(key(a)); p != nil {
							return p
						}
						return solveMergeSpec(a, b)
					}},
				} {
					if err := eqEntries(es.SolveFunc(t.f), solveSpec(before, t.s)); err != nil {
						return fmt.Errorf("%s: %v", t.n, err)
					}
					if err := unchanged(es, before); err != nil {
						return fmt.Errorf("%s: %v", t.n, err)
					}
					if err := unchanged(prior, pb); err != nil {
						return fmt.Errorf("%s: priority list: %v", t.n, err)
					}
				}
				return nil
			})
		})
	})

	type entryCmp struct {
		n string
		f func(a, b po.Entry) int
		s func(a, b po.Entry) int
	}
	byLine := func(a, b po.Location) int { return cmpInt(a.Line, b.Line) }
	byFile := func(a, b po.Location) int { return strings.Compare(filepath.Clean(a.File), filepath.Clean(b.File)) }
	cmps := []entryCmp{
		{"CompareEntry", po.CompareEntry, specCompareEntry},
		{"CompareEntryByObsolete", po.CompareEntryByObsolete, func(a, b po.Entry) int { return cmpBool(a.Obsolete, b.Obsolete) }},
		{"CompareEntryByFuzzy", po.CompareEntryByFuzzy, func(a, b po.Entry) int { return cmpBool(isFuzzy(a), isFuzzy(b)) }},
		{"CompareEntryByLocation", po.CompareEntryByLocation, func(a, b po.Entry) int { return cmpLocs(a.Locations, b.Locations, cmpLoc) }},
		{"CompareEntryByID", po.CompareEntryByID, func(a, b po.Entry) int { return strings.Compare(key(a), key(b)) }},
		{"CompareEntryByLine", po.CompareEntryByLine, func(a, b po.Entry) int { return cmpLocs(a.Locations, b.Locations, byLine) }},
		{"CompareEntryByFile", po.CompareEntryByFile, func(a, b po.Entry) int { return cmpLocs(a.Locations, b.Locations, byFile) }},
	}
	register("C10", "comparators", "random triples of entries, extreme line numbers included", func(c *C) {
		c.Iter(4000, func(i, size int) {
			a, b, d := c.entry(), c.entry(), c.entry()
			if c.Intn(2) == 0 {
				b.Obsolete, d.Obsolete, b.Flags, d.Flags = a.Obsolete, a.Obsolete, a.Flags, a.Flags
			}
			c.Try([]po.Entry{a, b, d}, func() error {
				for _, k := range cmps {
					x, y := k.f(a, b), k.f(b, a)
					if sgn(x) != k.s(a, b) {
						return fmt.Errorf("%s gives %d, expected sign %d", k.n, x, k.s(a, b))
					}
					if sgn(x) != -sgn(y) {
						return fmt.Errorf("%s is not antisymmetric: %d and %d", k.n, x, y)
					}
					if k.f(a, b) <= 0 && k.f(b, d) <= 0 && k.f(a, d) > 0 {
						return fmt.Errorf("%s is not transitive", k.n)
					}
				}
				for _, p := range a.Plurals {
					for _, q := range b.Plurals {
						if sgn(po.ComparePluralEntryByID(p, q)) != cmpInt(p.ID, q.ID) || sgn(po.ComparePluralEntryByStr(p, q)) != strings.Compare(p.Str, q.Str) {
							return fmt.Errorf("plural comparison of %v and %v", p, q)
						}
						w := cmpInt(p.ID, q.ID)
						if w == 0 {
							w = strings.Compare(p.Str, q.Str)
						}
						if sgn(po.ComparePluralEntry(p, q)) != w {
							return fmt.Errorf("ComparePluralEntry of %v and %v is %d", p, q, po.ComparePluralEntry(p, q))
						}
					}
				}
				for _, p := range a.Locations {
					for _, q := range b.Locations {
						if sgn(po.CompareLocation(p, q)) != cmpLoc(p, q) || sgn(po.CompareLocationByLine(p, q)) != byLine(p, q) || sgn(po.CompareLocationByFile(p, q)) != byFile(p, q) {
							return fmt.Errorf("location comparison of %v and %v", p, q)
						}
					}
				}
				return nil
			})
		})
	})
	register("C10", "sorting", "random lists sorted by every mode", func(c *C) {
		c.Iter(3000, func(i, size int) {
			es := c.entries(size + 4)
			c.Try(es, func() error {
				perm := func(what string, got po.Entries, f func(a, b po.Entry) int) error {
					if len(got) != len(es) {
						return fmt.Errorf("%s: %d entries, expected %d", what, len(got), len(es))
					}
					x, y := make([]string, len(es)), make([]string, len(es))
					for j := range es {
						x[j], y[j] = show(es[j]), show(got[j])
					}
					sort.Strings(x)
					sort.Strings(y)
					if !eqStrs(x, y) {
						return fmt.Errorf("%s: not a permutation", what)
					}
					for j := 1; j < len(got); j++ {
						for k := 0; k < j; k++ {
							if f(got[k], got[j]) > 0 {
								return fmt.Errorf("%s: entries %d and %d are out of order", what, k, j)
							}
						}
					}
					return nil
				}
				if err := perm("Sort", cpEntries(es).Sort(), specCompareEntry); err != nil {
					return err
				}
				modes := map[po.SortMode]func(a, b po.Entry) int{po.SortByAll: specCompareEntry, po.SortByID: cmps[4].s, po.SortByFile: cmps[6].s, po.SortByLine: cmps[5].s, po.SortByFuzzy: cmps[2].s, po.SortByObsolete: cmps[1].s, po.SortMode(77): specCompareEntry}
				for m, f := range modes {
					if err := perm(fmt.Sprint("mode ", int(m)), m.SortMethod(cpEntries(es))(), f); err != nil {
						return err
					}
				}
				for _, k := range cmps {
					got := cpEntries(es).SortFunc(k.f)
					if err := perm("SortFunc "+k.n, got, k.s); err != nil {
						return err
					}
					if !got.IsSortedFunc(k.f) {
						return fmt.Errorf("IsSortedFunc %s denies a sorted list", k.n)
					}
					got = cpEntries(es).PrepareSorter(k.f)()
					if err := perm("PrepareSorter "+k.n, got, k.s); err != nil {
						return err
					}
					want := true
					for j := 1; j < len(es); j++ {
						if k.s(es[j], es[j-1]) < 0 {
							want = false
						}
					}
					if es.IsSortedFunc(k.f) != want {
						return fmt.Errorf("IsSortedFunc %s says %v", k.n, !want)
					}
				}
				if !cpEntries(es).Sort().IsSorted() {
					return errors.New("IsSorted denies a sorted list")
				}
				in := true
				for j := 1; j < len(es); j++ {
					in = in && specCompareEntry(es[j-1], es[j]) <= 0
				}
				if es.IsSorted() != in {
					return fmt.Errorf("IsSorted says %v", !in)
				}
				for _, e := range es {
					in := true
					for j := 1; j < len(e.Locations); j++ {
						in = in && byLine(e.Locations[j-1], e.Locations[j]) <= 0
					}
					if e.Locations.IsSortedFunc(po.CompareLocationByLine) != in {
						return fmt.Errorf("locations: IsSortedFunc says %v", !in)
					}
					l := cpEntry(e).Locations.SortFunc(po.CompareLocationByLine)
					if len(l) != len(e.Locations) || !l.IsSortedFunc(po.CompareLocationByLine) {
						return errors.New("locations are not sorted by line")
					}
					in = true
					for j := 1; j < len(e.Locations); j++ {
						in = in && cmpLoc(e.Locations[j-1], e.Locations[j]) <= 0
					}
					if e.Locations.IsSorted() != in {
						return fmt.Errorf("locations: IsSorted says %v", !in)
					}
					in = true
					for j := 1; j < len(e.Plurals); j++ {
						in = in && strings.Compare(e.Plurals[j-1].Str, e.Plurals[j].Str) <= 0
					}
					if e.Plurals.IsSortedFunc(po.ComparePluralEntryByStr) != in {
						return fmt.Errorf("plural forms: IsSortedFunc says %v", !in)
					}
					ps := cpEntry(e).Plurals.SortFunc(po.ComparePluralEntryByStr)
					if len(ps) != len(e.Plurals) || !ps.IsSortedFunc(po.ComparePluralEntryByStr) {
						return errors.New("plural forms are not sorted by text")
					}
				}
				for _, e := range es {
					p := cpEntry(e).Plurals.Sort()
					if len(p) != len(e.Plurals) || !p.IsSorted() {
						return errors.New("plural forms are not sorted")
					}
					for j := 1; j < len(p); j++ {
						if p[j].ID < p[j-1].ID {
							return errors.New("plural forms are out of order")
						}
					}
					l := cpEntry(e).Locations.Sort()
					if len(l) != len(e.Locations) || !l.IsSorted() {
						return errors.New("locations are not sorted")
					}
					for j := 1; j < len(l); j++ {
						if cmpLoc(l[j-1], l[j]) > 0 {
							return errors.New("locations are out of order")
						}
					}
				}
				return nil
			})
		})
	})
	register("C15", "lookup", "random lists, keys present and absent", func(c *C) {
		c.Iter(4000, func(i, size int) {
			es := c.entries(size)
			if i%3 == 0 {
				es = roomy(es)
			}
			probe := c.entry()
			before := cpEntries(es)
			c.Try(map[string]any{"entries": es, "probe": probe}, func() error {
				wi, wu := -1, -1
				for j := len(before) - 1; j >= 0; j-- {
					if before[j].ID == probe.ID && before[j].Context == probe.Context {
						wi = j
					}
					if key(before[j]) == key(probe) {
						wu = j
					}
				}
				if g := es.Index(probe.ID, probe.Context); g != wi {
					return fmt.Errorf("Index gives %d, expected %d", g, wi)
				}
				if g := es.IndexByUnifiedID(key(probe)); g != wu {
					return fmt.Errorf("IndexByUnifiedID gives %d, expected %d", g, wu)
				}
				if es.ContainsUnifiedID(key(probe)) != (wu >= 0) {
					return errors.New("ContainsUnifiedID is wrong")
				}
				if probe.UnifiedID() != key(probe) {
					return fmt.Errorf("UnifiedID is %q", probe.UnifiedID())
				}
				full := key(probe)
				if probe.Plural != "" {
					full += "\x00" + probe.Plural
				}
				if probe.FullUnifiedID() != full {
					return fmt.Errorf("FullUnifiedID is %q", probe.FullUnifiedID())
				}
				f := po.File{Name: "f", Entries: es}
				want := ""
				if wi >= 0 {
					want = before[wi].Str
				}
				if g := f.Load(probe.ID, probe.Context); g != want {
					return fmt.Errorf("Load gives %q, expected %q", g, want)
				}
				want = ""
				if wu >= 0 {
					want = before[wu].Str
				}
				if g := f.LoadByUnifiedID(key(probe)); g != want {
					return fmt.Errorf("LoadByUnifiedID gives %q, expected %q", g, want)
				}
				filter := func(del func(e po.Entry) bool) po.Entries {
					var out po.Entries
					for _, e := range before {
						if !del(e) {
							out = append(out, e)
						}
					}
					return out
				}
				if err := eqEntries(cpEntries(es).CleanFuzzy(), filter(isFuzzy)); err != nil {
					return fmt.Errorf("CleanFuzzy: %v", err)
				}
				if err := eqEntries(cpEntries(es).CleanObsoletes(), filter(func(e po.Entry) bool { return e.Obsolete })); err != nil {
					return fmt.Errorf("CleanObsoletes: %v", err)
				}
				if err := eqEntries(cpEntries(es).CleanEmpties(), filter(func(e po.Entry) bool { return e.ID == "" })); err != nil {
					return fmt.Errorf("CleanEmpties: %v", err)
				}
				done := false
				if err := eqEntries(cpEntries(es).CutHeader(), filter(func(e po.Entry) bool {
					if !done && e.ID == "" && e.Context == "" {
						done = true
						return true
					}
					return false
				})); err != nil {
					return fmt.Errorf("CutHeader: %v", err)
				}
				if err := unchanged(es, before); err != nil {
					return err
				}
				g := po.File{Name: "f", Entries: cpEntries(es)}
				g.Set(probe.ID, probe.Context, probe)
				w := cpEntries(es)
				if wi >= 0 {
					w[wi] = probe
				} else {
					w = append(w, probe)
				}
				if err := eqEntries(g.Entries, w); err != nil {
					return fmt.Errorf("Set: %v", err)
				}
				if probe.IsFuzzy() != isFuzzy(probe) || probe.IsPlural() != isPlural(probe) || probe.HasContext() != (probe.Context != "") || probe.IsHeader() != (probe.ID == "" && probe.Context == "") {
					return errors.New("an entry predicate is wrong")
				}
				return nil
			})
		})
	})
	register("C15", "similarity", "pairs of similar and different messages, and lists of them", func(c *C) {
		ratio := func(on bool, a, b string) []int {
			if on {
				return []int{fuzzy.Ratio(a, b)}
			}
			return nil
		}
		average := func(rs []int) int {
			if len(rs) == 0 {
				return 0
			}
			sum := 0
			for _, r := range rs {
				sum += r
			}
			return sum / len(rs)
		}
		ids := func(a, b po.Entry) int {
			rs := ratio(a.ID != "" || b.ID != "", a.ID, b.ID)
			rs = append(rs, ratio(a.Context != "" || b.Context != "", a.Context, b.Context)...)
			return average(append(rs, ratio(isPlural(a) && isPlural(b), a.Plural, b.Plural)...))
		}
		strs := func(a, b po.Entry) int {
			rs := ratio(a.Str != "" || b.Str != "", a.Str, b.Str)
			for i := range a.Plurals {
				if i < len(b.Plurals) {
					rs = append(rs, fuzzy.Ratio(a.Plurals[i].Str, b.Plurals[i].Str))
				}
			}
			return average(rs)
		}
		texts := []string{"", "file", "files", "a file", "delete the file", "delete this file", "delete the files", "delet the file", "remove it"}
		some := func() po.Entry {
			e := c.entry()
			for _, t := range []*string{&e.ID, &e.Context, &e.Plural, &e.Str} {
				if c.Intn(3) > 0 {
					*t = texts[c.Intn(len(texts))]
				}
			}
			if c.Intn(3) == 0 {
				e.Context = ""
			}
			if c.Intn(3) == 0 {
				e.Plural = ""
			}
			for i := range e.Plurals {
				e.Plurals[i].Str = texts[c.Intn(len(texts))]
			}
			return e
		}
		c.Iter(2500, func(i, size int) {
			var es po.Entries
			for n := c.Intn(size + 1); n > 0; n-- {
				es = append(es, some())
			}
			x, y := some(), some()
			before := cpEntries(es)
			c.Try(map[string]any{"entries": before, "a": x, "b": y}, func() error {
				if g := po.EntryIDMatchRatio(x, y); g != ids(x, y) {
					return fmt.Errorf("EntryIDMatchRatio gives %d, expected %d", g, ids(x, y))
				}
				if g := po.EntryStrMatchRatio(x, y); g != strs(x, y) {
					return fmt.Errorf("EntryStrMatchRatio gives %d, expected %d", g, strs(x, y))
				}
				best := func(f func(a, b po.Entry) int) (at, r int) {
					for j, e := range before {
						if v := f(x, e); v > r {
							at, r = j, v
						}
					}
					return
				}
				wi, wr := best(ids)
				if g, r := es.BestIDRatio(x); g != wi || r != wr {
					return fmt.Errorf("BestIDRatio gives %d with %d, expected %d with %d", g, r, wi, wr)
				}
				wi, wr = best(strs)
				if g, r := es.BestStrRatio(x); g != wi || r != wr {
					return fmt.Errorf("BestStrRatio gives %d with %d, expected %d with %d", g, r, wi, wr)
				}
				w := -1
				for j := len(before) - 1; j >= 0; j-- {
					if fuzzy.Ratio(x.ID, before[j].ID) >= 80 && fuzzy.Ratio(before[j].Context, x.Context) >= 80 {
						w = j
					}
				}
				if g := es.FuzzyFind(x.ID, x.Context); g != w {
					return fmt.Errorf("FuzzyFind gives %d, expected %d", g, w)
				}
				for _, part := range []po.Entry{{ID: x.ID}, {Flags: x.Flags}, {Comments: x.Comments}, {ExtractedComments: x.ExtractedComments}, {Previous: x.Previous}, {Locations: x.Locations}, x} {
					if part.HasComments() != (len(part.Flags)+len(part.Comments)+len(part.ExtractedComments)+len(part.Previous)+len(part.Locations) > 0) {
						return fmt.Errorf("HasComments says %v of %v", part.HasComments(), show(part))
					}
				}
				f := po.NewFile("name", es...)
				if f.Name != "name" {
					return fmt.Errorf("NewFile is called %q", f.Name)
				}
				if err := eqEntries(f.Entries, before); err != nil {
					return fmt.Errorf("NewFile: %v", err)
				}
				return unchanged(es, before)
			})
		})
	})
	register("C15", "plural text", "entries with plural forms in any order", func(c *C) {
		c.Iter(2500, func(i, size int) {
			e := c.entry()
			e.Plurals = c.plurals()
			b := cpEntry(e)
			c.Try(e, func() error {
				ps := append(po.PluralEntries{}, b.Plurals...)
				sort.SliceStable(ps, func(x, y int) bool {
					return ps[x].ID < ps[y].ID || ps[x].ID == ps[y].ID && ps[x].Str < ps[y].Str
				})
				w := b.Str
				for j, p := range ps {
					if j > 0 {
						w += "\x00"
					}
					w += p.Str
				}
				if g := e.UnifiedStr(); g != w {
					return fmt.Errorf("UnifiedStr is %q, expected %q", g, w)
				}
				if !eqEntry(e, b) {
					return errors.New("the entry was modified")
				}
				var uniq po.PluralEntries
				for _, p := range b.Plurals {
					dup := false
					for _, q := range uniq {
						dup = dup || p == q
					}
					if !dup {
						uniq = append(uniq, p)
					}
				}
				if g := e.Plurals.Solve(); !eqPlurals(g, uniq) {
					return fmt.Errorf("plural Solve gives %v, expected %v", g, uniq)
				}
				return nil
			})
		})
	})
	register("C15", "slices", "integer slices up to length 10 over 4 values", func(c *C) {
		c.Iter(4000, func(i, size int) {
			mk := func() []int {
				s := make([]int, 0, 12)
				for n := c.Intn(size + 1); n > 0; n-- {
					s = append(s, c.Intn(4))
				}
				return s
			}
			a, b := mk(), mk()
			v, k := c.Intn(4), 0
			lo, hi := 0, 0
			if len(a) > 0 {
				lo = c.Intn(len(a) + 1)
				hi = lo + c.Intn(len(a)-lo+1)
			}
			k = c.Intn(3)
			c.Try(map[string]any{"a": a, "b": b, "v": v, "del": k, "lo": lo, "hi": hi}, func() error {
				cp := func() []int { return append([]int(nil), a...) }
				eq := func(x, y []int) bool {
					if len(x) != len(y) {
						return false
					}
					for j := range x {
						if x[j] != y[j] {
							return false
						}
					}
					return true
				}
				if slices.Equal(a, b) != eq(a, b) || !slices.Equal(a, cp()) {
					return errors.New("Equal")
				}
				w := -1
				for j := len(a) - 1; j >= 0; j-- {
					if a[j] == v {
						w = j
					}
				}
				if slices.Index(a, v) != w || slices.Contains(a, v) != (w >= 0) || slices.IndexFunc(a, func(x int) bool { return x == v }) != w || slices.ContainsFunc(a, func(x int) bool { return x == v }) != (w >= 0) {
					return errors.New("Index, IndexFunc or Contains")
				}
				var keep []int
				for _, x := range a {
					if x > k {
						keep = append(keep, x)
					}
				}
				if g := slices.DeleteFunc(cp(), func(x int) bool { return x <= k }); !eq(g, keep) {
					return fmt.Errorf("DeleteFunc gives %v, expected %v", g, keep)
				}
				if g := slices.Delete(cp(), lo, hi); !eq(g, append(append([]int{}, a[:lo]...), a[hi:]...)) {
					return fmt.Errorf("Delete gives %v", g)
				}
				cl := slices.Clone(a)
				if !eq(cl, a) {
					return errors.New("Clone differs")
				}
				if len(cl) > 0 {
					cl[0]++
					if cl[0] == a[0] {
						return errors.New("Clone shares storage")
					}
				}
				if cl := slices.Clip(a); !eq(cl, a) || cap(cl) != len(a) {
					return errors.New("Clip")
				}
				lex := 0
				for j := 0; lex == 0; j++ {
					if j >= len(a) || j >= len(b) {
						lex = cmpInt(len(a), len(b))
						break
					}
					lex = cmpInt(a[j], b[j])
				}
				if g := slices.CompareFunc(a, b, cmpInt); sgn(g) != lex {
					return fmt.Errorf("CompareFunc gives %d, expected %d", g, lex)
				}
				s := cp()
				slices.SortFunc(s, cmpInt)
				if !slices.IsSortedFunc(s, cmpInt) || !sort.IntsAreSorted(s) || slices.IsSortedFunc(a, cmpInt) != sort.IntsAreSorted(a) {
					return errors.New("SortFunc or IsSortedFunc")
				}
				if len(a) > 0 {
					m := a[0]
					for _, x := range a {
						if x > m {
							m = x
						}
					}
					if slices.Max(a) != m {
						return errors.New("Max")
					}
				}
				return nil
			})
		})
	})
}
