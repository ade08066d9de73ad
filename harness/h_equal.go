package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// --- C17: equality ---

// another is a copy of e, or e with something changed.
func (c *C) another(e po.Entry) po.Entry {
	e = cpEntry(e)
	for n := c.Intn(3); n > 0; n-- {
		switch c.Intn(14) {
		case 0:
			e.Obsolete = !e.Obsolete
		case 1:
			e.Str = c.near(e.Str)
		case 2:
			e.ID = c.near(e.ID)
		case 3:
			e.Context = c.near(e.Context)
		case 4:
			// a text ends elsewhere
			e.Str, e.Plurals = "", append(po.PluralEntries{{Str: e.Str}}, e.Plurals...)
		case 5:
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: []int{c.Intn(3), 1 << c.Intn(62), math.MaxInt}[c.Intn(3)], Str: c.word()})
		case 6:
			if len(e.Plurals) > 0 {
				e.Plurals[c.Intn(len(e.Plurals))].Str = c.word()
			}
		case 7:
			if len(e.Plurals) > 0 {
				f := &e.Plurals[c.Intn(len(e.Plurals))]
				f.ID = []int{c.Intn(5), f.ID + 1, f.ID ^ 1<<c.Intn(62)}[c.Intn(3)]
			}
		case 8:
			if len(e.Plurals) > 0 {
				e.Plurals = e.Plurals[:len(e.Plurals)-1]
			}
		case 9:
			if len(e.Plurals) > 1 {
				// the same texts, divided differently
				e.Plurals[0].Str += "\x00" + e.Plurals[1].Str
				e.Plurals = append(e.Plurals[:1], e.Plurals[2:]...)
			}
		case 10:
			e.Flags = c.flags()
		case 11:
			e.ID, e.Context = key(e), ""
		case 12:
			if e.Plural != "" {
				e.ID, e.Plural = e.ID+"\x00"+e.Plural, ""
			}
		case 13:
			if len(e.Plurals) > 1 {
				k := c.Intn(len(e.Plurals) - 1)
				e.Plurals[k], e.Plurals[k+1] = e.Plurals[k+1], e.Plurals[k]
			}
		}
	}
	return e
}

// alike reports whether two messages agree in what equality must tell apart.
func alike(a, b po.Entry) bool {
	p, q := fmt.Sprintf("%q", sortedForms(a.Plurals)), fmt.Sprintf("%q", sortedForms(b.Plurals))
	return key(a) == key(b) && a.Str == b.Str && a.Obsolete == b.Obsolete && p == q
}

func sortedForms(p po.PluralEntries) (l []string) {
	for _, f := range p {
		l = append(l, fmt.Sprint(f.ID, "=", f.Str))
	}
	sort.Strings(l)
	return
}

func alikes(a, b po.Entries) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !alike(a[i], b[i]) {
			return false
		}
	}
	return true
}

// equivalence checks one triple of values.
func equivalence[T any](what string, x [3]T, eq func(a, b T) bool, cp func(T) T, same func(a, b T) bool) error {
	var r [3][3]bool
	for i := range x {
		if k := cp(x[i]); !eq(x[i], k) || !eq(k, x[i]) {
			return fmt.Errorf("%s %d is not equal to its copy", what, i)
		}
		for j := range x {
			r[i][j] = eq(x[i], x[j])
			if r[i][j] && !same(x[i], x[j]) {
				return fmt.Errorf("%s %d and %d differ but are equal", what, i, j)
			}
		}
	}
	for i := range x {
		if !r[i][i] {
			return fmt.Errorf("%s %d is not equal to itself", what, i)
		}
		for j := range x {
			if r[i][j] != r[j][i] {
				return fmt.Errorf("%s %d equals %d: %v, the other way round: %v", what, i, j, r[i][j], r[j][i])
			}
			for k := range x {
				if r[i][j] && r[j][k] && !r[i][k] {
					return fmt.Errorf("%s %d equals %d, that equals %d, but the first does not equal the last", what, i, j, k)
				}
			}
		}
	}
	return nil
}

func init() {
	register("C17", "equality", "triples of nearly equal messages, lists, plural forms and files, also overlapping parts of one list", func(c *C) {
		c.Iter(8000, func(i, size int) {
			var ls [3]po.Entries
			ls[0] = c.entries(size)
			for k := 1; k < 3; k++ {
				switch c.Intn(5) {
				case 0:
					ls[k] = cpEntries(ls[k-1])
				case 1:
					// another part of the same storage
					n := len(ls[0])
					lo := c.Intn(n + 1)
					ls[k] = ls[0][lo : lo+c.Intn(n-lo+1)]
				case 2:
					ls[k] = ls[k-1]
				default:
					ls[k] = cpEntries(ls[k-1])
					if n := len(ls[k]); n > 0 {
						at := c.Intn(n)
						ls[k][at] = c.another(ls[k][at])
						if c.Intn(6) == 0 {
							ls[k] = append(ls[k][:at:at], ls[k][at+1:]...)
						}
					} else if c.bit() {
						ls[k] = nil
					}
				}
			}
			e := c.entry()
			es := [3]po.Entry{e, c.another(e), c.another(e)}
			if c.bit() {
				es[2] = c.another(es[1])
			}
			if c.Intn(4) == 0 {
				// one list shared as far as it goes
				es[1].Plurals, es[2].Plurals = es[0].Plurals, es[0].Plurals[:c.Intn(len(es[0].Plurals)+1)]
			}
			if c.Intn(4) == 0 {
				// indices that differ in one bit
				n := []int{c.Intn(4), 1 << c.Intn(62), math.MaxInt, math.MinInt}[c.Intn(4)]
				for k := range es {
					m := n
					if c.bit() {
						m ^= 1 << c.Intn(62)
					}
					es[k].Plurals = append(po.PluralEntries{{ID: m, Str: "x"}}, es[0].Plurals...)
				}
			}
			c.Try(func() string { return fmt.Sprintf("messages %#v\nlists %#v", es, ls) }, func() error {
				before := cpEntries(es[:])
				if err := equivalence("message", es, po.Entry.Equal, cpEntry, alike); err != nil {
					return err
				}
				if err := equivalence("list", ls, po.Entries.Equal, cpEntries, alikes); err != nil {
					return err
				}
				if err := equivalence("one-message list", [3]po.Entries{{es[0]}, {es[1]}, {es[2]}}, po.Entries.Equal, cpEntries, alikes); err != nil {
					return err
				}
				if err := equivalence("file", [3]po.File{{Name: "a", Entries: ls[0]}, {Name: "a", Entries: ls[1]}, {Name: "a", Entries: ls[2]}}, po.File.Equal, func(f po.File) po.File {
					return po.File{Name: f.Name, Entries: cpEntries(f.Entries)}
				}, func(f, g po.File) bool { return alikes(f.Entries, g.Entries) }); err != nil {
					return err
				}
				cpForms := func(p po.PluralEntries) po.PluralEntries { return append(po.PluralEntries{}, p...) }
				forms := [3]po.PluralEntries{es[0].Plurals, es[1].Plurals, es[2].Plurals}
				if err := equivalence("plural forms", forms, po.PluralEntries.Equal, cpForms, func(p, q po.PluralEntries) bool {
					return fmt.Sprintf("%q", sortedForms(p)) == fmt.Sprintf("%q", sortedForms(q))
				}); err != nil {
					return err
				}
				var one [3]po.PluralEntry
				for k := range one {
					if len(forms[k]) > 0 {
						one[k] = forms[k][0]
					}
				}
				if err := equivalence("plural form", one, po.PluralEntry.Equal, func(p po.PluralEntry) po.PluralEntry { return p }, func(p, q po.PluralEntry) bool { return p == q }); err != nil {
					return err
				}
				return eqEntries(es[:], before)
			})
		})
	})
}
