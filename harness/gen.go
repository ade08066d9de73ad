package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// --- generators ---

var words = []string{"", "a", "b", "c", "ab", "file", "Hello", "héllo", "日本", "x y", "a\nb", "tab\there", "q\"uote", "back\\slash", "%d items", "ÿþ", "end\n", "\x07bell", "zz"}

func (c *C) pick(ss []string) string { return ss[c.Intn(len(ss))] }

func (c *C) word() string { return words[c.Intn(len(words))] }

func (c *C) small(n int) string {
	return string(rune('a' + c.Intn(n)))
}

func (c *C) text(max int) string {
	var b strings.Builder
	for n := c.Intn(max + 1); n > 0; n-- {
		b.WriteString(c.word())
	}
	return b.String()
}

// near is a text slightly different from s, or s.
func (c *C) near(s string) string {
	switch c.Intn(8) {
	case 0:
		return s + "\n"
	case 1:
		return s + " "
	case 2:
		return " " + s
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.TrimSuffix(s, "\n")
	case 5:
		return s + "\x00"
	case 6:
		return ""
	}
	return s
}

func (c *C) line() int {
	switch c.Intn(12) {
	case 0:
		return math.MaxInt
	case 1:
		return math.MinInt
	case 2:
		return -1 - c.Intn(3)
	case 3:
		return 0
	}
	return c.Intn(6)
}

func (c *C) locations(max int) po.Locations {
	var l po.Locations
	for n := c.Intn(max + 1); n > 0; n-- {
		l = append(l, po.Location{Line: c.line(), File: c.pick([]string{"a.go", "b.go", "./a.go", "d/../a.go", "", "ü.go"})})
	}
	return l
}

func (c *C) strs(max int) []string {
	var l []string
	for n := c.Intn(max + 1); n > 0; n-- {
		l = append(l, c.word())
	}
	return l
}

func (c *C) flags() []string {
	var l []string
	for n := c.Intn(3); n > 0; n-- {
		l = append(l, c.pick([]string{"fuzzy", "go-format", "c-format", "Fuzzy", "fuzzy ", ""}))
	}
	return l
}

func (c *C) plurals() po.PluralEntries {
	var l po.PluralEntries
	for n := c.Intn(4); n > 0; n-- {
		id := c.Intn(4)
		if c.Intn(10) == 0 {
			id = c.line()
		}
		str := c.word()
		if c.Intn(3) == 0 {
			// texts that end like an index
			id = []int{0, 1, 11, -1, 10}[c.Intn(5)]
			str = c.pick([]string{"x", "x1", "x11", "x-", "1", "", "x\x00", "x\x001"})
		}
		l = append(l, po.PluralEntry{ID: id, Str: str})
	}
	return l
}

// entry makes an arbitrary entry with few distinct keys.
func (c *C) entry() po.Entry {
	e := po.Entry{ID: c.pick([]string{"", "a", "b", "ab", "c", "é", "b\x04a"}), Context: c.pick([]string{"", "", "a", "b", "ab"})}
	if c.Intn(3) == 0 {
		e.Plural = c.pick([]string{"as", "bs", ""})
		e.Plurals = c.plurals()
	}
	e.Str = c.word()
	e.Obsolete = c.Intn(4) == 0
	e.Flags = c.flags()
	e.Locations = c.locations(3)
	if c.Intn(2) == 0 {
		e.Comments, e.ExtractedComments, e.Previous = c.strs(2), c.strs(2), c.strs(2)
	}
	return e
}

func (c *C) entries(size int) po.Entries {
	n := c.Intn(size + 1)
	es := make(po.Entries, 0, n+c.Intn(3))
	for i := 0; i < n; i++ {
		es = append(es, c.entry())
	}
	return es
}

// --- deep copies and comparisons ---

func cpStrs(s []string) []string {
	if s == nil {
		return nil
	}
	return append(make([]string, 0, len(s)), s...)
}

func cpEntry(e po.Entry) po.Entry {
	e.Flags, e.Comments, e.ExtractedComments, e.Previous = cpStrs(e.Flags), cpStrs(e.Comments), cpStrs(e.ExtractedComments), cpStrs(e.Previous)
	if e.Plurals != nil {
		e.Plurals = append(make(po.PluralEntries, 0, len(e.Plurals)), e.Plurals...)
	}
	if e.Locations != nil {
		e.Locations = append(make(po.Locations, 0, len(e.Locations)), e.Locations...)
	}
	return e
}

func cpEntries(es po.Entries) po.Entries {
	out := make(po.Entries, 0, len(es))
	for _, e := range es {
		out = append(out, cpEntry(e))
	}
	return out
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqPlurals(a, b po.PluralEntries) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqLocs(a, b po.Locations) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqEntry(a, b po.Entry) bool {
	return a.ID == b.ID && a.Context == b.Context && a.Plural == b.Plural && a.Str == b.Str && a.Obsolete == b.Obsolete &&
		eqStrs(a.Flags, b.Flags) && eqStrs(a.Comments, b.Comments) && eqStrs(a.ExtractedComments, b.ExtractedComments) && eqStrs(a.Previous, b.Previous) &&
		eqPlurals(a.Plurals, b.Plurals) && eqLocs(a.Locations, b.Locations)
}

func eqEntries(a, b po.Entries) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d entries, expected %d", len(a), len(b))
	}
	for i := range a {
		if !eqEntry(a[i], b[i]) {
			return fmt.Errorf("entry %d is %s, expected %s", i, show(a[i]), show(b[i]))
		}
	}
	return nil
}

func show(e po.Entry) string { return fmt.Sprintf("%#v", e) }

// key is the specification of an entry's identity.
func key(e po.Entry) string {
	if e.Context != "" {
		return e.Context + "\x04" + e.ID
	}
	return e.ID
}

func isFuzzy(e po.Entry) bool {
	for _, f := range e.Flags {
		if f == "fuzzy" {
			return true
		}
	}
	return false
}

func sgn(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}
