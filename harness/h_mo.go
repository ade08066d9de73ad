package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// --- an independent reader of binary catalogues, after the format's
// description in the gettext manual ---

type moImage struct {
	order        binary.ByteOrder
	orig, trans  []string
	offs         [][2]uint32 // of each original string
	toffs        [][2]uint32
	hashSize     uint32
	hashOff      uint32
	tables       [][2]uint64 // byte ranges of header and tables
	major, minor uint16
}

func moOrder(b []byte) binary.ByteOrder {
	if len(b) < 4 {
		return nil
	}
	switch binary.LittleEndian.Uint32(b) {
	case 0x950412de:
		return binary.LittleEndian
	case 0xde120495:
		return binary.BigEndian
	}
	return nil
}

// readMo reads an image; strict asks for NUL-terminated strings.
func readMo(b []byte, order binary.ByteOrder, strict bool) (*moImage, error) {
	if order == nil {
		return nil, errors.New("no magic number")
	}
	if len(b) < 28 {
		return nil, errors.New("short header")
	}
	w := func(at uint64) uint32 { return order.Uint32(b[at:]) }
	if w(0) != 0x950412de {
		return nil, errors.New("bad magic number")
	}
	m := &moImage{order: order, hashSize: w(20), hashOff: w(24), major: order.Uint16(b[4:]), minor: order.Uint16(b[6:])}
	n, o, t := uint64(w(8)), uint64(w(12)), uint64(w(16))
	size := uint64(len(b))
	if o+8*n > size || t+8*n > size {
		return nil, errors.New("table out of range")
	}
	m.tables = [][2]uint64{{0, 28}, {o, o + 8*n}, {t, t + 8*n}}
	get := func(at uint64) (string, [2]uint32, error) {
		l, off := uint64(w(at)), uint64(w(at+4))
		if off+l > size {
			return "", [2]uint32{}, errors.New("string out of range")
		}
		if strict && (off+l >= size || b[off+l] != 0) {
			return "", [2]uint32{}, errors.New("string is not followed by a NUL byte")
		}
		return string(b[off : off+l]), [2]uint32{uint32(off), uint32(l)}, nil
	}
	for i := uint64(0); i < n; i++ {
		s, at, err := get(o + 8*i)
		if err != nil {
			return nil, fmt.Errorf("original %d: %w", i, err)
		}
		u, uat, err := get(t + 8*i)
		if err != nil {
			return nil, fmt.Errorf("translation %d: %w", i, err)
		}
		m.orig, m.trans, m.offs, m.toffs = append(m.orig, s), append(m.trans, u), append(m.offs, at), append(m.toffs, uat)
	}
	return m, nil
}

// gettext's hash function on bytes
func pjw(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		h = h<<4 + uint32(s[i])
		if g := h & 0xf0000000; g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

func primeSpec(n uint32) bool {
	if n < 2 {
		return false
	}
	for d := uint64(2); d*d <= uint64(n); d++ {
		if uint64(n)%d == 0 {
			return false
		}
	}
	return true
}

func cString(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	return s
}

// lookup is gettext's search through the hash table.
func (m *moImage) lookup(b []byte, k string) (int, error) {
	h := pjw(k)
	idx := h % m.hashSize
	incr := 1 + h%(m.hashSize-2)
	for probes := uint32(0); ; probes++ {
		if probes > m.hashSize {
			return -1, errors.New("probing does not end")
		}
		v := m.order.Uint32(b[uint64(m.hashOff)+4*uint64(idx):])
		if v == 0 {
			return -1, nil
		}
		if int(v) > len(m.orig) {
			return -1, fmt.Errorf("hash slot %d holds %d of %d messages", idx, v, len(m.orig))
		}
		if cString(m.orig[v-1]) == k {
			return int(v - 1), nil
		}
		if idx >= m.hashSize-incr {
			idx -= m.hashSize - incr
		} else {
			idx += incr
		}
	}
}

func checkImage(b []byte, order binary.ByteOrder, hash, strictOrder bool) (*moImage, error) {
	if len(b) < 4 || order.Uint32(b) != 0x950412de {
		return nil, fmt.Errorf("the file starts with %x, not with the magic number in %v", b[:min(4, len(b))], order)
	}
	m, err := readMo(b, order, true)
	if err != nil {
		return nil, err
	}
	if m.major > 1 || m.minor > 1 {
		return nil, fmt.Errorf("revision %d.%d", m.major, m.minor)
	}
	n := len(m.orig)
	ranges := append([][2]uint64{}, m.tables...)
	if hash {
		if uint64(m.hashOff)+4*uint64(m.hashSize) > uint64(len(b)) {
			return nil, errors.New("hash table out of range")
		}
		if !primeSpec(m.hashSize) || int(m.hashSize) <= n || m.hashSize < 3 {
			return nil, fmt.Errorf("hash table size %d for %d messages", m.hashSize, n)
		}
		ranges = append(ranges, [2]uint64{uint64(m.hashOff), uint64(m.hashOff) + 4*uint64(m.hashSize)})
	} else if m.hashSize != 0 {
		return nil, fmt.Errorf("hash table size %d without a hash table", m.hashSize)
	}
	// nothing overlaps a table
	for i := 0; i < n; i++ {
		ranges = append(ranges, [2]uint64{uint64(m.offs[i][0]), uint64(m.offs[i][0]) + uint64(m.offs[i][1]) + 1}, [2]uint64{uint64(m.toffs[i][0]), uint64(m.toffs[i][0]) + uint64(m.toffs[i][1]) + 1})
	}
	nt := len(ranges) - 2*n
	for i := 0; i < nt; i++ {
		for j := i + 1; j < len(ranges); j++ {
			if a, c := ranges[i], ranges[j]; a[0] < c[1] && c[0] < a[1] {
				return nil, fmt.Errorf("bytes %v and %v overlap", a, c)
			}
		}
	}
	for i := 1; i < n; i++ {
		c := strings.Compare(cString(m.orig[i-1]), cString(m.orig[i]))
		if strictOrder && (c >= 0 || m.orig[i-1] >= m.orig[i]) {
			return nil, fmt.Errorf("original strings %q and %q are not in strictly ascending order", m.orig[i-1], m.orig[i])
		}
	}
	if hash && strictOrder {
		for i := 0; i < n; i++ {
			got, err := m.lookup(b, cString(m.orig[i]))
			if err != nil {
				return nil, err
			}
			if got != i {
				return nil, fmt.Errorf("looking up %q in the hash table gives message %d, expected %d", m.orig[i], got, i)
			}
		}
		for _, k := range []string{"missing", "\x04", "a\x04missing", strings.Repeat("z", 70)} {
			want := -1
			for i := range m.orig {
				if cString(m.orig[i]) == k {
					want = i
				}
			}
			if got, err := m.lookup(b, k); err != nil || got != want {
				return nil, fmt.Errorf("looking up %q in the hash table gives %d, %v, expected %d", k, got, err, want)
			}
		}
	}
	return m, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// --- generators ---

func noNul(s string) string { return strings.ReplaceAll(s, "\x00", "") }

// moEntry makes an entry whose texts have no NUL byte.
func (c *C) moEntry(keys int) po.Entry {
	var e po.Entry
	switch c.Intn(6) {
	case 0:
		e = c.entry()
	case 1:
		e.ID = c.text(4) + fmt.Sprint(c.Intn(keys))
		e.Str = c.text(3)
	case 2:
		e.Context, e.ID, e.Str = c.word(), c.word(), c.word()
	case 3:
		b := make([]byte, 1+c.Intn(12))
		for i := range b {
			b[i] = byte(1 + c.Intn(255))
		}
		e.ID, e.Str = string(b), c.word()
	case 4:
		e.ID, e.Plural = c.word()+fmt.Sprint(c.Intn(keys)), c.word()
		for i := c.Intn(4); i >= 0; i-- {
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: i, Str: c.word()})
		}
		if c.Intn(2) == 0 {
			c.Shuffle(len(e.Plurals), func(i, j int) { e.Plurals[i], e.Plurals[j] = e.Plurals[j], e.Plurals[i] })
		}
	default:
		e.ID, e.Str = fmt.Sprint("msg", c.Intn(keys)), fmt.Sprint("tr", c.Intn(9))
	}
	if c.Intn(8) == 0 {
		e.Flags = []string{"fuzzy"}
	}
	if c.Intn(8) == 0 {
		e.Obsolete = true
	}
	e.ID, e.Context, e.Plural, e.Str = noNul(e.ID), noNul(e.Context), noNul(e.Plural), noNul(e.Str)
	for i := range e.Plurals {
		e.Plurals[i].Str = noNul(e.Plurals[i].Str)
	}
	return e
}

func (c *C) moCatalogue(i, size int) po.Entries {
	n := c.Intn(size + 1)
	switch i % 10 {
	case 3:
		n = c.Intn(40)
	case 7:
		n = i % 230 // every table size
	}
	var es po.Entries
	for k := 0; k < n; k++ {
		es = append(es, c.moEntry(1+n*2))
	}
	return es
}

func specUnified(e po.Entry) string {
	ps := append(po.PluralEntries{}, e.Plurals...)
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].ID != ps[j].ID {
			return ps[i].ID < ps[j].ID
		}
		return ps[i].Str < ps[j].Str
	})
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.Str)
	}
	return e.Str + strings.Join(ss, "\x00")
}

func specFull(e po.Entry) string {
	if e.Plural != "" {
		return key(e) + "\x00" + e.Plural
	}
	return key(e)
}

type moOpt struct {
	Endian compile.Endianness
	Hash   bool
}

func (o moOpt) order() binary.ByteOrder {
	if o.Endian == compile.BigEndian {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

func (o moOpt) opts() []compile.MoOption {
	return []compile.MoOption{compile.MoWithEndianness(o.Endian), compile.MoWithHashTable(o.Hash)}
}

func (c *C) moOpt() moOpt {
	return moOpt{[]compile.Endianness{compile.LittleEndian, compile.BigEndian, compile.NativeEndian}[c.Intn(3)], c.Intn(4) != 0}
}

type moCase struct {
	Entries po.Entries
	Opt     moOpt
	Extra   string
}

// expected messages in key order
func moExpected(es po.Entries) (keys []string, first map[string]po.Entry) {
	first = map[string]po.Entry{}
	for _, e := range es {
		if e.Obsolete || isFuzzy(e) {
			continue
		}
		if _, ok := first[key(e)]; !ok {
			first[key(e)] = e
			keys = append(keys, key(e))
		}
	}
	sort.Strings(keys)
	return
}

type failWriter struct {
	b     bytes.Buffer
	after int
	short bool
}

var errFail = errors.New("disk full")

func (w *failWriter) Write(p []byte) (int, error) {
	if w.b.Len()+len(p) > w.after {
		k := w.after - w.b.Len()
		if k < 0 {
			k = 0
		}
		w.b.Write(p[:k])
		return k, errFail
	}
	return w.b.Write(p)
}

func init() {
	register("C01", "image", "random catalogues of up to 229 messages, both byte orders, with and without hash table: an independent reader accepts the image and gettext's probing finds every message", func(c *C) {
		c.Iter(5000, func(i, size int) {
			es := c.moCatalogue(i, size)
			o := c.moOpt()
			c.Try(moCase{es, o, ""}, func() error {
				mc := compile.NewMo(&po.File{Entries: cpEntries(es)}, o.opts()...)
				m, err := checkImage(mc.ToBytes(), o.order(), o.Hash, true)
				if err != nil {
					return err
				}
				if keys, _ := moExpected(es); len(keys) != len(m.orig) {
					return fmt.Errorf("%d messages, expected %d", len(m.orig), len(keys))
				}
				return nil
			})
		})
	})
	register("C01", "raw", "the same without cleaning or without sorting: every table and string is in its place", func(c *C) {
		c.Iter(2000, func(i, size int) {
			es := c.moCatalogue(i, size)
			o := c.moOpt()
			dep, srt := c.Intn(2) == 0, c.Intn(2) == 0
			c.Try(moCase{es, o, fmt.Sprint("depure ", dep, " sort ", srt)}, func() error {
				mc := compile.NewMo(&po.File{Entries: cpEntries(es)}, append(o.opts(), compile.MoWithDepureEntries(dep), compile.MoWithSortEntries(srt))...)
				m, err := checkImage(mc.ToBytes(), o.order(), o.Hash, false)
				if err != nil {
					return err
				}
				if !dep {
					var want, got []string
					for _, e := range es {
						want = append(want, specFull(e)+"\x01"+specUnified(e))
					}
					for i := range m.orig {
						got = append(got, m.orig[i]+"\x01"+m.trans[i])
					}
					if srt {
						sort.Strings(want)
						sort.Strings(got)
					}
					if !eqStrs(want, got) {
						return fmt.Errorf("messages %q, expected %q", got, want)
					}
				}
				if srt {
					for i := 1; i < len(m.orig); i++ {
						if cString(m.orig[i-1]) > cString(m.orig[i]) {
							return fmt.Errorf("original strings %q and %q are not in order", m.orig[i-1], m.orig[i])
						}
					}
				}
				return nil
			})
		})
	})
	register("C01", "count", "catalogues of every number of messages 0..400 and some of several thousand", func(c *C) {
		ns := []int{}
		for n := 0; n <= 400; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 1500, 4096, 8191, 8192, 20000)
		for _, n := range ns {
			n := n
			o := c.moOpt()
			o.Hash = true
			pre := c.word()
			c.Try(fmt.Sprintf("messages %q0..%q%d, %+v", noNul(pre), noNul(pre), n-1, o), func() error {
				es := make(po.Entries, n)
				for i := range es {
					es[i] = po.Entry{ID: noNul(pre) + fmt.Sprint(i), Str: fmt.Sprint("t", i)}
				}
				mc := compile.NewMo(&po.File{Entries: es}, o.opts()...)
				m, err := checkImage(mc.ToBytes(), o.order(), true, true)
				if err == nil && len(m.orig) != n {
					err = fmt.Errorf("%d messages, expected %d", len(m.orig), n)
				}
				return err
			})
		}
	})

	register("C02", "messages", "the messages of the image are those of the first active entries of each key, with their translations", func(c *C) {
		c.Iter(6000, func(i, size int) {
			es := c.moCatalogue(i, size)
			o := c.moOpt()
			c.Try(moCase{es, o, ""}, func() error {
				mc := compile.NewMo(&po.File{Entries: cpEntries(es)}, o.opts()...)
				m, err := readMo(mc.ToBytes(), o.order(), true)
				if err != nil {
					return err
				}
				keys, first := moExpected(es)
				if len(keys) != len(m.orig) {
					return fmt.Errorf("messages %q, expected the keys %q", m.orig, keys)
				}
				for i, k := range keys {
					e := first[k]
					if m.orig[i] != specFull(e) || m.trans[i] != specUnified(e) {
						return fmt.Errorf("message %q = %q, expected %q = %q", m.orig[i], m.trans[i], specFull(e), specUnified(e))
					}
				}
				return nil
			})
		})
	})
	register("C02", "outputs", "bytes, writer and file hold the same; a failing writer and an existing file are reported", func(c *C) {
		c.Iter(1000, func(i, size int) {
			es := c.moCatalogue(i, size)
			o := c.moOpt()
			cut := c.Intn(6000)
			c.Try(moCase{es, o, fmt.Sprint("writer fails after ", cut)}, func() error {
				file := &po.File{Entries: cpEntries(es)}
				mc := compile.NewMo(file, o.opts()...)
				want := mc.ToBytes()
				var b bytes.Buffer
				if err := mc.ToWriter(&b); err != nil || !bytes.Equal(b.Bytes(), want) {
					return fmt.Errorf("ToWriter: %v, %d bytes, expected %d", err, b.Len(), len(want))
				}
				plain := compile.NewMo(file)
				b.Reset()
				if err := plain.ToWriterWithOptions(&b, o.opts()...); err != nil || !bytes.Equal(b.Bytes(), want) {
					return fmt.Errorf("ToWriterWithOptions: %v, %d bytes, expected %d", err, b.Len(), len(want))
				}
				if got := plain.ToBytesWithOptions(o.opts()...); !bytes.Equal(got, want) {
					return fmt.Errorf("ToBytesWithOptions: %d bytes, expected %d", len(got), len(want))
				}
				dir, err := os.MkdirTemp(scratch, "mo")
				if err != nil {
					return nil
				}
				defer os.RemoveAll(dir)
				p := filepath.Join(dir, "x.mo")
				if err := mc.ToFile(p); err != nil {
					return fmt.Errorf("ToFile: %v", err)
				}
				if got, _ := os.ReadFile(p); !bytes.Equal(got, want) {
					return fmt.Errorf("ToFile wrote %d bytes, expected %d", len(got), len(want))
				}
				os.WriteFile(p, append(append([]byte{}, want...), "tail"...), 0o600)
				if err := mc.ToFile(p); err == nil {
					return errors.New("ToFile onto an existing file without force reports no error")
				}
				if got, _ := os.ReadFile(p); len(got) != len(want)+4 {
					return errors.New("ToFile onto an existing file without force changed it")
				}
				if err := plain.ToFileWithOptions(p, append(o.opts(), compile.MoWithForce(true))...); err != nil {
					return fmt.Errorf("ToFileWithOptions with force: %v", err)
				}
				if got, _ := os.ReadFile(p); !bytes.Equal(got, want) {
					return fmt.Errorf("ToFileWithOptions wrote %d bytes, expected %d", len(got), len(want))
				}
				if err := mc.ToFile(filepath.Join(dir, "none", "x.mo")); err == nil {
					return errors.New("ToFile in a missing directory reports no error")
				}
				k := cut % (len(want) + 1)
				fw := &failWriter{after: k}
				err = mc.ToWriter(fw)
				if k < len(want) && !errors.Is(err, errFail) {
					return fmt.Errorf("a writer failing after %d of %d bytes: ToWriter returns %v", k, len(want), err)
				}
				if k == len(want) && (err != nil || !bytes.Equal(fw.b.Bytes(), want)) {
					return fmt.Errorf("a writer with room for all %d bytes: ToWriter returns %v", k, err)
				}
				return nil
			})
		})
	})

	register("C03", "roundtrip", "well-formed catalogues, both byte orders, read back without naming the byte order", func(c *C) {
		c.Iter(6000, func(i, size int) {
			es := c.wellFormed(i, size)
			o := c.moOpt()
			name := c.Intn(3) == 0
			c.Try(moCase{es, o, fmt.Sprint("byte order named: ", name)}, func() error {
				mc := compile.NewMo(&po.File{Entries: cpEntries(es)}, o.opts()...)
				b := mc.ToBytes()
				var opts []parse.MoOption
				if name {
					opts = append(opts, parse.MoWithEndianness(o.Endian))
				}
				p := parse.NewMoFromBytes(b, "x.mo", opts...)
				f := p.Parse()
				if err := p.Error(); err != nil || f == nil {
					return fmt.Errorf("parsing reports %v", err)
				}
				want := cpEntries(es)
				sort.SliceStable(want, func(i, j int) bool { return key(want[i]) < key(want[j]) })
				if err := eqEntries(f.Entries, want); err != nil {
					return err
				}
				p2, err := parse.NewMoFromReader(bytes.NewReader(b), "x.mo", opts...)
				if err != nil {
					return err
				}
				f2 := p2.ParseWithOptions(parse.MoWithMustBeSorted(true))
				if err := p2.Error(); err != nil || f2 == nil {
					return fmt.Errorf("parsing with MustBeSorted reports %v", err)
				}
				return eqEntries(f2.Entries, want)
			})
		})
	})

	register("C04", "bytes", "damaged images and random bytes: no panic, no disproportionate allocation, exact strings or an error; repeatable; input untouched", func(c *C) {
		c.Iter(30000, func(i, size int) {
			b := c.damaged(i, size)
			cfg := []parse.Endianness{parse.NativeEndian, parse.NativeEndian, parse.LittleEndian, parse.BigEndian}[c.Intn(4)]
			c.Try(fmt.Sprintf("endianness %v\n%q", cfg, b), func() error { return checkReader(b, cfg) })
		})
	})
	register("C04", "truncated", "every prefix of some images, and every header word replaced by extreme values", func(c *C) {
		vals := []uint32{0, 1, 2, 27, 28, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x20000000, 0x1fffffff, 0xffffffe4}
		for k := 0; k < 3; k++ {
			o := moOpt{[]compile.Endianness{compile.LittleEndian, compile.BigEndian}[k%2], k != 1}
			mc := compile.NewMo(&po.File{Entries: c.wellFormed(0, 3)}, o.opts()...)
			b := mc.ToBytes()
			for n := 0; n <= len(b); n++ {
				n := n
				c.Try(fmt.Sprintf("%q", b[:n]), func() error { return checkReader(b[:n:n], parse.NativeEndian) })
			}
			words := len(b) / 4
			for w := 0; w < words; w++ {
				for _, v := range append(vals, uint32(len(b)), uint32(len(b))-8) {
					d := append([]byte{}, b...)
					o.order().PutUint32(d[4*w:], v)
					c.Try(fmt.Sprintf("%q", d), func() error { return checkReader(d, parse.NativeEndian) })
				}
			}
		}
	})
}

// wellFormed makes distinct well-formed messages.
func (c *C) wellFormed(i, size int) po.Entries {
	var es po.Entries
	seen := map[string]bool{}
	for n := 1 + c.Intn(size+1); n > 0; n-- {
		src := c.moEntry(20)
		e := po.Entry{Context: strings.ReplaceAll(src.Context, "\x04", ""), ID: src.ID}
		if e.Context == "" {
			e.ID = strings.ReplaceAll(e.ID, "\x04", "")
		}
		if src.Plural != "" && c.Intn(8) != 0 {
			e.Plural = src.Plural
			some := false
			for k := 0; k <= c.Intn(4); k++ {
				s := c.word()
				some = some || s != ""
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: k, Str: s})
			}
			if !some {
				e.Plurals[0].Str = "x"
			}
		} else {
			e.Str = src.Str
		}
		if seen[key(e)] {
			continue
		}
		seen[key(e)] = true
		es = append(es, e)
	}
	return es
}

func (c *C) damaged(i, size int) []byte {
	if c.Intn(12) == 0 {
		b := make([]byte, c.Intn(80))
		c.Read(b)
		if len(b) >= 4 && c.Intn(2) == 0 {
			binary.LittleEndian.PutUint32(b, 0x950412de)
		}
		return b
	}
	o := c.moOpt()
	es := c.wellFormed(i, size)
	mc := compile.NewMo(&po.File{Entries: es}, append(o.opts(), compile.MoWithSortEntries(c.Intn(4) != 0))...)
	b := append([]byte{}, mc.ToBytes()...)
	order := o.order()
	for n := c.Intn(4); n > 0; n-- {
		switch c.Intn(7) {
		case 0:
			if len(b) > 0 {
				b[c.Intn(len(b))] = byte(c.Intn(256))
			}
		case 1:
			b = b[:c.Intn(len(b)+1)]
		case 2, 3:
			if len(b) >= 28 {
				order.PutUint32(b[4*c.Intn(7):], []uint32{0, 1, 28, uint32(len(b)), uint32(len(b)) - 4, 0xffffffff, 0x20000000, uint32(c.Intn(200))}[c.Intn(8)])
			}
		case 4:
			if w := len(b)/4 - 7; w > 0 {
				order.PutUint32(b[28+4*c.Intn(w):], []uint32{0, 1, uint32(len(b)), uint32(len(b)) - 1, 0xffffffff, 0xfffffff0, uint32(c.Intn(len(b)))}[c.Intn(7)])
			}
		case 5:
			b = append(b, make([]byte, c.Intn(9))...)
		case 6:
			if len(b) > 0 {
				b[c.Intn(len(b))] = []byte{0, 4, 0, 4, 1, 255}[c.Intn(6)]
			}
		}
	}
	return b
}

// specEntry splits an original string and a translation as the format says.
func specEntry(orig, trans string) po.Entry {
	var e po.Entry
	if i := strings.IndexByte(orig, 4); i >= 0 {
		e.Context, orig = orig[:i], orig[i+1:]
	}
	if i := strings.IndexByte(orig, 0); i >= 0 {
		e.ID = orig[:i]
		e.Plural = cString(orig[i+1:])
	} else {
		e.ID = orig
	}
	parts := strings.Split(trans, "\x00")
	if len(parts) == 1 && (e.Plural == "" || trans == "") {
		e.Str = trans
	} else {
		for i, s := range parts {
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: i, Str: s})
		}
	}
	return e
}

func checkReader(b []byte, cfg parse.Endianness) error {
	in := append(make([]byte, 0, len(b)+16), b...)
	tail := in[len(b):cap(in)]
	for i := range tail {
		tail[i] = 0xa5
	}
	order := moOrder(b)
	if cfg == parse.LittleEndian {
		order = binary.LittleEndian
	} else if cfg == parse.BigEndian {
		order = binary.BigEndian
	}
	m, specErr := readMo(b, order, false)
	var strsLen uint64
	if m != nil {
		for i := range m.orig {
			strsLen += uint64(len(m.orig[i]) + len(m.trans[i]))
		}
	}
	p := parse.NewMoFromBytes(in, "x.mo", parse.MoWithEndianness(cfg))
	var before, after runtime.MemStats
	big := len(b) >= 20 && specErr != nil
	if big {
		runtime.ReadMemStats(&before)
	}
	f := p.Parse()
	if big {
		runtime.ReadMemStats(&after)
		if d, lim := after.TotalAlloc-before.TotalAlloc, uint64(1<<20)+uint64(len(b))*uint64(len(b)+200); d > lim {
			return fmt.Errorf("parsing %d bytes allocates %d bytes", len(b), d)
		}
	}
	err := p.Error()
	if specErr != nil && err == nil {
		return fmt.Errorf("no error reported, expected: %v", specErr)
	}
	if specErr == nil && m.major <= 1 && m.minor <= 1 {
		// an empty string at the very end of the file may be refused
		for i := range m.orig {
			if int(m.offs[i][0]) >= len(b) || int(m.toffs[i][0]) >= len(b) {
				return nil
			}
		}
		if err != nil {
			return fmt.Errorf("error %v for a readable file", err)
		}
		if f == nil {
			return errors.New("neither a file nor an error")
		}
		var want po.Entries
		for i := range m.orig {
			want = append(want, specEntry(m.orig[i], m.trans[i]))
		}
		if e := eqEntries(f.Entries, want); e != nil {
			return e
		}
	}
	n := len(p.Errors())
	g := p.Parse()
	if len(p.Errors()) != n {
		return fmt.Errorf("%d errors at the first parse, %d at the second", n, len(p.Errors()))
	}
	if (f == nil) != (g == nil) {
		return errors.New("the second parse gives a different result")
	}
	if f != nil {
		if e := eqEntries(g.Entries, f.Entries); e != nil {
			return fmt.Errorf("second parse: %w", e)
		}
	}
	if !bytes.Equal(in, b) {
		return errors.New("the caller's bytes changed")
	}
	for _, x := range tail {
		if x != 0xa5 {
			return errors.New("the bytes behind the caller's slice changed")
		}
	}
	q, e := parse.NewMoFromReader(io.MultiReader(bytes.NewReader(b)), "x.mo", parse.MoWithEndianness(cfg))
	if e != nil {
		return e
	}
	h := q.Parse()
	if (q.Error() == nil) != (err == nil) || (h == nil) != (f == nil) {
		return errors.New("reading from a reader gives a different result")
	}
	if h != nil {
		return eqEntries(h.Entries, f.Entries)
	}
	return nil
}
