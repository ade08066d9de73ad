package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// --- C18: the command line programs, run as programs ---

// cliWant is what a program has to do: fail and leave everything alone, or
// write these bytes to the output.
type cliWant struct {
	fails  bool
	late   bool // fails while it writes
	result []byte
	also   []string // files that get the result too
}

type cliCase struct {
	c     *C
	files map[string][]byte
	stdin []byte
	args  []string
	out   string
}

var cliTools string

// cliBuild builds the programs from the tree under test, once.
func cliBuild() error {
	if cliTools != "" {
		return nil
	}
	dir := filepath.Join(scratch, "tools")
	os.MkdirAll(dir, 0o755)
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", dir, "./msgofmt", "./msgounfmt", "./msgocat", "./msgomerge", "./xgotext", "./gotext-tools")
	cmd.Dir = filepath.Join(repoDir, "cli")
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("the programs do not build: %v\n%s", err, b)
	}
	cliTools = dir
	return nil
}

func cliRun(tool string, k *cliCase) (stdout []byte, code int, err error) {
	bin, args := filepath.Join(cliTools, tool), k.args
	if k.c.Intn(6) == 0 {
		bin, args = filepath.Join(cliTools, "gotext-tools"), append([]string{tool}, args...)
	}
	cmd := exec.Command(bin, args...)
	cmd.Stdin = bytes.NewReader(k.stdin)
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	cmd.WaitDelay = time.Second
	if err := cmd.Start(); err != nil {
		return nil, 0, nil
	}
	t := time.AfterFunc(15*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	code = cmd.ProcessState.ExitCode()
	if code < 0 || code == 2 || bytes.Contains(serr.Bytes(), []byte("panic:")) {
		return nil, 0, fmt.Errorf("%s %q ended with %v: %.2000s", tool, k.args, err, serr.String())
	}
	return out.Bytes(), code, nil
}

func tree(dir string) map[string][]byte {
	m := map[string][]byte{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = b
		}
		return nil
	})
	return m
}

// a moment is not part of the result
var cliDate = regexp.MustCompile(`\d{4}-\d\d-\d\d \d\d:\d\d[^"\\]*`)

func sameBytes(what string, got, want []byte) error {
	got, want = cliDate.ReplaceAll(got, []byte("DATE")), cliDate.ReplaceAll(want, []byte("DATE"))
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s: %q, expected %q", what, got, want)
	}
	return nil
}

var cliShort = map[string]map[string]string{
	"msgocat":   {"directory": "D", "files-from": "f", "less-than": "<", "more-than": ">", "output-file": "o", "sort-by-file": "F", "sort-output": "s", "unique": "u"},
	"msgofmt":   {"force": "f", "output-file": "o", "verbose": "v"},
	"msgounfmt": {"force-po": "f", "output": "o", "sort-output": "s"},
	"msgomerge": {"add-location": "n", "compendium": "C", "directory": "D", "no-fuzzy-matching": "N", "output-file": "o", "update": "U"},
	"xgotext":   {"default-domain": "d", "directory": "D", "exclude": "X", "exclude-file": "x", "extract-all": "a", "files-from": "f", "join-existing": "j", "lang": "l", "msgstr-prefix": "m", "msgstr-suffix": "M", "no-location": "n", "output": "o", "output-dir": "p"},
}

// shorter writes some of the flags with one letter, or the value apart.
func (k *cliCase) shorter(tool string) {
	var args []string
	for _, a := range k.args {
		name, value, has := strings.Cut(strings.TrimPrefix(a, "--"), "=")
		short, ok := cliShort[tool][name]
		switch {
		case !strings.HasPrefix(a, "--") || k.c.Intn(3) != 0:
			args = append(args, a)
		case ok && !has:
			args = append(args, "-"+short)
		case ok && (value == "" || k.c.bit()):
			args = append(args, "-"+short, value)
		case ok:
			args = append(args, "-"+short+value)
		case has:
			args = append(args, "--"+name, value)
		default:
			args = append(args, a)
		}
	}
	k.args = args
}

// run makes the files, runs the program beside them and compares what there
// is afterwards with what the library makes of the same files.
func (k *cliCase) run(tool string, want func() cliWant) {
	c := k.c
	k.shorter(tool)
	in := map[string]any{"program": tool, "arguments": k.args, "standard input": strconv.Quote(string(k.stdin))}
	fs := map[string]string{}
	for n, b := range k.files {
		fs[n] = strconv.Quote(string(b))
	}
	in["files"] = fs
	c.Try(in, func() error {
		dir, err := os.MkdirTemp(scratch, "cli")
		if err != nil {
			return nil
		}
		defer os.RemoveAll(dir)
		for n, b := range k.files {
			p := filepath.Join(dir, n)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, b, 0o644); err != nil {
				return nil
			}
		}
		if err := os.Chdir(dir); err != nil {
			return nil
		}
		defer os.Chdir(scratch)
		w := want()
		if k.out == "no/such/directory" || k.out == "q/no/such/directory" {
			w.fails = true
		}
		before := tree(dir)
		stdout, code, err := cliRun(tool, k)
		if err != nil {
			return err
		}
		after := tree(dir)
		change := map[string]bool{}
		if w.fails {
			if code == 0 {
				return errors.New("it reports success")
			}
		} else if w.late {
			if code == 0 {
				return errors.New("it reports success")
			}
			change[k.out] = true
			for _, n := range w.also {
				change[n] = true
			}
		} else {
			if code != 0 {
				return fmt.Errorf("it ends with status %d", code)
			}
			if k.out != "-" {
				change[filepath.Clean(k.out)] = true
			}
			for _, n := range w.also {
				change[n] = true
			}
		}
		for n := range after {
			if _, ok := before[n]; !ok && !change[n] {
				return fmt.Errorf("there is a new file %s", n)
			}
		}
		for n, b := range before {
			a, ok := after[n]
			if !ok {
				return fmt.Errorf("the file %s is gone", n)
			}
			if !change[n] && !bytes.Equal(a, b) {
				return fmt.Errorf("the file %s is changed: %q", n, a)
			}
		}
		if w.fails || w.late {
			if w.fails && len(stdout) != 0 {
				return fmt.Errorf("it fails and writes %q to standard output", stdout)
			}
			return nil
		}
		for n := range change {
			b, ok := after[n]
			if !ok {
				return fmt.Errorf("there is no file %s", n)
			}
			if err := sameBytes("the file "+n, b, w.result); err != nil {
				return err
			}
		}
		if k.out == "-" {
			return sameBytes("standard output", stdout, w.result)
		}
		if len(stdout) != 0 {
			return fmt.Errorf("%q on standard output", stdout)
		}
		return nil
	})
}

// catalogue files, some of them not catalogues
func (c *C) cliPo(size int) []byte {
	if c.Intn(25) == 0 {
		return c.poBytes(size)
	}
	es := c.poCatalogue(size)
	if c.bit() {
		h := po.Header{}
		h.Set("Language", c.pick([]string{"es", "de", ""}))
		h.Set("Content-Type", "text/plain; charset=UTF-8")
		e := h.ToEntry()
		e.Comments = c.poLines(1)
		es = append(po.Entries{e}, es.CutHeader()...)
	}
	b := compile.PoToBytes(es)
	if c.Intn(20) == 0 {
		// one message with both kinds of translations
		b = append(b, "msgid \"mixed\"\nmsgstr \"x\"\n\nmsgid \"mixed\"\nmsgid_plural \"ms\"\nmsgstr[0] \"y\"\n"...)
	}
	if len(es) > 0 && c.Intn(15) == 0 {
		b = append(b, compile.PoToBytes(es[c.Intn(len(es)):])...)
	}
	return b
}

func (c *C) cliCase(tools ...string) *cliCase {
	return &cliCase{c: c, files: map[string][]byte{"other.po": []byte("# not an input\n"), "sub/other.txt": []byte("x")}}
}

// inputs makes n input files; the names to give on the command line.
func (k *cliCase) inputs(n int, stdin bool, content func() []byte) (names []string) {
	c := k.c
	for i := 0; i < n; i++ {
		name := c.pick([]string{"p", "q/p"}) + strconv.Itoa(i) + ".po"
		b := content()
		if stdin && c.Intn(5) == 0 {
			stdin = false
			k.stdin = b
			names = append(names, "-")
			continue
		}
		switch c.Intn(40) {
		case 0:
			// there is no such file
		case 1:
			k.files[filepath.Join(name, "in")] = b // a directory
		default:
			k.files[name] = b
		}
		names = append(names, name)
	}
	return
}

// output chooses where the result goes.
func (k *cliCase) output(flag string, names ...string) {
	c := k.c
	k.out = c.pick(append([]string{"-", "-", "out.x", "q/there.x"}, names...))
	if c.Intn(20) == 0 {
		k.out = "no/such/directory"
	}
	if k.out == "q/there.x" {
		k.files[k.out] = []byte("what was there before, and longer than what comes now or not\n")
	}
	if k.out != "-" || c.bit() {
		k.args = append(k.args, flag+k.out)
	}
}

// colour: standard output is no terminal, so the colours are on only if asked for.
func (k *cliCase) colour(cfg *compile.PoConfig, h compile.CSSClassesHighlighting) {
	switch k.c.Intn(8) {
	case 0:
		k.args = append(k.args, "--color=always")
		cfg.Highlight = h
	case 1:
		k.args = append(k.args, "--color=auto")
	case 2:
		k.args = append(k.args, "--color=never")
	}
}

func (k *cliCase) flag(f string) bool {
	if k.c.Intn(4) != 0 {
		return false
	}
	k.args = append(k.args, f)
	return true
}

func (k *cliCase) readPo(name, stdin string, o ...poparse.PoOption) (*po.File, error) {
	if name == "-" {
		return poparse.PoFromReader(bytes.NewReader(k.stdin), stdin, o...)
	}
	return poparse.Po(name, o...)
}

func poResult[T po.EntriesOrFile](v T, cfg compile.PoConfig) cliWant {
	var b bytes.Buffer
	if err := compile.PoToWriter(v, &b, compile.PoWithConfig(cfg)); err != nil {
		return cliWant{late: true}
	}
	return cliWant{result: b.Bytes()}
}

func init() {
	const rule = " run as programs on generated catalogues (also damaged, missing, on standard input) with generated flags; status, output and every other file compared with what the library makes of the same files"
	// a program is run in every evaluation, so there are fewer of them
	reg := func(name string, f func(c *C, size int)) {
		register("C18", name, name+rule, func(c *C) {
			if err := cliBuild(); err != nil {
				c.Try("go build in cli", func() error { return err })
				return
			}
			c.Iter(220, func(i, size int) { f(c, size) })
		})
	}
	reg("msgofmt", func(c *C, size int) {
		k := c.cliCase()
		names := k.inputs(1+c.Intn(3), true, func() []byte {
			if c.Intn(3) != 0 {
				// files with messages of their own
				es := c.poCatalogue(size)
				id := c.Intn(1000000)
				for i := range es {
					es[i].ID += fmt.Sprint(id, i)
				}
				b := compile.PoToBytes(es)
				if len(es) > 0 && c.Intn(10) == 0 {
					b = append(b, compile.PoToBytes(es[:1+c.Intn(len(es))])...)
				}
				return b
			}
			return c.cliPo(size)
		})
		k.output("--output-file=")
		if k.out == "-" && !strings.HasPrefix(strings.Join(k.args, " "), "--output") {
			k.out = "messages.mo"
		}
		cfg := compile.DefaultMoConfig()
		cfg.Force = k.flag("--force")
		cfg.HashTable = !k.flag("--no-hash")
		k.flag("--verbose")
		switch c.Intn(5) {
		case 0:
			k.args, cfg.Endianness = append(k.args, "--endianness=big"), compile.BigEndian
		case 1:
			k.args, cfg.Endianness = append(k.args, "--endianness=little"), compile.LittleEndian
		case 2:
			k.args, cfg.Endianness = append(k.args, "--endianness=native"), compile.NativeEndian
		default:
			cfg.Endianness = compile.NativeEndian
		}
		k.args = append(k.args, names...)
		k.run("msgofmt", func() cliWant {
			var es po.Entries
			for _, n := range names {
				f, err := k.readPo(n, "stdin", poparse.PoWithCleanDuplicates(false))
				if err != nil {
					return cliWant{fails: true}
				}
				es = append(es, f.Entries...)
			}
			if len(es.Validate()) > 0 || k.out == "q/there.x" && !cfg.Force {
				return cliWant{fails: true}
			}
			var b bytes.Buffer
			if err := compile.MoToWriter(es, &b, compile.MoWithConfig(cfg)); err != nil {
				return cliWant{late: true}
			}
			return cliWant{result: b.Bytes()}
		})
	})
	reg("msgounfmt", func(c *C, size int) {
		k := c.cliCase()
		names := k.inputs(1+c.Intn(3), true, func() []byte {
			b := compile.MoToBytes(c.poCatalogue(size))
			if c.Intn(15) == 0 && len(b) > 0 {
				b[c.Intn(len(b))] ^= byte(1 << c.Intn(8))
			}
			return b
		})
		k.output("--output=")
		cfg := compile.DefaultPoConfig()
		cfg.WordWrap = !k.flag("--no-wrap")
		cfg.ForcePo = k.flag("--force-po")
		k.colour(&cfg, compile.DefaultHighlight)
		sorted := k.flag("--sort-output")
		ignore := k.flag("--ignore-errors")
		k.args = append(k.args, names...)
		k.run("msgounfmt", func() cliWant {
			f := &po.File{Name: "input.mo"}
			if k.out == "q/there.x" && !cfg.ForcePo {
				return cliWant{fails: true}
			}
			for _, n := range names {
				var g *po.File
				var err error
				if n == "-" {
					g, err = poparse.MoFromReader(bytes.NewReader(k.stdin), "stdin")
				} else {
					g, err = poparse.Mo(n)
				}
				if err != nil || len(g.Validate()) > 0 && !ignore {
					return cliWant{fails: true}
				}
				f.Entries = append(f.Entries, g.Entries...)
			}
			if sorted {
				f.Entries = f.SortFunc(po.CompareEntryByID)
			}
			return poResult(f, cfg)
		})
	})
	reg("msgocat", func(c *C, size int) {
		k := c.cliCase()
		names := k.inputs(c.Intn(4), true, func() []byte { return c.cliPo(size) })
		k.output("--output-file=", "p0.po")
		cfg := compile.DefaultPoConfig()
		merge := po.DefaultMsgcatMergeConfig()
		cfg.WordWrap = !k.flag("--no-wrap")
		if cfg.NoLocation = k.flag("--no-location"); !cfg.NoLocation {
			cfg.AddLocation = compile.PoLocationMode(c.pick([]string{"full", "full", "full", "file", "never"}))
			if cfg.AddLocation != "full" || c.bit() {
				k.args = append(k.args, "--add-location="+string(cfg.AddLocation))
			}
		}
		k.colour(&cfg, compile.TestHighlight)
		refused := false
		if c.Intn(4) == 0 {
			merge.MoreThan = uint(c.Intn(3))
			k.args = append(k.args, fmt.Sprintf("--more-than=%d", merge.MoreThan))
		}
		if k.flag("--unique") {
			merge.LessThan = 2
		} else if c.Intn(4) == 0 {
			merge.LessThan = []uint{0, 1, 2, 3, math.MaxUint}[c.Intn(5)]
			refused = merge.LessThan < 2
			k.args = append(k.args, fmt.Sprintf("--less-than=%d", merge.LessThan))
		}
		merge.UseFirst = k.flag("--use-first")
		sorted := k.flag("--sort-output")
		byFile := !sorted && k.flag("--sort-by-file")
		lang := ""
		if c.Intn(3) == 0 {
			lang = c.pick([]string{"fr", "pt_BR", "x"})
			k.args = append(k.args, "--lang="+lang)
		}
		all := append([]string{}, names...)
		if c.Intn(5) == 0 {
			var l []string
			for n := c.Intn(3); n > 0; n-- {
				l = append(l, k.inputs(1, false, func() []byte { return c.cliPo(size) })...)
			}
			all = append(all, l...)
			k.files["list"] = []byte(c.pick([]string{"", "\n"}) + strings.Join(l, c.pick([]string{"\n", "\n\n"})) + c.pick([]string{"", "\n"}))
			if c.bit() && !slices.Contains(names, "-") {
				k.stdin = k.files["list"]
				k.args = append(k.args, "--files-from=-")
			} else {
				k.args = append(k.args, "--files-from=list")
			}
		}
		if c.Intn(6) == 0 {
			for n, i := c.Intn(3), 0; i < n; i++ {
				name := fmt.Sprintf("dir/%d.po", i)
				k.files[name] = c.cliPo(size)
				all = append(all, name)
			}
			if _, ok := k.files["dir/0.po"]; !ok {
				refused = true // there is no such directory
			}
			k.args = append(k.args, "--directory=dir")
		}
		k.args = append(k.args, names...)
		k.run("msgocat", func() cliWant {
			if refused || len(all) == 0 {
				return cliWant{fails: true}
			}
			var files []*po.File
			for _, n := range all {
				f, err := k.readPo(n, "-")
				if err != nil || len(f.Validate()) > 0 {
					return cliWant{fails: true}
				}
				files = append(files, f)
			}
			es := po.MsgcatMergeFiles(files, po.MsgcatMergeWithConfig(merge))
			if i := es.Index("", ""); lang != "" && i >= 0 {
				h := es.HeaderFromIndex(i)
				h.Set("Language", lang)
				e := h.ToEntry()
				e.Flags, e.Comments, e.ExtractedComments, e.Previous = es[i].Flags, es[i].Comments, es[i].ExtractedComments, es[i].Previous
				es[i] = e
			}
			if sorted {
				es = es.Sort()
			}
			if byFile {
				es = es.SortFunc(po.CompareEntryByFile)
			}
			return poResult(es, cfg)
		})
	})
	reg("msgomerge", func(c *C, size int) {
		k := c.cliCase()
		names := k.inputs(2, false, func() []byte { return c.cliPo(size) })
		for names[0] == names[1] {
			names[1] = "p1.po"
		}
		k.output("--output-file=", names[1])
		cfg := compile.PoConfig{AddLocation: "full"}
		merge := po.MergeConfig{FuzzyMatch: !k.flag("--no-fuzzy-matching"), Sort: true}
		cfg.WordWrap = !k.flag("--no-wrap")
		cfg.ForcePo = k.flag("--force-po")
		cfg.NoLocation = k.flag("--no-location")
		if c.Intn(3) == 0 {
			cfg.AddLocation = compile.PoLocationMode(c.pick([]string{"full", "file", "never"}))
			k.args = append(k.args, "--add-location="+string(cfg.AddLocation))
		}
		k.colour(&cfg, compile.DefaultHighlight)
		k.flag("--verbose") // to standard error
		update := k.flag("--update")
		var comp []string
		if c.Intn(4) == 0 {
			for n := 1 + c.Intn(2); n > 0; n-- {
				name := fmt.Sprintf("comp%d.po", n)
				if c.Intn(20) != 0 {
					k.files[name] = c.cliPo(size)
				}
				comp = append(comp, name)
				k.args = append(k.args, "--compendium="+name)
			}
		}
		at := func(n string) string { return n }
		if c.Intn(5) == 0 {
			at = func(n string) string { return filepath.Join("d", n) }
			for _, n := range append(append([]string{}, names...), comp...) {
				if b, ok := k.files[n]; ok {
					k.files[at(n)] = b
					if c.bit() && n != k.out {
						delete(k.files, n)
					}
				}
			}
			k.args = append(k.args, "--directory=d")
		}
		k.args = append(k.args, names...)
		k.run("msgomerge", func() cliWant {
			def, err := poparse.Po(at(names[0]))
			if err != nil {
				return cliWant{fails: true}
			}
			ref, err := poparse.Po(at(names[1]))
			if err != nil {
				return cliWant{fails: true}
			}
			for _, n := range comp {
				f, err := poparse.Po(at(n))
				if err != nil {
					return cliWant{fails: true}
				}
				ref.Entries = append(ref.Entries, f.Entries...)
			}
			if len(comp) > 0 {
				ref.Entries = ref.Solve()
			}
			w := poResult(po.MergeWithConfig(merge, def.Entries, ref.Entries), cfg)
			if update {
				w.also = []string{at(names[0])}
			}
			return w
		})
	})
	reg("xgotext", func(c *C, size int) {
		k := c.cliCase()
		var names, exclude []string
		read := []string{}
		for n := 1 + c.Intn(3); n > 0; n-- {
			name := c.pick([]string{"a", "b", "d/a", "d/b"}) + strconv.Itoa(n) + ".go"
			src, _ := c.goFile(size)
			if c.Intn(25) == 0 {
				src = "package p\nfunc {"
			}
			k.files[name] = []byte(src)
			names = append(names, name)
			switch {
			case c.Intn(3) == 0:
				exclude = append(exclude, name)
			default:
				read = append(read, name)
			}
		}
		if c.Intn(25) == 0 {
			names, read = append(names, "missing.go"), append(read, "missing.go")
		}
		stdin := false
		if c.Intn(5) == 0 {
			src, _ := c.goFile(size)
			k.stdin, stdin = []byte(src), true
			names = append(names, "-")
		}
		dir := ""
		if !stdin && c.Intn(5) == 0 {
			dir = "src"
			k.args = append(k.args, "--directory=src")
			for _, n := range names {
				if b, ok := k.files[n]; ok {
					k.files[filepath.Join(dir, n)] = b
					delete(k.files, n)
				}
			}
			for i, n := range read {
				read[i] = filepath.Join(dir, n)
			}
		}
		if len(exclude) > 0 && c.bit() {
			k.files["skip"] = []byte(strings.Join(exclude, "\n") + c.pick([]string{"", "\n"}))
			k.args = append(k.args, "--exclude-file=skip")
		} else {
			for i, n := range exclude {
				if i > 0 && c.Intn(3) == 0 {
					k.files["skip"] = append(k.files["skip"], n+"\n"...)
				} else {
					k.args = append(k.args, "--exclude="+n)
				}
			}
			if _, ok := k.files["skip"]; ok {
				k.args = append(k.args, "--exclude-file=skip")
			}
		}
		if c.Intn(8) == 0 {
			k.args, k.out = append(k.args, "--output="), "messages.pot"
			if c.bit() {
				k.args, k.out = append(k.args, "--default-domain=dom"), "dom.pot"
			}
		} else {
			k.output("--output=")
		}
		if k.out != "-" {
			if c.Intn(4) == 0 {
				k.args = append(k.args, "--output-dir=q")
				k.files["q/x"] = nil
				k.out = filepath.Join("q", k.out)
				k.files["q/q/x"] = nil
			}
		}
		h := po.DefaultTemplateHeaderConfig()
		h.Language, h.Nplurals, h.ProjectIDVersion, h.ReportMsgidBugsTo = "en", 2, "PACKAGE VERSION", ""
		cfg := compile.PoConfig{AddLocation: "full", Title: "SOME DESCRIPTIVE TITLE", CopyrightHolder: "YEAR THE PACKAGE'S COPYRIGHT HOLDER", PackageName: "PACKAGE", HeaderComments: true, HeaderFields: true}
		text := func(flag string, v *string) {
			if c.Intn(6) == 0 {
				*v = c.pick([]string{"x", "two words", "%s"})
				k.args = append(k.args, flag+"="+*v)
			}
		}
		text("--lang", &h.Language)
		text("--package-version", &h.ProjectIDVersion)
		text("--msgid-bugs-address", &h.ReportMsgidBugsTo)
		text("--title", &cfg.Title)
		text("--copyright-holder", &cfg.CopyrightHolder)
		text("--package-name", &cfg.PackageName)
		text("--msgstr-prefix", &cfg.MsgstrPrefix)
		text("--msgstr-suffix", &cfg.MsgstrSuffix)
		if c.Intn(6) == 0 {
			h.Nplurals = uint(c.Intn(4))
			k.args = append(k.args, fmt.Sprintf("--nplurals=%d", h.Nplurals))
		}
		cfg.ForeignUser = k.flag("--foreign-user")
		cfg.OmitHeader = k.flag("--omit-header")
		cfg.WordWrap = k.flag("--word-wrap")
		cfg.ForcePo = k.flag("--force-po")
		if cfg.NoLocation = k.flag("--no-location"); !cfg.NoLocation && c.Intn(4) == 0 {
			cfg.AddLocation = compile.PoLocationMode(c.pick([]string{"full", "file", "never"}))
			k.args = append(k.args, "--add-location="+string(cfg.AddLocation))
		}
		k.colour(&cfg, compile.DefaultHighlight)
		k.flag("--verbose")
		all := k.flag("--extract-all")
		join := k.out != "-" && k.flag("--join-existing")
		if join && c.bit() && !strings.HasSuffix(k.out, "no/such/directory") {
			k.files[k.out] = c.cliPo(size)
		}
		if c.Intn(5) == 0 {
			k.files["list"] = []byte(strings.Join(names, "\n") + "\n")
			k.args = append(k.args, "--files-from=list")
		} else {
			k.args = append(k.args, names...)
		}
		k.run("xgotext", func() cliWant {
			// standard input is read last, under its own name
			o := []goparse.Option{goparse.WithConfig(goparse.Config{CleanDuplicates: true, ExtractAll: all, HeaderConfig: &h})}
			var files []*os.File
			for _, n := range read {
				f, err := os.Open(n)
				if err != nil {
					return cliWant{fails: true}
				}
				defer f.Close()
				files = append(files, f)
			}
			if stdin {
				os.WriteFile(filepath.Join(scratch, "stdin"), k.stdin, 0o644)
				f, err := os.Open(filepath.Join(scratch, "stdin"))
				if err != nil {
					return cliWant{fails: true}
				}
				fd, err := syscall.Dup(int(f.Fd()))
				f.Close()
				if err != nil {
					return cliWant{fails: true}
				}
				in := os.NewFile(uintptr(fd), "/dev/stdin")
				defer in.Close()
				files = append(files, in)
			}
			p, err := goparse.NewParserFromFiles(files, o...)
			if err != nil {
				return cliWant{fails: true}
			}
			f := p.Parse()
			if len(p.Errors()) > 0 {
				return cliWant{fails: true}
			}
			if join {
				var old *po.File
				old, err = poparse.PoFromBytes(k.files[k.out], k.out, poparse.PoWithConfig(poparse.PoConfig{}))
				if err != nil {
					_, there := k.files[k.out]
					return cliWant{fails: there, late: !there}
				}
				f.Entries = po.Merge(old.Entries, f.Entries)
			}
			return poResult(f, cfg)
		})
	})
}
