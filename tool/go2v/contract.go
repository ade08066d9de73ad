package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Clause is one contract expression, in Verus syntax, over Go names.
type Clause struct {
	Text string
	Pos  string // contract file:line
}

// LoopContract holds the annotations of the n-th loop of a function.
type LoopContract struct {
	Inv, InvX, Ens    []Clause // invariant, invariant_except_break, ensures
	Dec               []Clause
	Begin, End, After Clause
	Pre               Clause
}

// Contract is the contract of one Go function.
type Contract struct {
	Fn         string
	Params     []string
	Results    []string
	Req, Ens   []Clause
	Returns    *Clause  // pure spec expression
	World      bool     // takes and gives the file system (last parameter fs)
	Ghost      []Clause // NAME: TYPE = EXPR, usable (and assignable) in hooks and invariants
	Loops      map[int]*LoopContract
	Entry      Clause
	Exit       Clause
	Locals     map[string]string // local name -> Go type string (fallback binding)
	Assume     string            // what the body may take for granted (an assumption, reported)
	Trusted    string            // reason: body is not verified (assumed contract)
	Opaque     bool
	Bounded    string
	Mono       string
	Pos        string
	RecDec     *Clause
	Props      []string
	Rlimit     string
	Used       bool
	ModifiesNo bool
	Spinoff    bool
	HideSpec   []string
	Recorded   [][2]string // the locals of the function the contract was written for: name, type
}

var headRe = regexp.MustCompile(`^func\s+([\w./]+)\s*\(([^)]*)\)\s*(?:->\s*\(([^)]*)\))?\s*$`)

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

var kwRe = regexp.MustCompile(`^\s*(requires|ensures|returns|loop|invariant_except_break|invariant|decreases|loop_ensures|begin|end|after|pre|entry|exit|assumes|local|trusted|opaque|rec_decreases|rlimit|spinoff|hide|ghost|world)\b\s*(.*)$`)

// Drop leaves out proof aids (invariants, hints, ghost variables): what the
// function promises is not touched.
func (c *Contract) Drop(drop map[string]bool) {
	keep := func(cs []Clause) []Clause {
		var out []Clause
		for _, x := range cs {
			if !drop[x.Pos] {
				out = append(out, x)
			}
		}
		return out
	}
	hint := func(x *Clause) {
		if drop[x.Pos] {
			x.Text = ""
		}
	}
	c.Ghost = keep(c.Ghost)
	hint(&c.Entry)
	hint(&c.Exit)
	for _, l := range c.Loops {
		l.Inv, l.InvX, l.Ens, l.Dec = keep(l.Inv), keep(l.InvX), keep(l.Ens), keep(l.Dec)
		hint(&l.Pre)
		hint(&l.Begin)
		hint(&l.End)
		hint(&l.After)
	}
}

// splitStmts cuts a proof hint into its statements.
func splitStmts(s string) []string {
	var out []string
	depth, start := 0, 0
	cut := func(i int) {
		if x := strings.TrimSpace(s[start:i]); x != "" {
			out = append(out, x)
		}
		start = i
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']':
			depth--
		case '}':
			depth--
			if depth == 0 {
				rest := strings.TrimSpace(s[i+1:])
				if rest == "" || (identRe.FindStringIndex(rest) != nil && identRe.FindStringIndex(rest)[0] == 0 && !strings.HasPrefix(rest, "else") && !strings.HasPrefix(rest, "by")) {
					cut(i + 1)
				}
			}
		case ';':
			if depth == 0 {
				cut(i + 1)
			}
		}
	}
	cut(len(s))
	return out
}

// LoadContracts reads every .vspec file of a directory.
func LoadContracts(dir string) (map[string]*Contract, error) {
	files, err := filepath.Glob(filepath.Join(dir, "*.vspec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	out := map[string]*Contract{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var cur *Contract
		var curLoop *LoopContract
		var sink func(text, pos string)
		var acc string
		var accPos string
		flush := func() {
			if sink != nil && strings.TrimSpace(acc) != "" {
				sink(strings.TrimSpace(acc), accPos)
			}
			sink = nil
			acc = ""
		}
		for n, line := range strings.Split(expandLits(string(b)), "\n") {
			pos := fmt.Sprintf("%s:%d", filepath.Base(f), n+1)
			if strings.HasPrefix(strings.TrimSpace(line), "#") {
				continue
			}
			if m := headRe.FindStringSubmatch(line); m != nil {
				flush()
				cur = &Contract{Fn: m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), Loops: map[int]*LoopContract{}, Locals: map[string]string{}, Pos: pos}
				curLoop = nil
				if _, dup := out[cur.Fn]; dup {
					return nil, fmt.Errorf("%s: duplicate contract %s", pos, cur.Fn)
				}
				out[cur.Fn] = cur
				continue
			}
			if m := kwRe.FindStringSubmatch(line); m != nil && cur != nil {
				flush()
				kw, rest := m[1], m[2]
				accPos = pos
				acc = rest
				c := cur
				l := curLoop
				addC := func(dst *[]Clause) func(string, string) {
					return func(t, p string) { *dst = append(*dst, Clause{t, p}) }
				}
				needLoop := func() error {
					if l == nil {
						return fmt.Errorf("%s: %s outside loop", pos, kw)
					}
					return nil
				}
				switch kw {
				case "requires":
					sink = addC(&c.Req)
				case "ensures":
					sink = addC(&c.Ens)
				case "returns":
					sink = func(t, p string) { c.Returns = &Clause{t, p} }
				case "rec_decreases":
					sink = func(t, p string) { c.RecDec = &Clause{t, p} }
				case "loop":
					k, err := strconv.Atoi(strings.TrimSpace(rest))
					if err != nil {
						return nil, fmt.Errorf("%s: bad loop number", pos)
					}
					curLoop = &LoopContract{}
					c.Loops[k] = curLoop
					acc = ""
				case "invariant":
					if err := needLoop(); err != nil {
						return nil, err
					}
					sink = addC(&l.Inv)
				case "invariant_except_break":
					if err := needLoop(); err != nil {
						return nil, err
					}
					sink = addC(&l.InvX)
				case "loop_ensures":
					if err := needLoop(); err != nil {
						return nil, err
					}
					sink = addC(&l.Ens)
				case "decreases":
					if err := needLoop(); err != nil {
						return nil, err
					}
					sink = addC(&l.Dec)
				case "begin":
					sink = func(t, p string) { l.Begin = Clause{t, p} }
				case "end":
					sink = func(t, p string) { l.End = Clause{t, p} }
				case "after":
					sink = func(t, p string) { l.After = Clause{t, p} }
				case "pre":
					sink = func(t, p string) { l.Pre = Clause{t, p} }
				case "entry":
					sink = func(t, p string) { c.Entry = Clause{t, p} }
				case "assumes":
					sink = func(t, p string) { c.Assume = t }
				case "exit":
					sink = func(t, p string) { c.Exit = Clause{t, p} }
				case "local":
					i := strings.Index(rest, ":")
					if i < 0 {
						return nil, fmt.Errorf("%s: bad local", pos)
					}
					c.Locals[strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
					acc = ""
				case "trusted":
					c.Trusted = strings.TrimSpace(rest)
					if c.Trusted == "" {
						c.Trusted = "assumed"
					}
					acc = ""
				case "ghost":
					sink = func(t, p string) { c.Ghost = append(c.Ghost, Clause{t, p}) }
				case "world":
					c.World = true
					acc = ""
				case "opaque":
					c.Opaque = true
					acc = ""
				case "rlimit":
					c.Rlimit = strings.TrimSpace(rest)
					acc = ""
				case "spinoff":
					c.Spinoff = true
					acc = ""
				case "hide":
					c.HideSpec = splitNames(rest)
					acc = ""
				}
				continue
			}
			if sink != nil {
				acc += "\n" + line
			}
		}
		flush()
	}
	return out, nil
}

var identRe = regexp.MustCompile(`[A-Za-z_$][A-Za-z_0-9]*`)

// idents lists the identifiers of a clause that are not field accesses.
func idents(s string) map[string]bool {
	out := map[string]bool{}
	for _, loc := range identRe.FindAllStringIndex(s, -1) {
		j := loc[0] - 1
		if j >= 0 && s[j] == '.' && !(j >= 1 && s[j-1] == '.') {
			continue
		}
		out[s[loc[0]:loc[1]]] = true
	}
	return out
}
