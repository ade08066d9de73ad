// Command verifharness runs the contracts of /verif against the real code on
// a bounded set of inputs. It is compiled inside /repo's module through an
// overlay and uses exported API only.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type caseFn struct {
	name, rule string
	f          func(c *C)
}

var props = map[string][]caseFn{}

func register(prop, name, rule string, f func(c *C)) {
	props[prop] = append(props[prop], caseFn{name, rule, f})
}

type violation struct {
	Case   string `json:"case"`
	What   string `json:"what"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type report struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct"`
	Rule        string         `json:"rule"`
	Cases       map[string]int `json:"cases"`
	Samples     []any          `json:"samples"`
	Known       []string       `json:"known"`
	Violation   *violation     `json:"violation,omitempty"`
}

// C is one running case.
type C struct {
	*rand.Rand
	name   string
	tier   string
	rep    *report
	seen   map[uint64]bool
	known  map[string]bool
	cur    *os.File
	until  time.Time
	mu     sync.Mutex
	start  time.Time
	curIn  string
	active bool
}

type stop struct{}

// Iter calls f for growing sizes, at most n times in the quick tier and n*k
// times otherwise, within the case's share of the time budget.
func (c *C) Iter(n int, f func(i, size int)) {
	m := n
	switch c.tier {
	case "search":
		m = n * 20
	case "thorough":
		m = n * 60
	}
	for i := 0; i < m; i++ {
		if i%16 == 0 && time.Now().After(c.until) {
			return
		}
		size := 1 + i*8/n
		if size > 9 {
			size = 1 + c.Intn(14)
		}
		f(i, size)
	}
}

// Try evaluates one input. The error, if any, says what the contract expected.
func (c *C) Try(input any, f func() error) {
	c.TryKnown("", input, f)
}

// TryKnown: a failure is the listed finding of that name, if it is listed.
func (c *C) TryKnown(finding string, input any, f func() error) {
	in, ok := input.(string)
	late, lazy := input.(func() string)
	if lazy {
		in = late()
	} else if !ok {
		b, err := json.MarshalIndent(input, "", " ")
		if err != nil {
			in = fmt.Sprintf("%+v", input)
		} else {
			in = string(b)
		}
	}
	h := fnv.New64a()
	h.Write([]byte(c.name))
	h.Write([]byte(in))
	c.rep.Evaluations++
	c.rep.Cases[c.name]++
	if !c.seen[h.Sum64()] {
		c.seen[h.Sum64()] = true
		c.rep.Distinct++
		if c.rep.Cases[c.name] == 3 && len(c.rep.Samples) < 6 {
			s := in
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			c.rep.Samples = append(c.rep.Samples, map[string]string{"case": c.name, "input": s})
		}
	}
	if c.cur != nil {
		c.cur.Truncate(0)
		c.cur.WriteAt([]byte(c.name+"\n"+in), 0)
	}
	c.mu.Lock()
	c.start, c.curIn, c.active = time.Now(), in, true
	c.mu.Unlock()
	var err error
	stack := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					panic(e)
				}
				err = fmt.Errorf("panic: %v", e)
				stack = string(debug.Stack())
			}
		}()
		err = f()
	}()
	c.mu.Lock()
	c.active = false
	c.mu.Unlock()
	if err == nil {
		return
	}
	if finding != "" && c.known[finding] {
		for _, k := range c.rep.Known {
			if k == finding {
				return
			}
		}
		c.rep.Known = append(c.rep.Known, finding)
		return
	}
	if lazy {
		in = late()
	}
	c.rep.Violation = &violation{c.name, err.Error(), in, stack}
	panic(stop{})
}

var scratch string

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Float64("budget", 20, "")
	out := flag.String("report", "", "")
	current := flag.String("current", "", "")
	known := flag.String("known", "", "")
	only := flag.String("case", "", "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.Parse()
	rep := &report{Cases: map[string]int{}}
	c := &C{tier: *tier, rep: rep, seen: map[uint64]bool{}, known: map[string]bool{}}
	for _, k := range strings.Split(*known, ",") {
		c.known[k] = true
	}
	if *current != "" {
		c.cur, _ = os.Create(*current)
	}
	scratch, _ = os.MkdirTemp("", "vh")
	write := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			fmt.Println(string(b))
		}
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			c.mu.Lock()
			if c.active && time.Since(c.start) > 20*time.Second {
				rep.Violation = &violation{c.name, "the call did not return within 20 s", c.curIn, ""}
				write()
				os.RemoveAll(scratch)
				os.Exit(3)
			}
			c.mu.Unlock()
		}
	}()
	cs := props[*prop]
	begin := time.Now()
	var rules []string
	for i, cf := range cs {
		if *only != "" && cf.name != *only {
			continue
		}
		// every case gets an equal share of what is left
		left := *budget - time.Since(begin).Seconds()
		if left < 0.5 {
			left = 0.5
		}
		h := fnv.New32a()
		h.Write([]byte(cf.name))
		c.Rand = rand.New(rand.NewSource(*seed*1000003 + int64(h.Sum32())))
		c.name = cf.name
		c.until = time.Now().Add(time.Duration(left / float64(len(cs)-i) * float64(time.Second)))
		if c.tier == "quick" {
			c.until = time.Now().Add(time.Duration(left * float64(time.Second)))
		}
		rules = append(rules, cf.name+": "+cf.rule)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stop); !ok {
						panic(e)
					}
				}
			}()
			cf.f(c)
		}()
		if rep.Violation != nil {
			break
		}
	}
	sort.Strings(rep.Known)
	rep.Rule = strings.Join(rules, "; ")
	write()
	os.RemoveAll(scratch)
	if rep.Violation != nil {
		os.Exit(1)
	}
}

var repoDir string
