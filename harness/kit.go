// Package main: runtime monitors for goannoy. One process runs one shard of one check.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
)

type VT = interfaces.VectorType
type IT = interfaces.IndexTypes

// Violation is one observed breach.
type Violation struct {
	Prop, Case, Msg, Detail string
	Seed                    uint64
	Tier                    string
	Mode                    string
}

// Env is one shard of one check.
type Env struct {
	Prop     string
	Tier     string
	Mode     string // plain, race, asan, checkptr
	Seed     uint64
	Shard    int
	NShards  int
	Only     string // run this case only
	Tmp      string // scratch directory of this shard
	Deadline time.Time
	Quick    int // number of quick cases
	mu       sync.Mutex
	out      *os.File
	prog     *os.File
	Counters map[string]int64
	Distinct map[uint64]struct{}
	Samples  []string
	Evals    int64
	Viol     []Violation
	Cases    int64
	maxViol  int
	Scale    float64 // factor on the number of cases
}

func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// Count adds to a named counter of what the monitors observed.
func (e *Env) Count(k string, n int64) {
	e.mu.Lock()
	e.Counters[k] += n
	e.mu.Unlock()
}

// Max keeps the maximum seen.
func (e *Env) Max(k string, n int64) {
	e.mu.Lock()
	if e.Counters["max "+k] < n {
		e.Counters["max "+k] = n
	}
	e.mu.Unlock()
}

// Case is one generated case.
type Case struct {
	*Env
	Name  string
	I     int
	R     *rand.Rand
	notes []string
}

type caseAbort struct{}

func h64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// Loop runs cases 0.. until the tier's amount of work is done.
func (e *Env) Loop(quick int, f func(c *Case)) { e.LoopN("i", quick, f) }

func (e *Env) Min(k string, n int64) {
	e.mu.Lock()
	if m, ok := e.Counters["min "+k]; !ok || n < m {
		e.Counters["min "+k] = n
	}
	e.mu.Unlock()
}

func (e *Env) LoopN(prefix string, quick int, f func(c *Case)) {
	quick = max(1, int(float64(quick)*e.Scale))
	for i := 0; ; i++ {
		if e.Thorough() {
			if i >= quick && time.Now().After(e.Deadline) {
				return
			}
			if i >= quick*400 {
				return
			}
		} else if i >= quick {
			return
		}
		if int((uint32(i)*2654435761)>>9)%e.NShards != e.Shard && e.Only == "" {
			continue
		}
		if len(e.Viol) >= e.maxViol {
			return
		}
		if e.Only != "" {
			if e.Only == fmt.Sprintf("%s%d", prefix, i) {
				e.Run(fmt.Sprintf("%s%d", prefix, i), i, f)
				return
			}
			if i > 50_000_000 {
				return
			}
			continue
		}
		e.Run(fmt.Sprintf("%s%d", prefix, i), i, f)
	}
}

// Run runs one case, turning unexpected panics into violations.
func (e *Env) Run(name string, i int, f func(c *Case)) {
	s := h64(e.Seed, e.Prop, name)
	c := &Case{Env: e, Name: name, I: i, R: rand.New(rand.NewPCG(s, s^0x9e3779b97f4a7c15))}
	e.progress(name)
	defer e.progress("-")
	e.Cases++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				return
			}
			if m := fmt.Sprint(r); strings.Contains(m, "HARNESS:") {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", m, debug.Stack())
				os.Exit(3)
			}
			c.record(fmt.Sprintf("unexpected panic: %v", r), string(debug.Stack()))
		}
	}()
	f(c)
}

func (e *Env) progress(s string) {
	if e.prog != nil {
		e.prog.WriteAt([]byte(fmt.Sprintf("%-60s\n", s)), 0)
	}
}

// Note remembers context that is written with a violation of this case.
func (c *Case) Note(f string, a ...any) {
	c.mu.Lock()
	if len(c.notes) < 200 {
		c.notes = append(c.notes, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

func (c *Case) record(msg, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Viol) < c.maxViol {
		c.Viol = append(c.Viol, Violation{Prop: c.Prop, Case: c.Name, Msg: msg,
			Detail: strings.Join(c.notes, "\n") + "\n" + detail, Seed: c.Seed, Tier: c.Tier, Mode: c.Mode})
	}
}

// Fail records a violation and ends the case.
func (c *Case) Fail(f string, a ...any) {
	c.record(fmt.Sprintf(f, a...), "")
	panic(caseAbort{})
}

// Check fails the case unless ok.
func (c *Case) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Fail(f, a...)
	}
}

// Eval counts one judged execution; nontrivial ones are counted by distinct signature.
func (c *Case) Eval(nontrivial bool, sig ...any) {
	c.mu.Lock()
	c.Evals++
	if nontrivial {
		c.Distinct[h64(sig...)] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample writes out an actual case (a few per shard are kept).
func (c *Case) Sample(f string, a ...any) {
	c.mu.Lock()
	if len(c.Samples) < 4 {
		c.Samples = append(c.Samples, c.Name+": "+fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Panics runs f and tells if it panicked.
func Panics(f func()) (did bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			did, val = true, r
		}
	}()
	f()
	return
}

// File gives a fresh scratch file name.
func (c *Case) File(name string) string { return filepath.Join(c.Dir(), name) }

// Dir is the scratch directory of the case.
func (c *Case) Dir() string {
	d := filepath.Join(c.Tmp, c.Name)
	os.MkdirAll(d, 0o755)
	return d
}

// Clean removes the scratch directory of the case.
func (c *Case) Clean() { os.RemoveAll(filepath.Join(c.Tmp, c.Name)) }

func (e *Env) report(path string) {
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			var kb int64
			if n, _ := fmt.Sscanf(l, "VmHWM: %d kB", &kb); n == 1 {
				e.Max("resident MB of a shard", kb/1024)
			}
		}
	}
	d := make([]uint64, 0, len(e.Distinct))
	for k := range e.Distinct {
		d = append(d, k)
	}
	sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
	if len(d) > 200000 {
		d = d[:200000]
	}
	b, err := json.Marshal(map[string]any{
		"evaluations": e.Evals, "distinct": d, "samples": e.Samples, "counters": e.Counters,
		"violations": e.Viol, "cases": e.Cases, "mode": e.Mode, "done": true,
	})
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// Combo is a choice of element type, index type and metric.
type Combo struct{ F64, U64, Dot bool }

func (k Combo) String() string {
	s := "f32"
	if k.F64 {
		s = "f64"
	}
	if k.U64 {
		s += "/u64"
	} else {
		s += "/u32"
	}
	if k.Dot {
		return s + "/dot"
	}
	return s + "/ang"
}

// ComboOf spreads the eight combinations over the case numbers.
func ComboOf(i int) Combo {
	// f32/u32 angular is the most used one, but every one gets its share
	i ^= i >> 3
	return Combo{F64: i&1 != 0, U64: i&2 != 0, Dot: i&4 != 0}
}

type caseFn func(c *Case, k Combo)

func pick(k Combo, a, b, d, e caseFn) caseFn {
	switch {
	case !k.F64 && !k.U64:
		return a
	case !k.F64:
		return b
	case !k.U64:
		return d
	}
	return e
}

// In picks one of the choices.
func In[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// debugFault turns memory faults of this goroutine into panics until the returned function is called.
func debugFault() func() {
	old := debug.SetPanicOnFault(true)
	return func() { debug.SetPanicOnFault(old) }
}
