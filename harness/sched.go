package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

// sched is a worker policy that runs the workers one at a time and decides at every lock
// operation (and at draws, node accesses and reallocations) who goes on. It is also the monitor
// of the lock protocol. One build per sched.
type sched struct {
	c        *Case
	r        *rand.Rand
	strategy int // 0 random, 1 sticky, 2 priorities with change points, 3 round robin, 4 starve the last mover
	W        []*sworker
	cur      *sworker
	nn, rt   *sworker // owners
	excl     *sworker
	shared   map[*sworker]int
	edges    map[string]bool
	trace    []byte
	steps    int
	switches int
	blocked  int
	change   []int
	errs     []string
	dead     bool
	active   bool
	mem      *movingAlloc
	// NotePreempt: chance (per mille) of a preemption at draws and node accesses
	midChance int
	done      chan struct{}
	accesses  int
	inExcl    int
	builds    int
	handles   bool // each worker is given a policy of its own
	real      bool // trees per worker as the library's own multi worker policy has them
}

type sworker struct {
	id    int
	wake  chan struct{}
	want  string
	done  bool
	prio  int
	held  []string
	trees int
}

type schedAbort struct{}

func newSched(c *Case, r *rand.Rand) *sched {
	return &sched{c: c, r: r, strategy: r.IntN(5), shared: map[*sworker]int{}, edges: map[string]bool{},
		midChance: In(r, 0, 5, 20, 50)}
}

func (s *sched) errf(f string, a ...any) {
	if len(s.errs) < 10 {
		s.errs = append(s.errs, fmt.Sprintf(f, a...))
	}
}

// Build implements interfaces.AnnoyIndexBuildPolicy.
func (s *sched) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	s.builds++
	if workers < 1 {
		workers = 1
	}
	s.done = make(chan struct{}, workers)
	for i := 0; i < workers; i++ {
		w := &sworker{id: i, wake: make(chan struct{}, 1), prio: s.r.IntN(1000)}
		w.trees = (trees + i) / workers
		if trees < 0 {
			w.trees = trees
		}
		s.W = append(s.W, w)
	}
	for i := 0; i < 4; i++ {
		s.change = append(s.change, s.r.IntN(400))
	}
	s.active = true
	for _, w := range s.W {
		go func() {
			<-w.wake
			debug.SetPanicOnFault(true)
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(schedAbort); !ok {
						s.errf("worker %d panicked: %v\n%s", w.id, r, debug.Stack())
					}
					s.abort()
				}
				if len(w.held) > 0 && !s.dead {
					s.errf("worker %d ends holding %v", w.id, w.held)
					s.abort()
				}
				w.done = true
				s.done <- struct{}{}
				if !s.dead {
					s.next(nil)
				}
			}()
			if s.dead {
				return
			}
			if s.handles {
				b.ThreadBuild(w.trees, w.id, &handle{s, w})
				return
			}
			b.ThreadBuild(w.trees, w.id, s)
		}()
	}
	s.next(nil)
	for range s.W {
		<-s.done
	}
	s.active = false
	if s.nn != nil || s.rt != nil || s.excl != nil || len(s.shared) > 0 {
		if !s.dead {
			s.errf("locks are still held after the build")
		}
	}
}

func (s *sched) abort() {
	if s.dead {
		return
	}
	s.dead = true
	for _, w := range s.W {
		if w != s.cur && !w.done {
			w.wake <- struct{}{}
		}
	}
}

func (s *sched) enabled(w *sworker) bool {
	switch w.want {
	case "":
		return true
	case "N": // node count
		return s.nn == nil
	case "R":
		return s.rt == nil
	case "X": // node memory, exclusive
		return s.excl == nil && len(s.shared) == 0
	case "S":
		if s.excl != nil {
			return false
		}
		if len(s.shared) > 0 {
			// a waiting writer goes first, as in sync.RWMutex
			for _, o := range s.W {
				if o != w && !o.done && o.want == "X" {
					return false
				}
			}
		}
		return true
	}
	panic("want " + w.want)
}

// next hands the token to some enabled worker; self is the caller when it wants to go on.
func (s *sched) next(self *sworker) {
	s.steps++
	var en []*sworker
	alive := 0
	for _, w := range s.W {
		if w.done {
			continue
		}
		alive++
		if s.enabled(w) {
			en = append(en, w)
		} else {
			s.blocked++
		}
	}
	if alive == 0 {
		return
	}
	if len(en) == 0 {
		var st []string
		for _, w := range s.W {
			if !w.done {
				st = append(st, fmt.Sprintf("worker %d holds %v wants %s", w.id, w.held, w.want))
			}
		}
		s.errf("deadlock: %s", strings.Join(st, "; "))
		s.abort()
		if self != nil {
			panic(schedAbort{})
		}
		return
	}
	for _, ch := range s.change {
		if ch == s.steps && self != nil {
			self.prio -= 2000
		}
	}
	var pickd *sworker
	has := func(w *sworker) bool {
		for _, x := range en {
			if x == w {
				return true
			}
		}
		return false
	}
	switch s.strategy {
	case 1:
		if self != nil && has(self) && s.r.IntN(12) != 0 {
			pickd = self
		}
	case 2:
		for _, w := range en {
			if pickd == nil || w.prio > pickd.prio {
				pickd = w
			}
		}
	case 3:
		last := 0
		if self != nil {
			last = self.id
		}
		for d := 1; d <= len(s.W) && pickd == nil; d++ {
			if w := s.W[(last+d)%len(s.W)]; has(w) {
				pickd = w
			}
		}
	case 4:
		if s.excl != nil && has(s.excl) && s.r.IntN(4) != 0 {
			for _, w := range en {
				if w != s.excl {
					pickd = w
				}
			}
		}
	}
	if pickd == nil {
		pickd = en[s.r.IntN(len(en))]
	}
	if pickd != s.cur {
		s.switches++
	}
	s.trace = append(s.trace, byte('0'+pickd.id))
	if pickd == self {
		return
	}
	s.cur = pickd
	pickd.wake <- struct{}{}
	if self != nil {
		<-self.wake
		if s.dead {
			panic(schedAbort{})
		}
	}
}

func (s *sched) me() *sworker {
	if !s.active {
		return nil
	}
	return s.cur
}

func (s *sched) take(w *sworker, l string) {
	for _, h := range w.held {
		s.edges[h+">"+l] = true
		if h == l || (h == "X" && l == "S") || (h == "S" && l == "X") {
			s.errf("worker %d requests %s while holding %v: waits for itself", w.id, l, w.held)
			s.abort()
			panic(schedAbort{})
		}
	}
	w.want = l
	s.next(w)
	w.want = ""
	s.trace = append(s.trace, l[0])
	switch l {
	case "N":
		s.nn = w
	case "R":
		s.rt = w
	case "X":
		s.excl = w
	case "S":
		s.shared[w]++
	}
	w.held = append(w.held, l)
}

func (s *sched) lock(l string) {
	if w := s.me(); w != nil {
		s.take(w, l)
	}
}

func (s *sched) unlock(l string) {
	w := s.me()
	if w == nil {
		return
	}
	at := -1
	for i, h := range w.held {
		if h == l {
			at = i
		}
	}
	if at < 0 {
		s.errf("worker %d releases %s without holding it (holds %v)", w.id, l, w.held)
		s.abort()
		panic(schedAbort{})
	}
	w.held = append(w.held[:at], w.held[at+1:]...)
	switch l {
	case "N":
		s.nn = nil
	case "R":
		s.rt = nil
	case "X":
		s.excl = nil
	case "S":
		delete(s.shared, w)
	}
	s.next(w)
}

// handle is the policy of one worker.
type handle struct {
	s *sched
	w *sworker
}

func (h *handle) Build(interfaces.AnnoyIndexBuilder, int, int) {
	h.s.errf("a worker starts a build of its own")
}

func (h *handle) use(l string, f func(string)) {
	if h.w != h.s.cur {
		h.s.errf("worker %d takes or releases %s through the policy of worker %d", h.s.cur.id, l, h.w.id)
	}
	f(l)
}

// outer is a lock operation on the policy of the index.
func (s *sched) outer(l string, f func(string)) {
	if w := s.me(); s.handles && w != nil {
		s.errf("worker %d takes or releases %s through the policy of the index, not the one it was given", w.id, l)
	}
	f(l)
}

func (s *sched) LockNNodes()        { s.outer("N", s.lock) }
func (s *sched) UnlockNNodes()      { s.outer("N", s.unlock) }
func (s *sched) LockNodes()         { s.outer("X", s.lock) }
func (s *sched) UnlockNodes()       { s.outer("X", s.unlock) }
func (s *sched) LockSharedNodes()   { s.outer("S", s.lock) }
func (s *sched) UnlockSharedNodes() { s.outer("S", s.unlock) }
func (s *sched) LockRoots()         { s.outer("R", s.lock) }
func (s *sched) UnlockRoots()       { s.outer("R", s.unlock) }

func (h *handle) LockNNodes()        { h.use("N", h.s.lock) }
func (h *handle) UnlockNNodes()      { h.use("N", h.s.unlock) }
func (h *handle) LockNodes()         { h.use("X", h.s.lock) }
func (h *handle) UnlockNodes()       { h.use("X", h.s.unlock) }
func (h *handle) LockSharedNodes()   { h.use("S", h.s.lock) }
func (h *handle) UnlockSharedNodes() { h.use("S", h.s.unlock) }
func (h *handle) LockRoots()         { h.use("R", h.s.lock) }
func (h *handle) UnlockRoots()       { h.use("R", h.s.unlock) }

// mid is a preemption point within a worker's own code.
func (s *sched) mid() {
	w := s.me()
	if w == nil || s.midChance == 0 || s.r.IntN(1000) >= s.midChance {
		return
	}
	s.next(w)
}

// onRealloc monitors the replacement of the node memory.
func (s *sched) onRealloc(int) {
	w := s.me()
	if w == nil {
		return
	}
	s.inExcl++
	if s.excl != w {
		s.errf("worker %d replaces the node memory holding %v, not the exclusive node lock", w.id, w.held)
	}
	if len(s.shared) > 0 {
		s.errf("worker %d replaces the node memory while workers are inside shared sections", w.id)
	}
}

// onAccess monitors an access to node memory.
func (s *sched) onAccess(mem unsafe.Pointer, i uint64) {
	w := s.me()
	if w == nil || s.mem == nil {
		return
	}
	switch s.mem.state(mem) {
	case 0:
		return
	case 2:
		s.errf("worker %d accesses node %d in memory that was replaced", w.id, i)
	}
	s.accesses++
	if s.excl != w && s.shared[w] == 0 {
		s.errf("worker %d accesses node %d holding %v: outside a shared or exclusive section", w.id, i, w.held)
	}
	s.mid()
}

// lockCycle finds a cycle among the orders in which locks were requested. S and X are one lock.
func (s *sched) lockCycle() string {
	adj := map[string]map[string]bool{}
	id := func(x string) string {
		if x == "S" || x == "X" {
			return "nodes"
		}
		return x
	}
	var es []string
	for e := range s.edges {
		p := strings.Split(e, ">")
		a, b := id(p[0]), id(p[1])
		if adj[a] == nil {
			adj[a] = map[string]bool{}
		}
		adj[a][b] = true
		es = append(es, e)
	}
	sort.Strings(es)
	var stack []string
	var visit func(x string, path map[string]bool) bool
	visit = func(x string, path map[string]bool) bool {
		if path[x] {
			return true
		}
		path[x] = true
		stack = append(stack, x)
		for y := range adj[x] {
			if visit(y, path) {
				return true
			}
		}
		delete(path, x)
		return false
	}
	for x := range adj {
		if visit(x, map[string]bool{}) {
			return strings.Join(es, " ")
		}
	}
	return ""
}

func (s *sched) traceHash() uint64 {
	h := fnv.New64a()
	h.Write(s.trace)
	return h.Sum64()
}

// dist is the metric interface under a name that may be embedded.
type dist[TV VT, TIX IT] interface {
	interfaces.Distance[TV, TIX]
}

// watchDist is a metric that reports node accesses.
type watchDist[TV VT, TIX IT] struct {
	dist[TV, TIX]
	s *sched
}

func (d *watchDist[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, i TIX) interfaces.Node[TV, TIX] {
	d.s.onAccess(mem, uint64(i))
	return d.dist.MapNodeToMemory(mem, i)
}

// watchRand is a generator whose draws are preemption points.
type watchRand[TIX IT] struct {
	interfaces.Random[TIX]
	s *sched
}

func (r *watchRand[TIX]) Next() TIX { r.s.mid(); return r.Random.Next() }
func (r *watchRand[TIX]) NextSide() interfaces.Side {
	r.s.mid()
	return r.Random.NextSide()
}
func (r *watchRand[TIX]) NextIndex(n TIX) TIX { r.s.mid(); return r.Random.NextIndex(n) }
func (r *watchRand[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return &watchRand[TIX]{r.Random.CloneAndReset(), r.s}
}

// spec plugs the scheduler and its monitors into an index.
func schedSpec[TV VT, TIX IT](s *sched, sp Spec[TV, TIX], flushEnd bool) Spec[TV, TIX] {
	s.mem = &movingAlloc{flushEnd: flushEnd, before: s.onRealloc, between: func() {
		if w := s.me(); w != nil {
			s.next(w)
		}
	}}
	sp.Alloc = s.mem
	sp.Policy = s
	sp.Dist = &watchDist[TV, TIX]{newDist[TV, TIX](sp.F, sp.Dot), s}
	sp.Rand = &watchRand[TIX]{newRand(sp.Seed), s}
	return sp
}
