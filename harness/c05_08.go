package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

func init() {
	checks["C05"] = func(e *Env) {
		e.Loop(1600, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c05[float32, uint32], c05[float32, uint64], c05[float64, uint32], c05[float64, uint64])(c, k)
		})
	}
	checks["C06"] = func(e *Env) {
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c06[float32, uint32], c06[float32, uint64], c06[float64, uint32], c06[float64, uint64])(c, k)
		})
	}
	checks["C07"] = func(e *Env) {
		e.Loop(1200, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c07[float32, uint32], c07[float32, uint64], c07[float64, uint32], c07[float64, uint64])(c, k)
		})
		e.LoopN("l", 6, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c07large[float32, uint32], c07large[float32, uint64], c07large[float64, uint32], c07large[float64, uint64])(c, k)
		})
	}
	checks["C08"] = func(e *Env) {
		if e.Mode == "race" {
			e.Loop(160, func(c *Case) {
				k := ComboOf(c.I)
				pick(k, c08real[float32, uint32], c08real[float32, uint64], c08real[float64, uint32], c08real[float64, uint64])(c, k)
			})
			return
		}
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			if c.I%6 == 5 {
				pick(k, c08real[float32, uint32], c08real[float32, uint64], c08real[float64, uint32], c08real[float64, uint64])(c, k)
				return
			}
			pick(k, c08sched[float32, uint32], c08sched[float32, uint64], c08sched[float64, uint32], c08sched[float64, uint64])(c, k)
		})
	}
	checks["C25"] = func(e *Env) {
		if e.Mode == "race" {
			e.Loop(120, func(c *Case) {
				k := ComboOf(c.I)
				pick(k, c08real[float32, uint32], c08real[float32, uint64], c08real[float64, uint32], c08real[float64, uint64])(c, k)
			})
			return
		}
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c25[float32, uint32], c25[float32, uint64], c25[float64, uint32], c25[float64, uint64])(c, k)
		})
	}
}

// snapshot is everything a user can observe of an index.
type snapshot[TV VT, TIX IT] struct {
	items map[TIX][]TV
	dist  [][2]TIX
	dv    []TV
	qs    []Query[TV, TIX]
	as    []Ans[TV, TIX]
	vlen  TIX
}

func (w *world[TV, TIX]) snap(c *Case, idx interfaces.AnnoyIndex[TV, TIX], nq int) *snapshot[TV, TIX] {
	s := &snapshot[TV, TIX]{items: map[TIX][]TV{}, vlen: idx.VectorLength()}
	for i := TIX(0); i <= w.S.Max; i++ {
		s.items[i] = append([]TV(nil), idx.GetItem(i)...)
	}
	for j := 0; j < 20; j++ {
		p := [2]TIX{TIX(c.R.IntN(int(w.S.Max) + 1)), TIX(c.R.IntN(int(w.S.Max) + 1))}
		s.dist = append(s.dist, p)
		s.dv = append(s.dv, idx.GetDistance(p[0], p[1]))
	}
	s.qs = w.queries(c, nq)
	s.as = askAll(idx, s.qs)
	return s
}

func (s *snapshot[TV, TIX]) compare(c *Case, what string, idx interfaces.AnnoyIndex[TV, TIX]) {
	c.Check(idx.VectorLength() == s.vlen, "%s: vector length %d, was %d", what, idx.VectorLength(), s.vlen)
	for i, v := range s.items {
		g := idx.GetItem(i)
		if !sameBits(g, v) {
			c.Fail("%s: item %d reads %v, was %v", what, i, g, v)
		}
	}
	c.Count("items compared", int64(len(s.items)))
	for j, p := range s.dist {
		d := idx.GetDistance(p[0], p[1])
		c.Check(math.Float64bits(float64(d)) == math.Float64bits(float64(s.dv[j])), "%s: distance %v is %v, was %v", what, p, d, s.dv[j])
	}
	sameAnswers(c, what, s.qs, s.as, askAll(idx, s.qs))
}

// dirty gives an index that has had some other life before.
func (w *world[TV, TIX]) dirty(c *Case, sp Spec[TV, TIX]) interfaces.AnnoyIndex[TV, TIX] {
	idx := sp.New()
	n := 1 + c.R.IntN(60)
	o := genSet[TV, TIX](c.R, n, w.S.F, "gauss", "dense", w.K.Dot)
	switch c.R.IntN(5) {
	case 0: // new
	case 1: // filled
		o.AddTo(idx)
	case 2: // built
		o.AddTo(idx)
		idx.Build(1+c.R.IntN(4), 1)
	case 3, 4: // saved, i.e. has another file loaded
		o.AddTo(idx)
		idx.Build(1+c.R.IntN(4), 1)
		err := idx.Save(c.File("dirty.ann"))
		c.Check(err == nil, "Save: %v", err)
		if c.R.IntN(2) == 0 {
			idx.Close()
		}
	}
	return idx
}

func c05[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	auto := c.R.IntN(6) == 0
	if c.I%32 == 7 && !w.Big { // a file of several MiB, whose last nodes matter
		auto = false
		w.T = 2
		f := In(c.R, 40, 64, 100)
		w.Cap = capacity[TV, TIX](f, k.Dot)
		w.S = genSet[TV, TIX](c.R, (1<<20+c.R.IntN(3<<20))/(12+f*vsize[TV]())+1, f, "gauss", "shuffled", k.Dot)
		c.Note("large: %v", w.S)
	}
	if auto {
		w.T = -1
	}
	var idx interfaces.AnnoyIndex[TV, TIX]
	if auto {
		idx = w.Build(w.Spec())
		w.T = 3 // for budgets only
	} else {
		idx = w.buildAny(c)
	}
	s := w.snap(c, idx, 12)
	path, path2 := c.File("a.ann"), c.File("b.ann")
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	if c.I%32 == 7 && !w.Big {
		c.Count("round trips of files above 1 MiB", 1)
	}
	b1, _ := os.ReadFile(path)
	s.compare(c, "after Save", idx)
	var open []interfaces.AnnoyIndex[TV, TIX]
	for _, heap := range []bool{false, true} {
		sp := w.Spec()
		sp.Seed += 17
		name := "loaded (mmap)"
		if heap {
			sp.IdxAlloc = memory.FileIndexMemoryAllocator()
			name = "loaded (heap)"
		}
		x := w.dirty(c, sp)
		err = x.Load(path)
		c.Check(err == nil, "Load: %v", err)
		s.compare(c, name, x)
		err = x.Save(path2)
		c.Check(err == nil, "Save of a loaded index: %v", err)
		b2, _ := os.ReadFile(path2)
		c.Check(bytes.Equal(b1, b2), "%s and saved again: %d bytes differ from the %d saved first", name, len(b2), len(b1))
		s.compare(c, name+" and saved again", x)
		open = append(open, x)
		c.Count("round trips", 1)
		c.Eval(w.S.N() > w.Cap, c.Name, name)
	}
	// once more over the same index object
	err = open[0].Load(path)
	c.Check(err == nil, "Load again: %v", err)
	s.compare(c, "loaded twice", open[0])
	b3, _ := os.ReadFile(path)
	c.Check(bytes.Equal(b1, b3), "the file changed while it was loaded")
	for _, x := range open {
		x.Close()
	}
	idx.Close()
	c.Clean()
	c.Sample("%v T=%d auto=%v: %d bytes, 12 queries, all items and 20 distances the same over 5 stages", w.S, w.T, auto, len(b1))
}

func c06[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if c.I%40 == 11 && !w.Big {
		w.S = genSet[TV, TIX](c.R, 1000+c.R.IntN(4000), w.S.F, In(c.R, "gauss", "cluster", "zeros", "scaled", "near", "dup"), w.S.Lay, k.Dot)
		c.Note("large: %v", w.S)
	}
	idx := w.buildAny(c)
	path := c.File("f.ann")
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	idx.Close()
	fo := readForestFile(c, path, w.S)
	if err := fo.Check(c, w.S, w.T); err != nil {
		c.Fail("%v", err)
	}
	c.Count("trees judged", int64(w.T))
	c.Count("nodes judged", int64(fo.N))
	c.Eval(w.S.N() > w.Cap, c.Name)
	c.Clean()
	c.Sample("%v T=%d: file of %d nodes is a consistent forest", w.S, w.T, fo.N)
}

// forestOf saves and reads an index.
func (w *world[TV, TIX]) forestOf(c *Case, idx interfaces.AnnoyIndex[TV, TIX], name string) (*Forest[TV, TIX], []byte) {
	path := c.File(name)
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	b, err := os.ReadFile(path)
	c.Check(err == nil, "reading back: %v", err)
	fo, err := readForest(b, w.S)
	c.Check(err == nil, "saved file: %v", err)
	if err := fo.Check(c, w.S, w.T); err != nil {
		c.Fail("%s: %v", name, err)
	}
	os.Remove(path)
	return fo, b
}

// countTrees counts the nodes with as many descendants as there are items: roots and their copies.
func (w *world[TV, TIX]) countTrees(c *Case, idx interfaces.AnnoyIndex[TV, TIX]) int {
	path := c.File("count.ann")
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	b, err := os.ReadFile(path)
	c.Check(err == nil, "reading back: %v", err)
	os.Remove(path)
	fo, err := readForest(b, w.S)
	c.Check(err == nil, "saved file: %v", err)
	n := 0
	for i := fo.M; i < fo.N; i++ {
		if fo.nd(i).Desc == fo.M {
			n++
		}
	}
	c.Check(n%2 == 0, "%d roots and copies of roots", n)
	return n / 2
}

// tieFree tells if the candidates of a limited search are determined: no two units of different
// trees tie at the threshold.
func (fo *Forest[TV, TIX]) tieFree(q []TV, budget int) bool {
	if fo.rootIsBucket() {
		return true
	}
	us := fo.Units(q)
	cum := 0
	for i, u := range us {
		cum += u.cnt
		if cum >= budget {
			for j, o := range us {
				if i != j && math.Abs(o.prio-u.prio) <= 2*(u.tol+o.tol) {
					return false
				}
			}
			return true
		}
	}
	return true
}

func (w *world[TV, TIX]) resolveBudget(q Query[TV, TIX]) int {
	if q.Budget == -1 {
		return q.NumReturn * w.T
	}
	return q.Budget
}

// c07large builds the same large set several times: thresholds above which work is shared out, or
// chosen by time, lie far above the sets of the other cases.
func c07large[TV VT, TIX IT](c *Case, k Combo) {
	f := In(c.R, 2, 3, 4, 8)
	n := In(c.R, 20000, 40000, 60000) + c.R.IntN(9000)
	w := &world[TV, TIX]{K: k, Cap: capacity[TV, TIX](f, k.Dot), T: 1, Seed: TIX(1 + c.R.IntN(1000))}
	w.S = genSet[TV, TIX](c.R, n, f, In(c.R, "gauss", "scaled", "cluster", "near"), In(c.R, "dense", "shuffled", "gap"), k.Dot)
	c.Note("%v", w.S)
	qs := w.queries(c, 4)
	var ref []byte
	var as []Ans[TV, TIX]
	for v := 0; v < 4; v++ {
		if v == 2 {
			old := runtime.GOMAXPROCS(1 + c.R.IntN(3))
			defer runtime.GOMAXPROCS(old)
		}
		idx := w.Build(w.Spec())
		a := askAll(idx, qs)
		p := c.File("l.ann")
		c.Check(idx.Save(p) == nil, "Save failed")
		b, err := os.ReadFile(p)
		infra("read", err)
		idx.Close()
		if v == 0 {
			ref, as = b, a
			continue
		}
		c.Check(bytes.Equal(b, ref), "build %d of %d items with the same seed differs from the first one", v, n)
		sameAnswers(c, fmt.Sprintf("build %d", v), qs, as, a)
		c.Count("single worker rebuilds of large sets", 1)
	}
	// several workers, a tree each
	w.T = 2
	var h []uint64
	for v := 0; v < 2; v++ {
		sp := w.Spec()
		sp.Policy = policy.MultiWorker()
		idx := sp.New()
		w.S.AddTo(idx)
		idx.Build(w.T, w.T)
		fo, _ := w.forestOf(c, idx, "l.ann")
		idx.Close()
		if v > 0 {
			c.Check(sameSlice(h, fo.Hashes()), "build %d of %d items by %d workers with the same seed gives other trees", v, n, w.T)
		}
		h = fo.Hashes()
		c.Count("multi worker rebuilds of large sets", 1)
	}
	c.Eval(true, c.Name)
	c.Clean()
}

func c07[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if w.S.N() < w.Cap+10 && c.R.IntN(3) > 0 {
		w.S = genSet[TV, TIX](c.R, w.Cap+10+c.R.IntN(200), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	general := w.S.N() >= w.Cap+10 && w.S.N() >= 30 && w.S.F >= 3 &&
		(w.S.Fam == "gauss" || w.S.Fam == "cluster" || w.S.Fam == "scaled" || w.S.Fam == "halfspace")
	distinct := func(fo *Forest[TV, TIX], what string) {
		if !general {
			return
		}
		hs := fo.Hashes()
		for i := 1; i < len(hs); i++ {
			c.Check(hs[i] != hs[i-1], "%s: two of the %d trees are identical", what, len(hs))
		}
		c.Count("forests of pairwise different trees", 1)
	}
	// one worker: same bytes
	a, b := w.Build(w.Spec()), w.Build(w.Spec())
	qs := w.queries(c, 6)
	sameAnswers(c, "second build", qs, askAll(a, qs), askAll(b, qs))
	fa, ba := w.forestOf(c, a, "a.ann")
	_, bb := w.forestOf(c, b, "b.ann")
	c.Check(bytes.Equal(ba, bb), "two builds with seed %d differ", w.Seed)
	distinct(fa, "one worker")
	a.Close()
	b.Close()
	c.Count("single worker rebuilds", 1)
	c.Eval(w.S.N() > w.Cap, c.Name, "single")
	if general {
		sp := w.Spec()
		sp.Seed += TIX(1000 + c.R.IntN(1000))
		d := w.Build(sp)
		fd, _ := w.forestOf(c, d, "d.ann")
		d.Close()
		c.Check(!sameSlice(fa.Hashes(), fd.Hashes()), "seeds %d and %d give the same forest", w.Seed, sp.Seed)
		c.Count("seed changes", 1)
	}
	// several workers: same trees and answers under every schedule
	if c.I%60 == 21 && w.S.F < 100 {
		w.S = genSet[TV, TIX](c.R, 1000+c.R.IntN(2000), w.S.F, In(c.R, "gauss", "cluster", "scaled", "near", "grid"), w.S.Lay, k.Dot)
		qs = w.queries(c, 6)
		general = false
		c.Note("large: %v", w.S)
		c.Count("multi worker rebuilds of large sets", 1)
	}
	W := In(c.R, 2, 2, 3, 4, 5, 8, 2+c.R.IntN(16), 2+c.R.IntN(16), 33+c.R.IntN(40))
	if W > 8 && c.R.IntN(2) == 0 {
		w.T = W + c.R.IntN(W) // at least a tree for every worker
	}
	var ref *Forest[TV, TIX]
	var refH []uint64
	var refA []Ans[TV, TIX]
	for v := 0; v < 4; v++ {
		sp := w.Spec()
		var s *sched
		what := "real policy"
		switch {
		case v >= 2:
			s = newSched(c, rand.New(rand.NewPCG(c.R.Uint64(), 1)))
			sp = schedSpec(s, sp, true)
			what = "scheduled"
		default:
			sp.Policy = policy.MultiWorker()
		}
		idx := sp.New()
		w.S.AddTo(idx)
		idx.Build(w.T, W)
		as := askAll(idx, qs)
		fo, _ := w.forestOf(c, idx, "m.ann")
		idx.Close()
		if s != nil {
			if len(s.errs) > 0 {
				c.Fail("scheduled build: %v", s.errs)
			}
			s.mem.release()
			c.Eval(w.S.N() > w.Cap, "trace", s.traceHash())
			c.Count("schedule switches", int64(s.switches))
		}
		distinct(fo, what)
		if ref == nil {
			ref, refH, refA = fo, fo.Hashes(), as
			continue
		}
		c.Check(sameSlice(refH, fo.Hashes()), "%s with %d workers: the trees differ from those of another run with the same seed", what, W)
		for i, q := range qs {
			if refA[i].Equal(as[i]) {
				c.Count("answers equal across schedules", 1)
				continue
			}
			if ref.tieFree(w.vec(q), w.resolveBudget(q)) {
				c.Fail("%s with %d workers: query %+v answered %v, in another run %v", what, W, q, as[i], refA[i])
			}
			c.Count("answers that differ at exact ties", 1)
		}
		c.Count("multi worker rebuilds", 1)
	}
	if general && W <= 16 {
		// seeds next to each other, and those whose bits make up the numbers of the workers
		sp := w.Spec()
		sp.Seed = In(c.R, w.Seed^1, w.Seed^1, w.Seed+1, w.Seed+TIX(W), w.Seed^TIX(1+c.R.IntN(W)), w.Seed+2)
		if sp.Seed != 0 {
			sp.Policy = policy.MultiWorker()
			idx := sp.New()
			w.S.AddTo(idx)
			idx.Build(w.T, W)
			fo, _ := w.forestOf(c, idx, "m.ann")
			idx.Close()
			c.Check(!sameSlice(refH, fo.Hashes()), "seeds %d and %d give the same trees with %d workers", w.Seed, sp.Seed, W)
			c.Count("seed changes with several workers", 1)
		}
	}
	c.Clean()
	c.Sample("%v T=%d: rebuilt twice with one worker and 4 times with %d workers under different schedules", w.S, w.T, W)
}

// build under the controlled scheduler, all monitors on.
func c08sched[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 150 {
		w.S = genSet[TV, TIX](c.R, 20+c.R.IntN(130), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	s := newSched(c, c.R)
	W := In(c.R, 2, 2, 3, 4, 6)
	if c.R.IntN(3) == 0 {
		w.T = W * (1 + c.R.IntN(3))
	}
	idx := schedSpec(s, w.Spec(), c.R.IntN(4) > 0).New()
	w.S.AddTo(idx)
	before := s.mem.calls
	idx.Build(w.T, W)
	c.Count("node memory moves during builds", int64(s.mem.calls-before))
	c.Count("schedule switches", int64(s.switches))
	c.Count("lock waits", int64(s.blocked))
	if len(s.errs) > 0 {
		c.Fail("%d workers, schedule strategy %d: %v", W, s.strategy, s.errs)
	}
	w.forestOf(c, idx, "s.ann")
	for j := 0; j < 2; j++ {
		q := w.query(c.R)
		ids, ds := idx.GetNnsByVector(q, 5, w.T*w.S.N(), idx.CreateContext())
		exact(c, w.S, q, ids, ds, 5)
	}
	idx.Close()
	s.mem.release()
	c.Clean()
	c.Eval(s.switches > W, "trace", s.traceHash())
	c.Count("scheduled builds", 1)
	c.Sample("%v T=%d W=%d strategy=%d: %d steps, %d switches, forest complete", w.S, w.T, W, s.strategy, s.steps, s.switches)
}

// jitter is the real policy with delays around its locks.
type jitter struct {
	interfaces.AnnoyIndexBuildPolicy
	mu sync.Mutex
	r  *rand.Rand
	on int
}

func (j *jitter) nap() {
	j.mu.Lock()
	x := j.r.IntN(100)
	j.mu.Unlock()
	switch {
	case x < j.on:
		time.Sleep(time.Duration(x) * time.Microsecond)
	case x < 3*j.on:
		runtime.Gosched()
	}
}

type jitterBuilder struct {
	j *jitter
	b interfaces.AnnoyIndexBuilder
}

func (b jitterBuilder) ThreadBuild(n, i int, _ interfaces.AnnoyIndexBuildPolicy) {
	b.j.nap()
	b.b.ThreadBuild(n, i, b.j)
	b.j.nap()
}
func (j *jitter) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	j.AnnoyIndexBuildPolicy.Build(jitterBuilder{j, b}, trees, workers)
}
func (j *jitter) LockNNodes()        { j.nap(); j.AnnoyIndexBuildPolicy.LockNNodes() }
func (j *jitter) LockNodes()         { j.nap(); j.AnnoyIndexBuildPolicy.LockNodes() }
func (j *jitter) LockSharedNodes()   { j.nap(); j.AnnoyIndexBuildPolicy.LockSharedNodes() }
func (j *jitter) LockRoots()         { j.nap(); j.AnnoyIndexBuildPolicy.LockRoots() }
func (j *jitter) UnlockNNodes()      { j.AnnoyIndexBuildPolicy.UnlockNNodes(); j.nap() }
func (j *jitter) UnlockNodes()       { j.AnnoyIndexBuildPolicy.UnlockNodes(); j.nap() }
func (j *jitter) UnlockSharedNodes() { j.AnnoyIndexBuildPolicy.UnlockSharedNodes(); j.nap() }
func (j *jitter) UnlockRoots()       { j.AnnoyIndexBuildPolicy.UnlockRoots(); j.nap() }

// c08real builds with the library's own multi worker policy. The memory is an ordinary Go heap
// allocation or an always moving one.
func c08real[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	n := 20 + c.R.IntN(200)
	if c.I%30 == 17 && w.S.F < 100 && !degenerate(w.S.Fam) {
		n = 1000 + c.R.IntN(3000)
		c.Count("real parallel builds of large sets", 1)
	}
	w.S = genSet[TV, TIX](c.R, n, w.S.F, w.S.Fam, w.S.Lay, k.Dot)
	W := In(c.R, 2, 3, 4, 8, 16, -1, In(c.R, 16, 31, 33, 64, 100))
	w.T = In(c.R, 4, 8, 16, 3, 1+c.R.IntN(12), -1)
	auto := w.T == -1
	sp := w.Spec()
	var mv *movingAlloc
	how := "plain"
	if c.R.IntN(2) == 0 {
		sp.Policy = policy.MultiWorker()
	} else {
		sp.Policy = &jitter{AnnoyIndexBuildPolicy: policy.MultiWorker(), r: rand.New(rand.NewPCG(c.R.Uint64(), 3)), on: In(c.R, 2, 10, 30)}
		how = "with delays"
	}
	if c.R.IntN(3) == 0 {
		mv = &movingAlloc{flushEnd: true}
		sp.Alloc = mv
		how += ", moving memory"
	}
	sp.Verbose = c.R.IntN(12) == 0 && n < 60
	c.Note("resized: %v W=%d T=%d %s verbose=%v", w.S, W, w.T, how, sp.Verbose)
	if sp.Verbose {
		defer quiet()()
	}
	idx := sp.New()
	w.S.AddTo(idx)
	idx.Build(w.T, W)
	if auto { // as many as the workers found time for
		w.T = w.countTrees(c, idx)
		c.Check(w.T >= 1, "no tree was built")
		c.Count("parallel builds of an automatic number of trees", 1)
	}
	fo, _ := w.forestOf(c, idx, "r.ann")
	q := w.query(c.R)
	ids, ds := idx.GetNnsByVector(q, 5, w.T*w.S.N(), idx.CreateContext())
	exact(c, w.S, q, ids, ds, 5)
	idx.Close()
	if mv != nil {
		mv.release()
	}
	c.Clean()
	c.Count("real parallel builds", 1)
	c.Eval(true, c.Name, W, w.T)
	c.Sample("%v T=%d W=%d %s: %d nodes, complete", w.S, w.T, W, how, fo.N)
}

// quiet sends standard output to nowhere until the returned function is called.
func quiet() func() {
	o := os.Stdout
	n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	infra("devnull", err)
	os.Stdout = n
	return func() { os.Stdout = o; n.Close() }
}

// c25 judges the lock protocol itself.
func c25[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 120 {
		w.S = genSet[TV, TIX](c.R, 2+c.R.IntN(118), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	s := newSched(c, c.R)
	W := In(c.R, 1, 2, 2, 3, 4, 5)
	sp := schedSpec(s, w.Spec(), true)
	if c.R.IntN(8) == 0 && w.S.N() < 60 {
		sp.Verbose = true
		defer quiet()()
	}
	if c.R.IntN(3) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(4*w.S.NItems()))
	}
	if c.R.IntN(3) == 0 {
		s.handles = true
		c.Count("builds with a policy of its own for each worker", 1)
	}
	idx := sp.New()
	w.S.AddTo(idx)
	if c.R.IntN(5) == 0 {
		w.T = -1
	}
	idx.Build(w.T, W)
	if len(s.errs) > 0 {
		c.Fail("%d workers, strategy %d: %v", W, s.strategy, s.errs)
	}
	if cyc := s.lockCycle(); cyc != "" {
		c.Fail("the workers request locks in a cyclic order: %s", cyc)
	}
	c.Check(s.builds == 1, "the policy's Build was called %d times", s.builds)
	c.Count("node accesses judged", int64(s.accesses))
	c.Count("lock operations judged", int64(s.steps))
	c.Count("reallocations judged", int64(s.inExcl))
	for e := range s.edges {
		c.Count("lock order "+e, 1)
	}
	idx.Close()
	s.mem.release()
	c.Eval(s.accesses > 0 && s.steps > 10, "trace", s.traceHash())
	c.Sample("%v T=%d W=%d: %d lock operations, %d node accesses, %d reallocations followed the protocol", w.S, w.T, W, s.steps, s.accesses, s.inExcl)
}
