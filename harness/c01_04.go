package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

func init() {
	checks["C01"] = func(e *Env) {
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c01[float32, uint32], c01[float32, uint64], c01[float64, uint32], c01[float64, uint64])(c, k)
		})
	}
	checks["C02"] = func(e *Env) {
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c02[float32, uint32], c02[float32, uint64], c02[float64, uint32], c02[float64, uint64])(c, k)
		})
	}
	checks["C03"] = func(e *Env) {
		e.Loop(1600, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c03[float32, uint32], c03[float32, uint64], c03[float64, uint32], c03[float64, uint64])(c, k)
		})
	}
	checks["C04"] = func(e *Env) {
		e.Loop(1200, func(c *Case) {
			k := ComboOf(c.I)
			if c.I%40 == 39 {
				pick(k, c04recall[float32, uint32], c04recall[float32, uint64], c04recall[float64, uint32], c04recall[float64, uint64])(c, k)
				return
			}
			pick(k, c04[float32, uint32], c04[float32, uint64], c04[float64, uint32], c04[float64, uint64])(c, k)
		})
	}
}

// variants yields the index in its life stages: freshly built, after Save (it reloads itself), and
// loaded into other indexes by both allocators. The built index is closed at the end.
func (w *world[TV, TIX]) variants(c *Case, idx interfaces.AnnoyIndex[TV, TIX], f func(stage string, x interfaces.AnnoyIndex[TV, TIX])) {
	f("built", idx)
	path := c.File("v.ann")
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	sp := w.Spec()
	if w.Big { // one of the stages
		heap := c.R.IntN(2) == 0
		if heap {
			sp.IdxAlloc = memory.FileIndexMemoryAllocator()
		}
		a := sp.New()
		err = a.Load(path)
		c.Check(err == nil, "Load: %v", err)
		f(map[bool]string{true: "loaded (heap)", false: "loaded (mmap)"}[heap], a)
		a.Close()
		idx.Close()
		c.Clean()
		return
	}
	f("saved", idx)
	a := sp.New()
	err = a.Load(path)
	c.Check(err == nil, "Load (mmap): %v", err)
	f("loaded (mmap)", a)
	sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	b := sp.New()
	err = b.Load(path)
	c.Check(err == nil, "Load (heap): %v", err)
	f("loaded (heap)", b)
	a.Close()
	b.Close()
	idx.Close()
	c.Clean()
}

// buildAny builds with a random policy and worker count.
func (w *world[TV, TIX]) buildAny(c *Case) interfaces.AnnoyIndex[TV, TIX] {
	sp := w.Spec()
	workers := 1
	how := "single"
	switch c.R.IntN(4) {
	case 0:
		sp.Policy = policy.MultiWorker()
		workers = In(c.R, 1, 2, 3, 4, 8, In(c.R, 5, 6, 7, 16, 33, 70))
		how = fmt.Sprintf("multi/%d", workers)
	}
	if c.R.IntN(4) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(2*w.S.NItems()+2))
	}
	idx := sp.New()
	w.S.AddTo(idx)
	idx.Build(w.T, workers)
	c.Note("policy %s hint %d", how, sp.Hint)
	return idx
}

func c01[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if c.I%50 == 17 && !w.Big {
		w.S = genSet[TV, TIX](c.R, 1500+c.R.IntN(2500), w.S.F, In(c.R, "gauss", "cluster", "zeros", "scaled"), w.S.Lay, k.Dot)
		c.Note("large: %v", w.S)
	}
	idx := w.buildAny(c)
	N := w.S.N()
	full := w.T * N
	nq := 6
	if N > 1000 {
		nq = 2
	}
	w.variants(c, idx, func(stage string, x interfaces.AnnoyIndex[TV, TIX]) {
		ctx := x.CreateContext()
		for j := 0; j < nq; j++ {
			nr := In(c.R, 1, 2, 10, N-1, N, N+5, 1<<20, math.MaxInt, 1+c.R.IntN(N))
			if nr < 1 {
				nr = 1
			}
			b := In(c.R, full, full, full+1, 2*full+100, math.MaxInt32, math.MaxInt64)
			q := w.query(c.R)
			var ids []TIX
			var ds []TV
			if c.R.IntN(3) == 0 {
				it := w.S.Ids()[c.R.IntN(N)]
				q = w.S.V[it]
				ids, ds = x.GetNnsByItem(it, nr, b, ctx)
			} else {
				ids, ds = x.GetNnsByVector(append([]TV(nil), q...), nr, b, ctx)
			}
			c.Note("%s: query %v numReturn=%d budget=%d", stage, q, nr, b)
			exact(c, w.S, q, ids, ds, nr)
			c.Count("queries "+stage, 1)
			c.Eval(N > w.Cap && nr < N, c.Name, stage, j)
			c.notes = c.notes[:len(c.notes)-1]
		}
	})
	c.Count("combo "+k.String(), 1)
	c.Sample("%v T=%d: full-budget answers equal brute force, %d queries on each of 4 stages", w.S, w.T, nq)
}

func c02[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	idx := w.buildAny(c)
	N := w.S.N()
	w.variants(c, idx, func(stage string, x interfaces.AnnoyIndex[TV, TIX]) {
		ctx := x.CreateContext()
		for j, q := range w.queries(c, 8) {
			if c.R.IntN(8) == 0 {
				q.NumReturn = 0
			}
			a := q.Ask(x, ctx)
			c.Note("%s: %+v", stage, q)
			wellFormed(c, w.S, w.vec(q), a.Ids, a.Ds, q.NumReturn)
			c.notes = c.notes[:len(c.notes)-1]
			c.Eval(len(a.Ids) >= 2, c.Name, stage, j)
			if q.Budget >= 0 && q.Budget < N*w.T {
				c.Count("partial budget answers", 1)
			}
			if w.S.NItems() > N {
				c.Count("answers on sets with gaps", 1)
			}
		}
	})
	c.Count("family "+w.S.Fam, 1)
	c.Sample("%v T=%d: answers of 8 mixed queries on 4 stages judged", w.S, w.T)
}

func idSet[TIX IT](ids []TIX) map[TIX]bool {
	m := make(map[TIX]bool, len(ids))
	for _, x := range ids {
		m[x] = true
	}
	return m
}

func c03[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	idx := w.buildAny(c)
	N, T := w.S.N(), w.T
	w.variants(c, idx, func(stage string, x interfaces.AnnoyIndex[TV, TIX]) {
		ctx := x.CreateContext()
		rounds, steps := 3, 8
		if w.Big {
			rounds, steps = 1, 2
		}
		for j := 0; j < rounds; j++ {
			q := w.query(c.R)
			// ascending budgets
			var bs []int
			for i := 0; i < steps; i++ {
				bs = append(bs, 1+c.R.IntN(N*T))
			}
			bs = append(bs, 0, 1, 2, T, N, N*T-1, N*T)
			sort.Ints(bs)
			prev := map[TIX]bool{}
			var prevD []TV
			for _, b := range bs {
				if b < 0 {
					continue
				}
				ids, ds := x.GetNnsByVector(q, N+1, b, ctx)
				lo := min(N, (b+T-1)/T)
				c.Check(len(ids) >= lo, "%s: budget %d on %d trees of %d items gave only %d items, at least %d expected", stage, b, T, N, len(ids), lo)
				c.Check(len(ids) < b+w.Cap, "%s: budget %d gave %d items, bucket capacity is %d", stage, b, len(ids), w.Cap)
				cur := idSet(ids)
				for id := range prev {
					c.Check(cur[id], "%s: raising the budget to %d lost item %d", stage, b, id)
				}
				for i := range prevD {
					c.Check(i < len(ds), "%s: raising the budget to %d shortened the answer", stage, b)
					if w.S.Dot {
						c.Check(ds[i] >= prevD[i], "%s: raising the budget to %d made neighbour %d farther: %v -> %v", stage, b, i, prevD[i], ds[i])
					} else {
						c.Check(ds[i] <= prevD[i], "%s: raising the budget to %d made neighbour %d farther: %v -> %v", stage, b, i, prevD[i], ds[i])
					}
				}
				c.Eval(len(ids) < N, c.Name, stage, j, b)
				c.Count("budgets judged", 1)
				if len(ids) > len(prev) {
					c.Count("budget steps that found more", 1)
				}
				prev, prevD = cur, ds
			}
			// a smaller numReturn is a prefix of the same candidates
			b := bs[c.R.IntN(len(bs))]
			all, allD := x.GetNnsByVector(q, N+1, b, ctx)
			nr := 1 + c.R.IntN(N)
			part, partD := x.GetNnsByVector(q, nr, b, ctx)
			c.Check(len(part) == min(nr, len(all)), "%s: numReturn %d of %d candidates gave %d results", stage, nr, len(all), len(part))
			for i := range part {
				c.Check(partD[i] == allD[i], "%s: numReturn %d gives distance %v at %d, asking for all %v", stage, nr, partD[i], i, allD[i])
			}
			// any number may be asked for
			for _, nr := range []int{math.MaxInt, math.MaxInt/2 + 1, math.MaxInt/T + 1, 1 << 62, math.MaxInt32} {
				if nr < N {
					continue
				}
				i1, d1 := x.GetNnsByVector(q, nr, -1, ctx)
				i2, d2 := x.GetNnsByVector(q, nr, N*T, ctx)
				c.Check(len(i1) == N && sameSlice(i1, i2) && sameBits(d1, d2), "%s: budget -1 with numReturn %d answers %d of %d items", stage, nr, len(i1), N)
				c.Count("huge numbers of neighbours judged", 1)
			}
			// the default budget
			for _, nr := range []int{1, 2, 1 + c.R.IntN(N), N, N + 3, 0} {
				i1, d1 := x.GetNnsByVector(q, nr, -1, ctx)
				i2, d2 := x.GetNnsByVector(q, nr, nr*T, ctx)
				c.Check(sameSlice(i1, i2) && sameBits(d1, d2), "%s: budget -1 with numReturn %d answers %v, budget %d answers %v", stage, nr, i1, nr*T, i2)
				// tell the default apart from other budgets: count the candidates behind it
				c.Count("default budgets judged", 1)
			}
		}
	})
	c.Sample("%v T=%d: ascending budgets bounded and monotone", w.S, w.T)
}

// c04 compares the candidates with the best-first model over the saved forest.
func c04[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	// needs splits
	if w.S.N() <= w.Cap+1 {
		w.S = genSet[TV, TIX](c.R, w.Cap+2+c.R.IntN(8*w.Cap+40), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	idx := w.buildAny(c)
	N, T := w.S.N(), w.T
	path := c.File("c04.ann")
	type asked struct {
		q       []TV
		b       int
		ids     []TIX
		self    bool
		item    TIX
		selfAns []TIX
	}
	var log []asked
	ask := func(x interfaces.AnnoyIndex[TV, TIX]) {
		ctx := x.CreateContext()
		for j := 0; j < 8; j++ {
			a := asked{q: w.query(c.R), b: In(c.R, 1, 2, 1+c.R.IntN(10), 1+c.R.IntN(N*T), 1+c.R.IntN(N))}
			a.ids, _ = x.GetNnsByVector(a.q, N+1, a.b, ctx)
			log = append(log, a)
		}
		for j := 0; j < 6; j++ {
			a := asked{self: true, item: w.S.Ids()[c.R.IntN(N)], b: 1}
			a.q = w.S.V[a.item]
			a.ids, _ = x.GetNnsByItem(a.item, N+1, 1, ctx)
			a.selfAns, _ = x.GetNnsByItem(a.item, 1, 1, ctx)
			log = append(log, a)
		}
	}
	ask(idx)
	nBuilt := len(log)
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	ask(idx)
	fo := readForestFile(c, path, w.S)
	if err := fo.Check(c, w.S, T); err != nil {
		// C06's business; without a readable forest there is no model
		c.Count("unreadable forests", 1)
		c.Fail("the saved forest cannot be searched: %v", err)
	}
	idx.Close()
	c.Clean()
	for i, a := range log {
		stage := "built"
		if i >= nBuilt {
			stage = "loaded"
		}
		us := fo.Units(a.q)
		cum := 0
		th, tol := math.Inf(-1), 0.0
		for _, u := range us {
			tol = math.Max(tol, u.tol)
		}
		for _, u := range us {
			cum += u.cnt
			if cum >= a.b {
				th = u.prio
				break
			}
		}
		must, may := map[TIX]bool{}, map[TIX]bool{}
		for _, u := range us {
			for _, id := range u.ids {
				if u.prio > th+2*tol {
					must[id] = true
				}
				if u.prio >= th-2*tol {
					may[id] = true
				}
			}
		}
		got := idSet(a.ids)
		for id := range must {
			c.Check(got[id], "%s: budget %d: item %d lies in a subtree better than the last one inspected (threshold %v) but is no candidate; query %v", stage, a.b, id, th, a.q)
		}
		for id := range got {
			c.Check(may[id], "%s: budget %d: item %d is a candidate although better subtrees were left out (threshold %v); query %v", stage, a.b, id, th, a.q)
		}
		c.Eval(len(may) < N && len(must) > 0, c.Name, i)
		if len(may) < N {
			c.Count("selective searches judged", 1)
		}
		c.Count("candidates judged", int64(len(got)))
		if a.self {
			// is there a tree that surely leads to the item itself?
			sure := false
			for _, u := range us {
				if u.prio > 2*tol && u.prio > 0 {
					for _, id := range u.ids {
						if id == a.item {
							sure = true
						}
					}
				}
			}
			if sure {
				_, t := refKey(w.S.Dot, a.q, a.q)
				// the first unit inspected lies on the item's own path in some tree, hence holds it
				c.Check(got[a.item], "%s: item %d is not found by its own vector with budget 1", stage, a.item)
				if !w.S.Dot {
					c.Check(len(a.selfAns) == 1, "%s: no answer for item %d", stage, a.item)
					kk, _ := refKey(false, a.q, w.S.V[a.selfAns[0]])
					zero := true
					for _, x := range a.q {
						if x != 0 {
							zero = false
						}
					}
					c.Check(zero || kk <= 2*t, "%s: nearest to item %d with budget 1 is %d at %v", stage, a.item, a.selfAns[0], kk)
				}
				c.Count("self queries judged", 1)
			}
		}
	}
	c.Sample("%v T=%d: %d searches match the best-first model", w.S, T, len(log))
}

// c04recall: floors far below what best-first search reaches, far above what any other order does.
func c04recall[TV VT, TIX IT](c *Case, k Combo) {
	f := In(c.R, 16, 24, 32)
	n := 2500
	s := newSet[TV, TIX](f, k.Dot)
	// 50 clusters of 50
	var cs [][]float64
	for i := 0; i < 50; i++ {
		v := make([]float64, f)
		for j := range v {
			v[j] = c.R.NormFloat64()
		}
		if k.Dot { // equal norms: inner product neighbours are angular neighbours
			nn := 0.0
			for _, x := range v {
				nn += x * x
			}
			for j := range v {
				v[j] *= 4 / math.Sqrt(nn)
			}
		}
		cs = append(cs, v)
	}
	for i := 0; i < n; i++ {
		v := make([]TV, f)
		for j := range v {
			v[j] = TV(cs[i%50][j] + 0.1*c.R.NormFloat64())
		}
		s.put(TIX(i), v)
	}
	s.Fam, s.Lay = "50 clusters", "dense"
	w := &world[TV, TIX]{K: k, S: s, T: 10, Seed: TIX(1 + c.R.IntN(1<<30))}
	c.Note("%v", s)
	idx := w.Build(w.Spec())
	ctx := idx.CreateContext()
	hit, tot, self := 0, 0, 0
	const Q = 60
	for i := 0; i < Q; i++ {
		it := TIX(c.R.IntN(n))
		ref := refOrder(s, s.V[it])
		ids, _ := idx.GetNnsByItem(it, 10, 100, ctx) // 100 of 25000 candidates
		got := idSet(ids)
		for _, x := range ref[:10] {
			if got[x.id] {
				hit++
			}
			tot++
		}
		if got[it] {
			self++
		}
	}
	idx.Close()
	rec := float64(hit) / float64(tot)
	c.Note("recall %v self %d/%d", rec, self, Q)
	c.Check(rec >= 0.50, "recall@10 with a budget of 100 of 25000 candidates is %v", rec)
	if !k.Dot {
		c.Check(self >= Q*9/10, "only %d of %d items found themselves", self, Q)
	}
	c.Count("recall tests", 1)
	c.Max("recall permille", int64(rec*1000))
	c.Min("recall permille", int64(rec*1000))
	c.Eval(true, c.Name)
}
