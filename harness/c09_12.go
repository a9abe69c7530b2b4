package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	gsort "github.com/mariotoffia/goannoy/sort"
)

func init() {
	checks["C09"] = func(e *Env) {
		n := 600
		if e.Mode == "race" {
			n = 120
		}
		e.Loop(n, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c09[float32, uint32], c09[float32, uint64], c09[float64, uint32], c09[float64, uint64])(c, k)
		})
	}
	checks["C10"] = func(e *Env) {
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c10[float32, uint32], c10[float32, uint64], c10[float64, uint32], c10[float64, uint64])(c, k)
		})
	}
	checks["C11"] = func(e *Env) {
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c11[float32, uint32], c11[float32, uint64], c11[float64, uint32], c11[float64, uint64])(c, k)
		})
	}
	checks["C12"] = func(e *Env) {
		e.Loop(1600, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c12[float32, uint32], c12[float32, uint64], c12[float64, uint32], c12[float64, uint64])(c, k)
		})
	}
}

// sorters are the sorters the library provides.
func sorters[TV VT, TIX IT]() (names []string, out []interfaces.Sorter[TV, TIX]) {
	ss := []func([]TIX){gsort.SortSlice[TIX], gsort.SortSlice2[TIX], gsort.SortSlice3[TIX]}
	sp := []func([]*interfaces.Pair[TV, TIX]){gsort.SortPairs[TV, TIX], func(p []*interfaces.Pair[TV, TIX]) { gsort.SortPairs2[TV, TIX](p) }}
	ps := []func(interfaces.Pairs[TV, TIX], int, int, int){gsort.PartialSortSlice[TV, TIX], gsort.PartialSortSlice2[TV, TIX]}
	for i := range ss {
		for j := range sp {
			for l := range ps {
				names = append(names, fmt.Sprintf("SortSlice#%d SortPairs#%d PartialSortSlice#%d", i+1, j+1, l+1))
				out = append(out, &interfaces.SorterFunctions[TV, TIX]{SortSliceFunc: ss[i], SortPairsFunc: sp[j], PartialSortSliceFunc: ps[l]})
			}
		}
	}
	return
}

// slowSorter widens the window between the steps of a search.
type slowSorter[TV VT, TIX IT] struct {
	in interfaces.Sorter[TV, TIX]
	mu *sync.Mutex
	r  *rand.Rand
}

func (s *slowSorter[TV, TIX]) nap() {
	s.mu.Lock()
	x := s.r.IntN(20)
	s.mu.Unlock()
	switch {
	case x < 1:
		time.Sleep(20 * time.Microsecond)
	case x < 12:
		runtime.Gosched()
	}
}
func (s *slowSorter[TV, TIX]) SortSlice(x []TIX)                       { s.nap(); s.in.SortSlice(x); s.nap() }
func (s *slowSorter[TV, TIX]) SortPairs(p []*interfaces.Pair[TV, TIX]) { s.nap(); s.in.SortPairs(p) }
func (s *slowSorter[TV, TIX]) PartialSortSlice(p interfaces.Pairs[TV, TIX], b, m, e int) {
	s.nap()
	s.in.PartialSortSlice(p, b, m, e)
	s.nap()
}

// nothing of a slow sorter synchronizes the queries beyond its own lock; the race detector sees
// those as ordering, so a part of the cases runs without it.

func c09[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	sp := w.Spec()
	slow := c.R.IntN(2) == 0
	if slow {
		_, ss := sorters[TV, TIX]()
		sp.Sorter = &slowSorter[TV, TIX]{in: ss[0], mu: &sync.Mutex{}, r: rand.New(rand.NewPCG(c.R.Uint64(), 5))}
	}
	if c.R.IntN(2) == 0 {
		sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	}
	idx := w.Build(sp)
	stage := "built"
	if c.R.IntN(2) == 0 {
		stage = "saved"
		err := idx.Save(c.File("x.ann"))
		c.Check(err == nil, "Save: %v", err)
		if c.R.IntN(2) == 0 {
			stage = "loaded"
			idx.Close()
			idx = sp.New()
			err := idx.Load(c.File("x.ann"))
			c.Check(err == nil, "Load: %v", err)
		}
	}
	qs := w.queries(c, 24)
	// cold: the index is first used by the goroutines, the sequential answers come afterwards
	cold := c.R.IntN(2) == 0
	want := make([]Ans[TV, TIX], len(qs))
	if !cold {
		for i, q := range qs {
			want[i] = q.Ask(idx, nil)
		}
	}
	ids := w.S.Ids()
	type pd struct {
		i, j TIX
		d    TV
	}
	var pds []pd
	for j := 0; j < 12; j++ {
		a, b := ids[c.R.IntN(len(ids))], ids[c.R.IntN(len(ids))]
		pds = append(pds, pd{i: a, j: b})
		if !cold {
			pds[j].d = idx.GetDistance(a, b)
		}
	}
	type kept struct {
		i int
		a Ans[TV, TIX]
	}
	G := In(c.R, 2, 4, 8, 12)
	rounds := 30
	if c.Mode == "race" {
		rounds = 15
	}
	colds, coldDs := make([][]kept, G), make([][]pd, G)
	// some contexts are those of an index that was still empty
	early := c.R.IntN(3) == 0
	earlyCtx := make([]interfaces.AnnoyIndexContext[TV, TIX], G)
	for i := range earlyCtx {
		earlyCtx[i] = w.Spec().New().CreateContext()
	}
	if early {
		c.Count("parallel queries with contexts of an empty index", 1)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	errs := make(chan string, G)
	for g := 0; g < G; g++ {
		wg.Add(1)
		r := rand.New(rand.NewPCG(c.R.Uint64(), uint64(g)))
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs <- fmt.Sprintf("goroutine %d panicked: %v", g, x)
				}
			}()
			<-start
			ctx := idx.CreateContext()
			if early && g%2 == 0 {
				ctx = earlyCtx[g/2]
			}
			var old []kept
			var oldD []pd
			for n := 0; n < rounds; n++ {
				switch r.IntN(8) {
				case 0:
					id := ids[r.IntN(len(ids))]
					if !sameBits(idx.GetItem(id), w.S.V[id]) {
						errs <- fmt.Sprintf("item %d reads %v", id, idx.GetItem(id))
						return
					}
				case 1:
					p := pds[r.IntN(len(pds))]
					if d := idx.GetDistance(p.i, p.j); cold {
						oldD = append(oldD, pd{p.i, p.j, d})
					} else if d != p.d {
						errs <- fmt.Sprintf("distance %d-%d is %v, sequentially %v", p.i, p.j, d, p.d)
						return
					}
				case 2:
					if r.IntN(4) == 0 {
						ctx = idx.CreateContext()
					}
				default:
					i := r.IntN(len(qs))
					a := qs[i].Ask(idx, ctx)
					if !cold && !a.Equal(want[i]) {
						errs <- fmt.Sprintf("query %+v answered %v in parallel, %v sequentially", qs[i], a, want[i])
						return
					}
					old = append(old, kept{i, a})
				}
			}
			if cold {
				colds[g], coldDs[g] = old, oldD
				return
			}
			for _, o := range old {
				if !o.a.Equal(want[o.i]) {
					errs <- fmt.Sprintf("the answer of query %+v changed later to %v", qs[o.i], o.a)
					return
				}
			}
			c.Count("parallel queries judged", int64(len(old)))
		}()
	}
	close(start)
	wg.Wait()
	select {
	case e := <-errs:
		c.Fail("%s, %d goroutines: %s", stage, G, e)
	default:
	}
	if cold {
		for i, q := range qs {
			want[i] = q.Ask(idx, nil)
		}
		for g := range colds {
			for _, o := range colds[g] {
				c.Check(o.a.Equal(want[o.i]), "%s, %d goroutines: query %+v, among the first ones of the index, answered %v in parallel, %v afterwards", stage, G, qs[o.i], o.a, want[o.i])
			}
			for _, p := range coldDs[g] {
				d := idx.GetDistance(p.i, p.j)
				c.Check(d == p.d, "%s, %d goroutines: distance %d-%d was %v in parallel, is %v afterwards", stage, G, p.i, p.j, p.d, d)
			}
			c.Count("parallel queries judged", int64(len(colds[g])))
			c.Count("cold parallel queries judged", int64(len(colds[g])))
		}
	}
	// the index is as before
	sameAnswers(c, "after the parallel queries", qs, want, askAll(idx, qs))
	idx.Close()
	c.Clean()
	c.Eval(w.S.N() > 3, c.Name, G, stage)
	c.Count("stage "+stage, 1)
	c.Sample("%v T=%d %s: %d goroutines x %d operations agree with the sequential answers", w.S, w.T, stage, G, rounds)
}

// rawBits gives the bit pattern of a value.
func rawBits[TV VT](x TV) uint64 {
	if unsafe.Sizeof(x) == 4 {
		return uint64(*(*uint32)(unsafe.Pointer(&x)))
	}
	return *(*uint64)(unsafe.Pointer(&x))
}

func sameRaw[TV VT](a, b []TV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if rawBits(a[i]) != rawBits(b[i]) {
			return false
		}
	}
	return true
}

func fromBits[TV VT](u uint64) TV {
	var x TV
	if unsafe.Sizeof(x) == 4 {
		v := uint32(u)
		return *(*TV)(unsafe.Pointer(&v))
	}
	return *(*TV)(unsafe.Pointer(&u))
}

func c10[TV VT, TIX IT](c *Case, k Combo) {
	f := pickF(c.R)
	wild := c.R.IntN(3) == 0 // any bit pattern; such sets are stored, not built
	sp := Spec[TV, TIX]{F: f, Dot: k.Dot, Seed: TIX(1 + c.R.IntN(1000))}
	if c.R.IntN(3) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(200))
	}
	var mv *movingAlloc
	if c.R.IntN(3) == 0 {
		mv = &movingAlloc{flushEnd: c.R.IntN(2) == 0}
		sp.Alloc = mv
	}
	if c.R.IntN(2) == 0 {
		sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	}
	c.Note("f=%d wild=%v hint=%d moving=%v %v", f, wild, sp.Hint, mv != nil, k)
	idx := sp.New()
	model := map[TIX][]TV{}
	hi := -1
	vec := func() []TV {
		if wild {
			v := make([]TV, f)
			for i := range v {
				v[i] = fromBits[TV](In(c.R, c.R.Uint64(), 0, 1, 1<<63|1<<31, 0x7f800000, 0x7fc00001))
			}
			return v
		}
		return genVectors[TV](c.R, 1, f, In(c.R, "gauss", "zeros", "grid", "scaled"))[0]
	}
	zero := make([]TV, f)
	check := func(when string, id TIX) {
		g := idx.GetItem(id)
		want, ok := model[id]
		if !ok {
			want = zero
			c.Count("gap reads", 1)
		}
		if !sameRaw(g, want) {
			c.Fail("%s: item %d reads %v, added was %v (known=%v)", when, id, g, want, ok)
		}
		c.Count("item reads judged", 1)
	}
	all := func(when string) {
		for id := 0; id <= hi; id++ {
			check(when, TIX(id))
		}
		for id := hi + 1; id < hi+3; id++ {
			if did, _ := Panics(func() { idx.GetItem(TIX(id)) }); !did {
				c.Fail("%s: item %d can be read although the highest id is %d", when, id, hi)
			}
		}
	}
	n := 0
	for life := c.R.IntN(3); life < 3; life++ { // a closed index starts again
		model, hi = map[TIX][]TV{}, -1
		n = 1 + c.R.IntN(120)
		if c.R.IntN(12) == 0 {
			n = 600 + c.R.IntN(1500)
		}
		span := 1 + c.R.IntN(3*n)
		if c.I%400 == 200 && life == 2 && f <= 10 {
			// ids of more than 16 bits
			n, span = 2000+c.R.IntN(2000), 66000+c.R.IntN(70000)
			c.Count("lives with ids of more than 16 bits", 1)
		}
		next := 0
		for i := 0; i < n; i++ {
			id := 0
			switch c.R.IntN(4) {
			case 0:
				id = c.R.IntN(span)
			case 1:
				if hi >= 0 {
					id = c.R.IntN(hi + 1)
				}
			default:
				id = next
				next++
			}
			v := vec()
			cp := append([]TV(nil), v...)
			idx.AddItem(TIX(id), v)
			c.Check(sameRaw(v, cp), "AddItem(%d) changed the caller's slice", id)
			if _, ok := model[TIX(id)]; ok {
				c.Count("overwrites", 1)
			}
			model[TIX(id)] = cp
			hi = max(hi, id)
			// the caller reuses its slice
			for j := range v {
				v[j] = TV(12345 + i)
			}
			check("right after adding", TIX(id))
			check("while adding", TIX(c.R.IntN(hi+1)))
			if c.R.IntN(max(40, span/20)) == 0 {
				all("while adding")
			}
		}
		all("after adding")
		c.Eval(hi >= 1, c.Name)
		if !wild {
			idx.Build(1+c.R.IntN(5), 1)
			all("built")
			for j := 0; j < 5; j++ {
				q := vec()
				idx.GetNnsByVector(q, 1+c.R.IntN(10), c.R.IntN(100), idx.CreateContext())
			}
			all("after queries")
			p := c.File("i.ann")
			err := idx.Save(p)
			c.Check(err == nil, "Save: %v", err)
			all("saved")
			idx2 := idx
			idx = Spec[TV, TIX]{F: f, Dot: k.Dot, IdxAlloc: In[interfaces.IndexAllocator](c.R, memory.MmapIndexAllocator(), memory.FileIndexMemoryAllocator())}.New()
			err = idx.Load(p)
			c.Check(err == nil, "Load: %v", err)
			all("loaded")
			idx.Close()
			idx2.Close()
			idx = idx2
			c.Count("life cycles", 1)
		} else {
			idx.Close()
			c.Count("bit pattern sets", 1)
		}
		if life > 0 {
			c.Count("second lives", 1)
		}
	}
	if mv != nil {
		mv.release()
	}
	c.Clean()
	c.Sample("%v f=%d n=%d highest=%d wild=%v: every read equal to the model", k, f, n, hi, wild)
}

func c11[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	// nearly parallel and opposite companions
	ids := w.S.Ids()
	hi := w.S.Max
	for j := 0; j < 6; j++ {
		v := w.S.V[ids[c.R.IntN(len(ids))]]
		s := In(c.R, 1.0, -1.0, 3.0, 1/3.0, 0.1, -7.3)
		u := make([]TV, len(v))
		for i := range u {
			u[i] = TV(float64(v[i]) * s * (1 + In(c.R, 0.0, 1, -1)*2*eps[TV]()))
		}
		hi++
		w.S.put(hi, u)
	}
	w.S.put(hi+1, make([]TV, w.S.F))
	idx := w.Spec().New()
	w.S.AddTo(idx)
	ids = w.S.Ids()
	judge := func(stage string, x interfaces.AnnoyIndex[TV, TIX], n int) {
		for t := 0; t < n; t++ {
			i, j := ids[c.R.IntN(len(ids))], ids[c.R.IntN(len(ids))]
			if c.R.IntN(6) == 0 {
				j = i
			}
			d, e := float64(x.GetDistance(i, j)), float64(x.GetDistance(j, i))
			c.Check(!math.IsNaN(d) && !math.IsNaN(e), "%s: distance %d-%d is %v / %v", stage, i, j, d, e)
			lo, hi := refDist(k.Dot, w.S.V[i], w.S.V[j])
			c.Check(d >= lo && d <= hi, "%s: distance %d-%d is %v, the metric says [%v,%v]: %v %v", stage, i, j, d, lo, hi, w.S.V[i], w.S.V[j])
			c.Check(e >= lo && e <= hi, "%s: distance %d-%d is %v, the other way round %v", stage, i, j, d, e)
			if !k.Dot {
				c.Check(d >= 0 && d <= 2*(1+1e-6), "%s: distance %v outside [0,2]", stage, d)
			}
			c.Eval(i != j, c.Name, stage, i, j)
			c.Count("distances judged "+stage, 1)
		}
	}
	judge("filled", idx, 30)
	idx.Build(w.T, 1)
	w.variants(c, idx, func(stage string, x interfaces.AnnoyIndex[TV, TIX]) {
		judge(stage, x, 30)
		// queries report the same values
		i := ids[c.R.IntN(len(ids))]
		nn, ds := x.GetNnsByItem(i, len(ids), len(ids)*w.T, x.CreateContext())
		for p, id := range nn {
			lo, hi := refDist(k.Dot, w.S.V[i], w.S.V[id])
			d, e := float64(ds[p]), float64(x.GetDistance(i, id))
			c.Check(d >= lo && d <= hi, "%s: query reports %d-%d at %v, GetDistance %v, the metric says [%v,%v]", stage, i, id, d, e, lo, hi)
			c.Check(e >= lo && e <= hi, "%s: GetDistance %d-%d is %v, the metric says [%v,%v]", stage, i, id, e, lo, hi)
		}
		c.Count("query distances judged", int64(len(nn)))
	})
	c.Count("family "+w.S.Fam, 1)
	c.Sample("%v: 150 pairs on 5 stages within the metric's rounding", w.S)
}

func c12[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	qs := w.queries(c, 8)
	run := func(idx interfaces.AnnoyIndex[TV, TIX], workers int, name string) ([]Ans[TV, TIX], []byte) {
		w.S.AddTo(idx)
		idx.Build(w.T, workers)
		a := askAll(idx, qs)
		p := c.File(name)
		err := idx.Save(p)
		c.Check(err == nil, "%s: Save: %v", name, err)
		b, _ := os.ReadFile(p)
		sameAnswers(c, name+" after Save", qs, a, askAll(idx, qs))
		idx.Close()
		return a, b
	}
	a0, b0 := run(w.Spec().New(), 1, "base")
	judge := func(what string, idx interfaces.AnnoyIndex[TV, TIX], workers int) {
		a, b := run(idx, workers, "var")
		c.Note("setting: %s", what)
		sameAnswers(c, what, qs, a0, a)
		c.Check(bytes.Equal(b0, b), "%s: the saved bytes differ (%d and %d)", what, len(b0), len(b))
		c.Eval(w.S.N() > w.Cap, c.Name, what)
		c.Count("settings compared", 1)
		c.notes = c.notes[:len(c.notes)-1]
	}
	for j := 0; j < 3; j++ {
		sp := w.Spec()
		sp.Hint = TIX(In(c.R, 1, 2, w.S.NItems()-1, w.S.NItems(), w.S.NItems()+1, 3*w.S.NItems(), 1+c.R.IntN(2000)))
		judge(fmt.Sprintf("hint %d", sp.Hint), sp.New(), 1)
	}
	sp := w.Spec()
	sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	judge("heap index allocator", sp.New(), 1)
	names, ss := sorters[TV, TIX]()
	for j := 0; j < 3; j++ {
		x := c.R.IntN(len(ss))
		sp := w.Spec()
		sp.Sorter = ss[x]
		judge(names[x], sp.New(), 1)
	}
	if w.S.N() < 80 {
		func() {
			defer quiet()()
			sp := w.Spec()
			sp.Verbose = true
			judge("verbose", sp.New(), 1)
		}()
	}
	for _, n := range []int{0, 1} {
		sp := w.Spec()
		sp.Policy = policy.MultiWorker()
		judge(fmt.Sprintf("multi worker policy, %d workers", n), sp.New(), n)
	}
	judge("single worker policy asked for 4 workers", w.Spec().New(), 4)
	// a mix
	sp = w.Spec()
	sp.Policy, sp.IdxAlloc, sp.Hint, sp.Sorter = policy.MultiWorker(), memory.FileIndexMemoryAllocator(), TIX(1+c.R.IntN(500)), ss[c.R.IntN(len(ss))]
	judge("several settings", sp.New(), 1)
	// a moving build allocator
	mv := &movingAlloc{flushEnd: true}
	sp = w.Spec()
	sp.Alloc = mv
	judge("another build allocator", sp.New(), 1)
	mv.release()
	if !k.Dot {
		bl := func() *builder.AnnoyIndexBuilderImpl[TV, TIX] {
			return builder.Index[TV, TIX]().AngularDistance(w.S.F).Random(newRand(w.Seed))
		}
		judge("builder", bl().Build(), 1)
		judge("builder with options", bl().UseMultiWorkerPolicy().GCMemoryIndexAllocator().IndexNumHint(c.R.IntN(300)).UseSorter(ss[c.R.IntN(len(ss))]).Build(), 1)
		judge("builder with defaults named", bl().SingleWorkerPolicy().MmapIndexAllocator().IndexNumHint(-1).Build(), 1)
		// default generator
		dflt := w.Spec()
		dflt.Rand = newRand(TIX(0))
		a1, b1 := run(dflt.New(), 1, "d0")
		a2, b2 := run(builder.Index[TV, TIX]().AngularDistance(w.S.F).Build(), 1, "d1")
		sameAnswers(c, "builder without a generator", qs, a1, a2)
		c.Check(bytes.Equal(b1, b2), "builder without a generator: the saved bytes differ from those of the default generator")
		if w.S.N() < 40 {
			func() {
				defer quiet()()
				judge("verbose builder", bl().VerboseLogging().Build(), 1)
			}()
		}
	}
	c.Clean()
	c.Sample("%v T=%d: same bytes and answers under about 15 settings", w.S, w.T)
}
