package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

func init() {
	checks["C26"] = func(e *Env) {
		e.Loop(3000, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c26[float32, uint32], c26[float32, uint64], c26[float64, uint32], c26[float64, uint64])(c, k)
		})
	}
	checks["C27"] = func(e *Env) {
		e.Loop(3000, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c27[float32, uint32], c27[float32, uint64], c27[float64, uint32], c27[float64, uint64])(c, k)
		})
	}
}

// anyIndex is an index in some state, with what is needed to ask it.
type anyIndex[TV VT, TIX IT] struct {
	w     *world[TV, TIX]
	idx   interfaces.AnnoyIndex[TV, TIX]
	state string
}

// c26 mixes contexts made for several states of several indexes.
func c26[TV VT, TIX IT](c *Case, k Combo) {
	var as []anyIndex[TV, TIX]
	n := 2 + c.R.IntN(2)
	type cx struct {
		ctx  interfaces.AnnoyIndexContext[TV, TIX]
		from string
		uses int
	}
	var ctxs []*cx
	put := func(i int, x interfaces.AnnoyIndex[TV, TIX], st string) {
		ctxs = append(ctxs, &cx{ctx: x.CreateContext(), from: fmt.Sprintf("index %d %s", i, st)})
	}
	for i := 0; i < n; i++ {
		w := genWorld[TV, TIX](c, k)
		if i > 0 && w.S.N() > 200 {
			w.S = genSet[TV, TIX](c.R, 1+c.R.IntN(200), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		}
		idx := w.anySpec(c).New()
		put(i, idx, "empty")
		w.S.AddTo(idx)
		if c.R.IntN(2) == 0 {
			put(i, idx, "filled")
		}
		idx.Build(w.T, 1)
		st := "built"
		put(i, idx, st)
		if c.R.IntN(2) == 0 {
			p := c.File(fmt.Sprintf("x%d.ann", i))
			c.Check(idx.Save(p) == nil, "Save failed")
			st = "saved"
			put(i, idx, st)
			if c.R.IntN(3) == 0 {
				idx.Close()
				put(i, idx, "closed")
				c.Check(idx.Load(p) == nil, "Load failed")
				put(i, idx, "loaded")
				st = "loaded"
			}
		}
		as = append(as, anyIndex[TV, TIX]{w, idx, st})
	}
	type rec struct {
		what string
		a, b Ans[TV, TIX]
	}
	var old []rec
	clone := func(a Ans[TV, TIX]) Ans[TV, TIX] {
		return Ans[TV, TIX]{append([]TIX(nil), a.Ids...), append([]TV(nil), a.Ds...)}
	}
	for s := 0; s < 40; s++ {
		i := c.R.IntN(n)
		a := as[i]
		q := a.w.queries(c, 1)[0]
		if c.R.IntN(4) == 0 {
			q.Budget = 1 << 30
		}
		if c.R.IntN(10) == 0 {
			q.NumReturn = 0
		}
		x := ctxs[c.R.IntN(len(ctxs))]
		fresh := q.Ask(a.idx, nil)
		fc := clone(fresh)
		var back []TV
		if !q.ByItem {
			// room behind the vector, all of it watched
			back = append(append([]TV(nil), q.V...), 11, 12, 13)
			q.V = back[:len(q.V):len(back)]
		}
		was := append([]TV(nil), back...)
		got := q.Ask(a.idx, x.ctx)
		if !got.Equal(fc) {
			c.Fail("index %d (%s), query %+v: with a context made by %s and used %d times the answer is %v, with a new one %v", i, a.state, q, x.from, x.uses, got, fc)
		}
		c.Check(fresh.Equal(fc), "an answer changed while another query was asked")
		c.Check(sameRaw(back, was), "query %+v: the query vector is modified: %v, was %v", q, back, was)
		x.uses++
		if x.uses > 1 {
			c.Count("answers of reused contexts judged", 1)
		}
		if x.from != fmt.Sprintf("index %d %s", i, a.state) {
			c.Count("answers of foreign contexts judged", 1)
		}
		old = append(old, rec{fmt.Sprintf("%+v", q), got, clone(got)})
		if c.R.IntN(6) == 0 { // the answer belongs to the user
			o := &old[c.R.IntN(len(old))]
			for j := range o.a.Ids {
				o.a.Ids[j] = ^TIX(0)
				o.a.Ds[j] = -77
			}
			o.b = clone(o.a)
		}
		c.Eval(len(got.Ids) > 1, c.Name, s)
	}
	for _, o := range old {
		if !o.a.Equal(o.b) {
			c.Fail("the answer of %s changed after later queries: %v, was %v", o.what, o.a, o.b)
		}
		c.Count("kept answers judged", 1)
	}
	for _, a := range as {
		// the index still knows its items
		for _, id := range a.w.S.Ids()[:min(20, a.w.S.N())] {
			c.Check(sameBits(a.idx.GetItem(id), a.w.S.V[id]), "item %d changed by queries", id)
		}
		a.idx.Close()
	}
	for _, o := range old {
		c.Check(o.a.Equal(o.b), "an answer changed when the index was closed")
	}
	c.Clean()
	c.Sample("%d indexes, %d contexts of all origins: 40 answers equal those of new contexts", n, len(ctxs))
}

// myNode is a node of a user's own metric: descendants, plane offset, then children or vector.
type myNode[TV VT, TIX IT] struct {
	desc TIX
	off  TV
	body [1]TIX // children here; the vector has its place behind two of them
}

// myDist is a user's Euclidean or Manhattan metric.
type myDist[TV VT, TIX IT] struct {
	f, size, k TIX
	man        bool
	c          *Case
	mu         sync.Mutex
	calls      map[string]int
	onMap      func(p unsafe.Pointer, i TIX)
	maxKids    int
}

type myRef[TV VT, TIX IT] struct {
	myNode[TV, TIX]
}

const myHead = 16

func newMyDist[TV VT, TIX IT](c *Case, f int, man bool, k int) *myDist[TV, TIX] {
	vs := int(unsafe.Sizeof(TV(0)))
	is := int(unsafe.Sizeof(TIX(0)))
	size := myHead + max(2*is+f*vs, k*is)
	size = (size + 7) / 8 * 8
	return &myDist[TV, TIX]{f: TIX(f), size: TIX(size), k: TIX(k), man: man, c: c, calls: map[string]int{}}
}

func (d *myDist[TV, TIX]) hit(n string) {
	d.mu.Lock()
	d.calls[n]++
	d.mu.Unlock()
}

// node accessors: the node is its memory
func (n *myRef[TV, TIX]) kids() *TIX { return (*TIX)(unsafe.Add(unsafe.Pointer(n), myHead)) }
func (n *myRef[TV, TIX]) vec() *TV {
	return (*TV)(unsafe.Add(unsafe.Pointer(n), myHead+2*unsafe.Sizeof(TIX(0))))
}
func (n *myRef[TV, TIX]) GetRawVector() *TV                   { return n.vec() }
func (n *myRef[TV, TIX]) GetVector(l TIX) []TV                { return unsafe.Slice(n.vec(), l) }
func (n *myRef[TV, TIX]) SetVector(v []TV)                    { copy(unsafe.Slice(n.vec(), len(v)), v) }
func (n *myRef[TV, TIX]) GetRawChildren() *TIX                { return n.kids() }
func (n *myRef[TV, TIX]) GetChildren() []TIX                  { return unsafe.Slice(n.kids(), n.desc) }
func (n *myRef[TV, TIX]) SetChildren(c []TIX)                 { copy(unsafe.Slice(n.kids(), len(c)), c) }
func (n *myRef[TV, TIX]) GetNumberOfDescendants() TIX         { return n.desc }
func (n *myRef[TV, TIX]) SetNumberOfDescendants(x TIX)        { n.desc = x }
func (n *myRef[TV, TIX]) GetNorm() TV                         { return n.off }
func (n *myRef[TV, TIX]) SetNorm(x TV)                        { n.off = x }
func (d *myDist[TV, TIX]) PreProcess(unsafe.Pointer, TIX)     { d.hit("PreProcess") }
func (d *myDist[TV, TIX]) Normalize(interfaces.Node[TV, TIX]) {}
func (d *myDist[TV, TIX]) InitNode(n interfaces.Node[TV, TIX]) {
	// as the module's own metrics do: what InitNode derives from the vector is kept with the node
	d.hit("InitNode")
	n.SetNorm(d.keep(n.GetVector(d.f)))
}
func (d *myDist[TV, TIX]) keep(v []TV) TV {
	var s TV
	for _, x := range v {
		s += x * x
	}
	return s
}
func (d *myDist[TV, TIX]) MaxNumChildren() TIX { return d.k }
func (d *myDist[TV, TIX]) NodeSize() TIX       { return d.size }
func (d *myDist[TV, TIX]) VectorLength() TIX   { return d.f }

// far beyond every margin, as good as infinite but recognizable
func (d *myDist[TV, TIX]) PQInitialValue() TV { return 1e30 }
func (d *myDist[TV, TIX]) PQDistance(dist, margin TV, side interfaces.Side) TV {
	d.hit("PQDistance")
	if dist > d.PQInitialValue() {
		d.c.record(fmt.Sprintf("PQDistance is given the priority %v, trees start with %v", dist, d.PQInitialValue()), "")
	}
	if side == interfaces.SideLeft {
		margin = -margin
	}
	if margin < dist {
		return margin
	}
	return dist
}
func (d *myDist[TV, TIX]) NormalizedDistance(x TV) TV {
	d.hit("NormalizedDistance")
	if d.man {
		return x
	}
	return TV(math.Sqrt(float64(x)))
}
func (d *myDist[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, i TIX) interfaces.Node[TV, TIX] {
	p := unsafe.Add(mem, int(i)*int(d.size))
	if d.onMap != nil {
		d.onMap(p, i)
	}
	return (*myRef[TV, TIX])(p)
}
func (d *myDist[TV, TIX]) raw(a, b []TV) TV {
	var s TV
	for i := range a {
		x := a[i] - b[i]
		if d.man {
			if x < 0 {
				x = -x
			}
			s += x
		} else {
			s += x * x
		}
	}
	return s
}
func (d *myDist[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	d.hit("Distance")
	for i, n := range []interfaces.Node[TV, TIX]{x, y} {
		if g, w := n.GetNorm(), d.keep(n.GetVector(d.f)); g != w {
			d.c.record(fmt.Sprintf("Distance is given a node (argument %d) which InitNode has not seen with its present vector: it keeps %v, InitNode gives %v", i+1, g, w), "")
		}
	}
	return d.raw(x.GetVector(d.f), y.GetVector(d.f))
}
func (d *myDist[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	d.hit("Margin")
	s := n.GetNorm()
	v := n.GetVector(d.f)
	for i := range v {
		s += v[i] * y[i]
	}
	return s
}
func (d *myDist[TV, TIX]) Side(m interfaces.Node[TV, TIX], v []TV, r interfaces.Random[TIX]) interfaces.Side {
	d.hit("Side")
	x := d.Margin(m, v)
	if x > 0 {
		return interfaces.SideRight
	}
	if x < 0 {
		return interfaces.SideLeft
	}
	return r.NextSide()
}
func (d *myDist[TV, TIX]) CreateSplit(ch []interfaces.Node[TV, TIX], size TIX, r interfaces.Random[TIX], m interfaces.Node[TV, TIX]) {
	d.hit("CreateSplit")
	if size != d.size {
		d.c.record(fmt.Sprintf("CreateSplit is given node size %d, the metric's is %d", size, d.size), "")
	}
	a := ch[r.NextIndex(TIX(len(ch)))].GetVector(d.f)
	b := ch[r.NextIndex(TIX(len(ch)))].GetVector(d.f)
	v := m.GetVector(d.f)
	var off TV
	for i := range v {
		v[i] = a[i] - b[i]
		off -= v[i] * (a[i] + b[i]) / 2
	}
	m.SetNorm(off)
}

// recSorter records what it is asked to order. Desc: it orders pairs the other way round.
type recSorter[TV VT, TIX IT] struct {
	in    interfaces.Sorter[TV, TIX]
	mu    sync.Mutex
	desc  bool
	ids   int
	part  int
	last  []interfaces.Pair[TV, TIX]
	want  int
	pairs int
}

func (s *recSorter[TV, TIX]) SortSlice(x []TIX) { s.ids++; s.in.SortSlice(x) }
func (s *recSorter[TV, TIX]) SortPairs(p []*interfaces.Pair[TV, TIX]) {
	s.pairs++
	s.in.SortPairs(p)
}
func (s *recSorter[TV, TIX]) PartialSortSlice(p interfaces.Pairs[TV, TIX], b, m, e int) {
	s.part++
	if s.desc {
		sort.Slice(p[b:e], func(i, j int) bool { return lessPair(*p[b+j], *p[b+i]) })
	} else {
		s.in.PartialSortSlice(p, b, m, e)
	}
	s.last = nil
	for _, x := range p[b:e] {
		s.last = append(s.last, *x)
	}
}

// tapeRand draws from a tape that every clone restarts (per seed).
type tapeRand[TIX IT] struct {
	base  uint64
	seed  TIX
	r     *rand.Rand
	inUse atomic.Int32
	stats *tapeStats
	draws int
}

type tapeStats struct {
	mu     sync.Mutex
	draws  int64
	clones int
	seeds  map[uint64]int
	races  int
}

func newTape[TIX IT](base uint64, seed TIX, st *tapeStats) *tapeRand[TIX] {
	t := &tapeRand[TIX]{base: base, stats: st}
	t.SetSeed(seed)
	return t
}
func (t *tapeRand[TIX]) SetSeed(s TIX) {
	t.seed = s
	t.r = rand.New(rand.NewPCG(t.base, uint64(s)))
	t.stats.mu.Lock()
	t.stats.seeds[uint64(s)]++
	t.stats.mu.Unlock()
}
func (t *tapeRand[TIX]) GetSeed() TIX { return t.seed }
func (t *tapeRand[TIX]) enter() func() {
	if t.inUse.Add(1) != 1 {
		t.stats.mu.Lock()
		t.stats.races++
		t.stats.mu.Unlock()
	}
	t.stats.mu.Lock()
	t.stats.draws++
	t.stats.mu.Unlock()
	return func() { t.inUse.Add(-1) }
}
func (t *tapeRand[TIX]) Next() TIX { defer t.enter()(); return TIX(t.r.Uint64()) }
func (t *tapeRand[TIX]) NextSide() interfaces.Side {
	defer t.enter()()
	return interfaces.Side(t.r.IntN(2))
}
func (t *tapeRand[TIX]) NextIndex(n TIX) TIX { defer t.enter()(); return TIX(t.r.Uint64N(uint64(n))) }
func (t *tapeRand[TIX]) CloneAndReset() interfaces.Random[TIX] {
	t.stats.mu.Lock()
	t.stats.clones++
	t.stats.mu.Unlock()
	return newTape(t.base, t.seed, t.stats)
}

// myPolicy spreads the trees its own way.
type myPolicy struct {
	interfaces.AnnoyIndexBuildPolicy // real locks
	mu                               sync.Mutex
	calls                            [][2]int
	split                            []int
	parallel                         bool
	locks                            int64
}

func (p *myPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	p.mu.Lock()
	p.calls = append(p.calls, [2]int{trees, workers})
	p.mu.Unlock()
	var wg sync.WaitGroup
	for i, n := range p.split {
		if !p.parallel {
			b.ThreadBuild(n, i, p)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.ThreadBuild(n, i, p)
		}()
	}
	wg.Wait()
}
func (p *myPolicy) LockNNodes() { atomic.AddInt64(&p.locks, 1); p.AnnoyIndexBuildPolicy.LockNNodes() }
func (p *myPolicy) LockRoots()  { atomic.AddInt64(&p.locks, 1); p.AnnoyIndexBuildPolicy.LockRoots() }

// vfs is an index allocator whose files exist nowhere else.
type vfs struct {
	files  map[string][]byte
	opens  []string
	closes int
	live   int
	err    error
	cerr   error
}

type vfile struct {
	v      *vfs
	mem    []byte
	n      int64
	closed int
}

func (v *vfs) Open(p string) (interfaces.AllocatedIndex, error) {
	v.opens = append(v.opens, p)
	if v.err != nil {
		return nil, v.err
	}
	b, ok := v.files[p]
	if !ok {
		x, err := os.ReadFile(p) // a file the index saved
		if err != nil {
			return nil, err
		}
		b = x
	}
	m := align8(len(b) + 64)[:len(b)]
	copy(m, b)
	v.live++
	return &vfile{v: v, mem: m, n: int64(len(b))}, nil
}
func (v *vfs) Get(p string) (interfaces.AllocatedIndex, bool) { return nil, false }
func (f *vfile) Ptr() unsafe.Pointer                          { return unsafe.Pointer(unsafe.SliceData(f.mem)) }
func (f *vfile) Size() int64                                  { return f.n }
func (f *vfile) Close() error {
	f.closed++
	if f.closed == 1 {
		f.v.closes++
		f.v.live--
	}
	return f.v.cerr
}

func c27[TV VT, TIX IT](c *Case, k Combo) {
	switch c.I / 8 % 6 {
	case 0, 1:
		c27metric[TV, TIX](c, k)
	case 2:
		c27sorter[TV, TIX](c, k)
	case 3:
		c27random[TV, TIX](c, k)
	case 4:
		c27policy[TV, TIX](c, k)
	case 5:
		c27alloc[TV, TIX](c, k)
	}
}

func c27metric[TV VT, TIX IT](c *Case, k Combo) {
	f := pickF(c.R)
	man := c.R.IntN(2) == 0
	kk := In(c.R, 2, 3, 5, 10, 40)
	fam := In(c.R, "gauss", "cluster", "grid", "zeros", "scaled", "dup", "near", "collinear")
	n := In(c.R, 1, 2, kk, kk+1, 10+c.R.IntN(150), 10+c.R.IntN(300))
	s := genSet[TV, TIX](c.R, n, f, fam, layouts[c.R.IntN(len(layouts))], false)
	d := newMyDist[TV, TIX](c, f, man, kk)
	T := In(c.R, 1, 2, 5)
	sp := Spec[TV, TIX]{F: f, Seed: TIX(1 + c.R.IntN(1000)), Dist: d}
	W := 1
	if c.R.IntN(4) == 0 {
		sp.Policy, W = policy.MultiWorker(), 3
	}
	mv := &movingAlloc{flushEnd: true}
	sp.Alloc = mv
	defer mv.release()
	c.Note("%v manhattan=%v K=%d T=%d W=%d", s, man, kk, T, W)
	idx := sp.New()
	s.AddTo(idx)
	c.Check(d.calls["InitNode"] >= n, "InitNode was called %d times for %d items", d.calls["InitNode"], n)
	idx.Build(T, W)
	c.Check(d.calls["PreProcess"] >= 1, "PreProcess was called %d times by Build", d.calls["PreProcess"])
	if n > kk {
		c.Check(d.calls["CreateSplit"] > 0 && d.calls["Side"] > 0, "the metric's splits were not used: %v", d.calls)
	}
	c.Check(idx.VectorLength() == TIX(f), "VectorLength is %d", idx.VectorLength())
	path := c.File("m.ann")
	ref := func(a, b []TV) float64 {
		x := 0.0
		for i := range a {
			y := float64(a[i]) - float64(b[i])
			if man {
				x += math.Abs(y)
			} else {
				x += y * y
			}
		}
		if !man {
			x = math.Sqrt(x)
		}
		return x
	}
	w := &world[TV, TIX]{K: k, S: s, T: T, Cap: kk}
	judge := func(stage string) {
		ctx := idx.CreateContext()
		for j := 0; j < 5; j++ {
			q := w.query(c.R)
			nr := In(c.R, 1, 3, n, n+2, 1+c.R.IntN(n))
			b0 := d.calls["Distance"]
			m0 := d.calls["Margin"]
			ids, ds := idx.GetNnsByVector(q, nr, T*n, ctx)
			want := min(nr, n)
			c.Check(len(ids) == want && len(ds) == want, "%s: %d results of %d items, numReturn %d", stage, len(ids), n, nr)
			c.Check(d.calls["Distance"] > b0, "%s: the metric's Distance was not used", stage)
			if n > kk+2 && s.NItems() > kk {
				c.Check(d.calls["Margin"] > m0, "%s: the metric's Margin was not used", stage)
			}
			type rk struct {
				d  TV
				id TIX
			}
			var all []rk
			for _, id := range s.Ids() {
				all = append(all, rk{d.raw(q, s.V[id]), id})
			}
			sort.Slice(all, func(i, j int) bool {
				return all[i].d < all[j].d || all[i].d == all[j].d && all[i].id < all[j].id
			})
			for i := range ids {
				// same arithmetic, so exactly the same order
				c.Check(ids[i] == all[i].id, "%s: rank %d is %d, under the custom metric it is %d (%v)", stage, i, ids[i], all[i].id, all[i].d)
				r := ref(q, s.V[ids[i]])
				c.Check(math.Abs(float64(ds[i])-r) <= 1e-3*(1+r), "%s: item %d at %v, the custom metric says %v", stage, ids[i], ds[i], r)
			}
			a, b := s.Ids()[c.R.IntN(n)], s.Ids()[c.R.IntN(n)]
			r := ref(s.V[a], s.V[b])
			g := float64(idx.GetDistance(a, b))
			c.Check(math.Abs(g-r) <= 1e-3*(1+r), "%s: GetDistance(%d,%d) is %v, the custom metric says %v", stage, a, b, g, r)
			c.Count("custom metric searches judged", 1)
			c.Eval(n > 1, c.Name, stage, j)
		}
	}
	judge("built")
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	st, _ := os.Stat(path)
	c.Check(st.Size()%int64(d.size) == 0 && st.Size() >= int64(d.size)*int64(s.NItems()+2*T), "file of %d bytes for nodes of %d", st.Size(), d.size)
	judge("saved")
	c27buckets(c, d, path, s, T)
	idx.Close()
	c.Clean()
	c.Sample("%v manhattan=%v K=%d T=%d: exact under the custom metric (%v)", s, man, kk, T, d.calls)
}

// c27buckets walks the saved trees of a custom metric.
func c27buckets[TV VT, TIX IT](c *Case, d *myDist[TV, TIX], path string, s *Set[TV, TIX], T int) {
	b, err := os.ReadFile(path)
	infra("reading", err)
	m := align8(len(b) + 64)[:len(b)]
	copy(m, b)
	nd := func(i int) interfaces.Node[TV, TIX] { return d.MapNodeToMemory(unsafe.Pointer(&m[0]), TIX(i)) }
	N, M := len(b)/int(d.size), s.NItems()
	if M <= int(d.k) || s.N() == 1 {
		return
	}
	for t := 0; t < T; t++ {
		seen := map[TIX]int{}
		var walk func(i int, root bool) int
		walk = func(i int, root bool) int {
			c.Check(i < N, "custom metric: child %d outside the file", i)
			if i < M {
				seen[TIX(i)]++
				return 1
			}
			n := nd(i)
			desc := int(n.GetNumberOfDescendants())
			if !root && desc <= int(d.k) {
				for _, x := range n.GetChildren() {
					seen[x]++
				}
				return desc
			}
			ch := unsafe.Slice(n.GetRawChildren(), 2)
			x := walk(int(ch[0]), false) + walk(int(ch[1]), false)
			if !root {
				c.Check(x == desc, "custom metric: node %d says %d descendants, has %d", i, desc, x)
			}
			return x
		}
		walk(N-1-t, true)
		for _, id := range s.Ids() {
			c.Check(seen[id] == 1, "custom metric: item %d is %d times in tree %d", id, seen[id], t)
		}
		c.Check(len(seen) == s.N(), "custom metric: tree %d has %d items of %d", t, len(seen), s.N())
		c.Count("custom metric trees judged", 1)
	}
}

func c27sorter[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	_, ss := sorters[TV, TIX]()
	rs := &recSorter[TV, TIX]{in: ss[c.R.IntN(len(ss))], desc: c.R.IntN(2) == 0}
	var idx interfaces.AnnoyIndex[TV, TIX]
	if !k.Dot && c.R.IntN(2) == 0 {
		idx = builder.Index[TV, TIX]().AngularDistance(w.S.F).Random(newRand(w.Seed)).UseSorter(rs).Build()
		c.Count("sorters given to the builder", 1)
	} else {
		sp := w.Spec()
		sp.Sorter = rs
		idx = sp.New()
	}
	w.S.AddTo(idx)
	idx.Build(w.T, 1)
	if c.R.IntN(2) == 0 {
		c.Check(idx.Save(c.File("s.ann")) == nil, "Save failed")
	}
	ctx := idx.CreateContext()
	for j, q := range w.queries(c, 12) {
		q.NumReturn = max(1, q.NumReturn)
		i0, p0 := rs.ids, rs.part
		rs.last = nil
		a := q.Ask(idx, ctx)
		if len(a.Ids) > 1 {
			c.Check(rs.ids > i0 && rs.part > p0, "query %+v: the sorter ordered ids %d times and pairs %d times", q, rs.ids-i0, rs.part-p0)
		}
		if len(a.Ids) < 2 && rs.last == nil {
			// nothing to order
			continue
		}
		c.Check(len(a.Ids) == min(q.NumReturn, len(rs.last)), "query %+v: %d results, the sorter ordered %d", q, len(a.Ids), len(rs.last))
		for i := range a.Ids {
			c.Check(a.Ids[i] == rs.last[i].Second, "query %+v: rank %d is %d, the custom sorter (descending %v) put %d there", q, i, a.Ids[i], rs.desc, rs.last[i].Second)
		}
		c.Count("custom sorter answers judged", 1)
		c.Eval(len(a.Ids) > 1, c.Name, j)
	}
	idx.Close()
	c.Clean()
	c.Sample("%v descending=%v: answers follow the custom sorter", w.S, rs.desc)
}

func c27random[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	base := c.R.Uint64()
	st := &tapeStats{seeds: map[uint64]int{}}
	mk := func(base uint64, viaBuilder bool) interfaces.AnnoyIndex[TV, TIX] {
		t := newTape[TIX](base, w.Seed, st)
		if viaBuilder && !k.Dot {
			c.Count("generators given to the builder", 1)
			return builder.Index[TV, TIX]().AngularDistance(w.S.F).Random(t).Build()
		}
		sp := w.Spec()
		sp.Rand = t
		return sp.New()
	}
	build := func(base uint64, b bool) []byte {
		x := mk(base, b)
		w.S.AddTo(x)
		x.Build(w.T, 1)
		p := c.File("r.ann")
		c.Check(x.Save(p) == nil, "Save failed")
		bs, _ := os.ReadFile(p)
		x.Close()
		return bs
	}
	b1 := build(base, false)
	drawn := st.draws
	b2 := build(base, c.R.IntN(2) == 0)
	c.Check(bytes.Equal(b1, b2), "two builds with the same custom generator differ")
	if w.S.NItems() > w.Cap && w.S.N() > 1 {
		c.Check(drawn > 0, "a build with splits drew nothing from the custom generator")
		if w.S.N() > w.Cap+10 && (w.S.Fam == "gauss" || w.S.Fam == "scaled") && w.S.F > 2 {
			b3 := build(base+1, false)
			c.Check(!bytes.Equal(b1, b3), "the custom generator does not influence the build")
			c.Count("changed generators that changed the build", 1)
		}
		c.Count("builds from a custom generator", 1)
	}
	// several workers: each draws from its own
	st.seeds = map[uint64]int{}
	sp := w.Spec()
	sp.Rand = newTape[TIX](base, w.Seed, st)
	sp.Policy = policy.MultiWorker()
	W := In(c.R, 2, 3, 4)
	x := sp.New()
	w.S.AddTo(x)
	x.Build(w.T, W)
	c.Check(st.races == 0, "%d draws from one generator while another goroutine was drawing from it", st.races)
	for i := 0; i < W; i++ {
		c.Check(st.seeds[uint64(w.Seed)+uint64(i)] > 0, "worker %d did not seed its generator with %d: %v", i, int(w.Seed)+i, st.seeds)
	}
	w.forestOf(c, x, "w.ann")
	x.Close()
	c.Eval(w.S.N() > w.Cap, c.Name)
	c.Clean()
	c.Sample("%v: %d draws, %d clones of a custom generator decide the build", w.S, st.draws, st.clones)
}

func c27policy[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 150 {
		w.S = genSet[TV, TIX](c.R, 2+c.R.IntN(148), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
	}
	p := &myPolicy{AnnoyIndexBuildPolicy: policy.MultiWorker(), parallel: c.R.IntN(2) == 0}
	sum := 0
	for i := 0; i < 1+c.R.IntN(4); i++ {
		n := c.R.IntN(4)
		p.split = append(p.split, n)
		sum += n
	}
	if sum == 0 {
		p.split = append(p.split, 2)
		sum = 2
	}
	at, aw := In(c.R, -1, 0, 1, 5, 77), In(c.R, -1, 0, 1, 3, 1000)
	c.Note("%v split %v parallel %v", w.S, p.split, p.parallel)
	sp := w.Spec()
	sp.Policy = p
	idx := sp.New()
	w.S.AddTo(idx)
	idx.Build(at, aw)
	c.Check(len(p.calls) == 1 && p.calls[0] == [2]int{at, aw}, "Build(%d,%d) called the policy's Build with %v", at, aw, p.calls)
	w.T = sum
	w.forestOf(c, idx, "p.ann")
	c.Check(p.locks >= int64(len(p.split)), "the policy's locks were used %d times only", p.locks)
	q := w.query(c.R)
	ids, ds := idx.GetNnsByVector(q, 5, sum*w.S.N(), idx.CreateContext())
	exact(c, w.S, q, ids, ds, 5)
	idx.Close()
	c.Clean()
	c.Count("custom policies judged", 1)
	c.Eval(true, c.Name, fmt.Sprint(p.split))
	c.Sample("%v: a custom policy's distribution %v gives %d complete trees", w.S, p.split, sum)
}

func c27alloc[TV VT, TIX IT](c *Case, k Combo) {
	defer debugFault()()
	w := genWorld[TV, TIX](c, k)
	mv := &movingAlloc{flushEnd: true}
	defer mv.release()
	v := &vfs{files: map[string][]byte{}}
	sp := w.Spec()
	sp.Alloc, sp.IdxAlloc = mv, v
	if c.R.IntN(3) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(300))
	}
	in := func(idx interfaces.AnnoyIndex[TV, TIX]) bool {
		return mv.state(unsafe.Pointer(unsafe.SliceData(idx.GetItem(w.S.Ids()[0])))) == 1
	}
	if sp.Hint > 0 {
		// the memory of the hint alone
		x := sp.New()
		if c.R.IntN(2) == 0 {
			c.Check(x.Load("none") != nil, "a missing file loads")
		}
		x.Close()
		c.Check(mv.cur == nil, "after Close of an index with a hint and no items the build memory is not returned to the custom allocator")
		v.opens, v.live, v.closes = nil, 0, 0
		mv.frees, mv.calls = 0, 0
	}
	idx := sp.New()
	for _, id := range w.S.Order {
		idx.AddItem(id, append([]TV(nil), w.S.V[id]...))
		if mv.calls == 0 {
			c.Fail("the first item is added without memory from the custom allocator")
		}
	}
	need := w.S.NItems() * int(newDist[TV, TIX](w.S.F, k.Dot).NodeSize())
	c.Check(mv.cur != nil && mv.cur.n >= need, "the custom allocator was asked for %v bytes, %d items need %d", mv.sizes, w.S.NItems(), need)
	c.Check(in(idx), "the items are not in the custom allocator's memory")
	idx.Build(w.T, In(c.R, 0, 1))
	c.Check(in(idx), "the built index is not in the custom allocator's memory")
	qs := w.queries(c, 6)
	want := askAll(idx, qs)
	path := c.File("c.ann")
	c.Check(len(v.opens) == 0, "the index allocator was used before any file was there: %v", v.opens)
	calls := mv.calls
	// the file can't be opened
	v.err = errors.New("custom open error")
	err := idx.Save(c.File("unopened.ann"))
	c.Check(err != nil && errors.Is(err, v.err), "Save gives %v, the custom index allocator gave %v", err, v.err)
	sameAnswers(c, "after the custom index allocator could not open the saved file", qs, want, askAll(idx, qs))
	c.Check(v.live == 0 && mv.cur != nil, "after the custom index allocator could not open the saved file %d files are open", v.live)
	v.err, v.opens = nil, nil
	err = idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	b, _ := os.ReadFile(path)
	c.Check(len(v.opens) == 1 && v.opens[0] == path && v.live == 1, "Save(%s) opened %v through the custom index allocator (%d open)", path, v.opens, v.live)
	c.Check(mv.cur == nil && mv.frees >= 1, "after Save the build memory is not returned to the custom allocator")
	c.Check(mv.calls == calls, "Save allocates from the build allocator")
	sameAnswers(c, "after Save through the custom allocator", qs, want, askAll(idx, qs))
	// a file that exists in the custom allocator only
	v.files["no/such/dir/virtual"] = b
	os.Remove(path)
	err = idx.Load("no/such/dir/virtual")
	c.Check(err == nil, "Load through the custom index allocator: %v", err)
	c.Check(len(v.opens) == 2 && v.opens[1] == "no/such/dir/virtual", "opened: %v", v.opens)
	c.Check(v.live == 1 && v.closes == 1, "%d files are open, %d closed after loading another one", v.live, v.closes)
	sameAnswers(c, "loaded through the custom allocator", qs, want, askAll(idx, qs))
	// errors come through
	v.err = errors.New("custom open error")
	err = idx.Load("whatever")
	c.Check(err != nil && errors.Is(err, v.err), "Load gives %v, the custom index allocator gave %v", err, v.err)
	c.Check(v.live == 0, "%d files are open after a failed Load", v.live)
	v.err = nil
	err = idx.Load("no/such/dir/virtual")
	c.Check(err == nil && v.live == 1, "Load after a failed one: %v", err)
	v.files["odd"] = b[:len(b)-1]
	err = idx.Load("odd")
	c.Check(err != nil, "a file of odd size loads")
	c.Check(v.live == 0, "%d files are open after refusing one", v.live)
	err = idx.Load("no/such/dir/virtual")
	c.Check(err == nil && v.live == 1, "Load after a refused one: %v", err)
	v.cerr = errors.New("custom close error")
	err = idx.Close()
	c.Check(err != nil && errors.Is(err, v.cerr), "Close gives %v, the custom index allocator gave %v", err, v.cerr)
	v.cerr = nil
	c.Check(v.live == 0, "Close leaves %d files open", v.live)
	// items that were added are given up when a file is loaded
	w.S.AddTo(idx)
	if c.R.IntN(2) == 0 {
		idx.Build(w.T, 1)
	}
	c.Check(mv.cur != nil, "after Close the items are not in the custom allocator's memory")
	err = idx.Load("no/such/dir/virtual")
	c.Check(err == nil && v.live == 1, "Load over added items: %v", err)
	c.Check(mv.cur == nil, "Load over added items does not return their memory to the custom allocator")
	sameAnswers(c, "loaded over added items", qs, want, askAll(idx, qs))
	c.Check(idx.Close() == nil && v.live == 0, "Close after Load over added items leaves %d files open", v.live)
	// and build again in custom memory
	w.S.AddTo(idx)
	c.Check(in(idx), "after Close the items are not in the custom allocator's memory")
	idx.Build(w.T, 1)
	sameAnswers(c, "rebuilt", qs, want, askAll(idx, qs))
	c.Check(idx.Close() == nil, "Close failed")
	c.Check(mv.cur == nil, "after Close the build memory is not returned to the custom allocator")
	c.Count("custom allocations judged", int64(mv.calls))
	c.Count("custom files judged", int64(len(v.opens)))
	c.Eval(true, c.Name)
	c.Clean()
	c.Sample("%v: %d allocations and %d files through custom allocators, all returned", w.S, mv.calls, len(v.opens))
}
