package main

import (
	"bytes"
	"crypto/sha256"
	"embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

//go:embed golden
var golden embed.FS

func init() {
	checks["C28"] = func(e *Env) {
		e.Loop(1600, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c28[float32, uint32], c28[float32, uint64], c28[float64, uint32], c28[float64, uint64])(c, k)
		})
		e.LoopN("n", 16, func(c *Case) { c28nobody(c) })
	}
	checks["C29"] = func(e *Env) {
		e.LoopN("g", 24*2, func(c *Case) {
			k := ComboOf(c.I % 8)
			pick(k, c29golden[float32, uint32], c29golden[float32, uint64], c29golden[float64, uint32], c29golden[float64, uint64])(c, k)
		})
		e.Loop(1600, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c29[float32, uint32], c29[float32, uint64], c29[float64, uint32], c29[float64, uint64])(c, k)
		})
	}
	checks["C30"] = func(e *Env) {
		e.Loop(1200, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c30[float32, uint32], c30[float32, uint64], c30[float64, uint32], c30[float64, uint64])(c, k)
		})
		e.LoopN("w", 48, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c30wide[float32, uint32], c30wide[float32, uint64], c30wide[float64, uint32], c30wide[float64, uint64])(c, k)
		})
		e.LoopN("q", 4, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c30query[float32, uint32], c30query[float32, uint64], c30query[float64, uint32], c30query[float64, uint64])(c, k)
		})
	}
	checks["C31"] = func(e *Env) {
		e.Loop(2400, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c31[float32, uint32], c31[float32, uint64], c31[float64, uint32], c31[float64, uint64])(c, k)
		})
	}
	helpers["golden"] = func(args []string) {
		for f := 0; f < 24; f++ {
			k := ComboOf(f % 8)
			switch {
			case !k.F64 && !k.U64:
				makeGolden[float32, uint32](args[0], f, k)
			case !k.F64:
				makeGolden[float32, uint64](args[0], f, k)
			case !k.U64:
				makeGolden[float64, uint32](args[0], f, k)
			default:
				makeGolden[float64, uint64](args[0], f, k)
			}
		}
	}
	helpers["reader"] = helperReader
}

// ---- C28: nothing but Add, Build, Load and Save changes an index

// roVecs keeps vectors in memory that cannot be written.
type roVecs[TV VT] struct {
	r *region
	f int
	n int
}

func newRoVecs[TV VT](f, n int, at func(i int) []TV) *roVecs[TV] {
	sz := int(unsafe.Sizeof(TV(0)))
	x := &roVecs[TV]{newRegion(max(1, n*f)*sz, true), f, n}
	all := unsafe.Slice((*TV)(x.r.base), max(1, n*f))
	for i := 0; i < n; i++ {
		copy(all[i*f:], at(i))
	}
	x.r.protect(syscall.PROT_READ)
	return x
}

func (x *roVecs[TV]) at(i int) []TV {
	v := unsafe.Slice((*TV)(x.r.base), x.n*x.f)
	return v[i*x.f : (i+1)*x.f : (i+1)*x.f]
}

func (x *roVecs[TV]) release() { syscall.Munmap(x.r.all) }

func (r *region) protect(p int) {
	infra("mprotect", syscall.Mprotect(r.all[page:len(r.all)-page], p))
}

func (r *region) bytes() []byte { return unsafe.Slice((*byte)(r.base), r.n) }

// seen is an index allocator that hashes what its files hold in memory.
type seen struct {
	in   interfaces.IndexAllocator
	last interfaces.AllocatedIndex
}

func (s *seen) Open(p string) (interfaces.AllocatedIndex, error) {
	a, err := s.in.Open(p)
	if err == nil {
		s.last = a
	}
	return a, err
}
func (s *seen) Get(p string) (interfaces.AllocatedIndex, bool) { return s.in.Get(p) }
func (s *seen) sum() [32]byte {
	return sha256.Sum256(unsafe.Slice((*byte)(s.last.Ptr()), s.last.Size()))
}

// readAll uses everything that only reads.
func (w *world[TV, TIX]) readAll(c *Case, idx interfaces.AnnoyIndex[TV, TIX], qs []Query[TV, TIX], stage string) []Ans[TV, TIX] {
	var as []Ans[TV, TIX]
	ro := newRoVecs(w.S.F, len(qs), func(i int) []TV { return qs[i].V })
	defer ro.release()
	ctx := idx.CreateContext()
	for i, q := range qs {
		if !q.ByItem {
			q.V = ro.at(i)
		}
		x := ctx
		if i%3 == 0 {
			x = idx.CreateContext()
		}
		as = append(as, q.Ask(idx, x))
		a, b := TIX(c.R.IntN(int(w.S.Max)+1)), TIX(c.R.IntN(int(w.S.Max)+1))
		idx.GetDistance(a, b)
		touch(idx.GetItem(a))
		c.Check(int(idx.VectorLength()) == w.S.F, "vector length %d", idx.VectorLength())
	}
	// refused calls do not write either
	for _, f := range []func(){
		func() { idx.AddItem(0, w.S.V[w.S.Ids()[0]]) },
		func() { idx.Build(1, 1) },
		func() { idx.GetItem(w.S.Max + 1) },
	} {
		p, v := Panics(f)
		c.Check(p, "%s: a misuse was not refused", stage)
		c.Check(!faulted(v), "%s: a refused call wrote: %v", stage, v)
	}
	c.Count("reads on "+stage, int64(3*len(qs)))
	return as
}

func c28[TV VT, TIX IT](c *Case, k Combo) {
	defer debugFault()()
	w := genWorld[TV, TIX](c, k)
	sp := w.Spec()
	mem := &movingAlloc{flushEnd: c.R.IntN(2) == 0}
	gi := &guardIndexAlloc{flushEnd: c.R.IntN(2) == 0}
	sp.Alloc, sp.IdxAlloc = mem, gi
	idx := sp.New()
	in := newRoVecs(w.S.F, len(w.S.Order), func(i int) []TV { return w.S.V[w.S.Order[i]] })
	for i, id := range w.S.Order {
		idx.AddItem(id, in.at(i))
	}
	in.release() // no reference may be left
	idx.Build(w.T, 1)
	mem.cur.protect(syscall.PROT_READ)
	before := sha256.Sum256(mem.cur.bytes())
	qs := w.queries(c, 10)
	a := w.readAll(c, idx, qs, "a built index")
	c.Check(sha256.Sum256(mem.cur.bytes()) == before, "the nodes changed while the index was only read")
	path := c.File("a.ann")
	c.Check(idx.Save(path) == nil, "Save failed") // the nodes are still read-only
	fb, _ := os.ReadFile(path)
	fs0 := statOf(path)
	b := w.readAll(c, idx, qs, "a saved index")
	sameAnswers(c, "saved from read-only memory", qs, a, b)
	// the other allocators
	for i, in := range []interfaces.IndexAllocator{memory.MmapIndexAllocator(), memory.FileIndexMemoryAllocator()} {
		name := []string{"a mapped index", "a heap index"}[i]
		s := &seen{in: in}
		sp2 := w.Spec()
		sp2.IdxAlloc = s
		y := sp2.New()
		c.Check(y.Load(path) == nil, "Load failed")
		h := s.sum()
		sameAnswers(c, name, qs, a, w.readAll(c, y, qs, name))
		c.Check(s.sum() == h, "%s: its nodes changed while it was only read", name)
		y.Close()
	}
	now, _ := os.ReadFile(path)
	c.Check(bytes.Equal(fb, now), "the file changed while it was only read")
	c.Check(statOf(path) == fs0, "the file's inode, mode, size or times changed while it was only read: %v, was %v", statOf(path), fs0)
	idx.Close()
	mem.release()
	gi.release()
	c.Clean()
	c.Eval(w.S.N() > w.Cap, c.Name)
	c.Sample("%v T=%d: 10 queries, items and distances on read-only nodes, files and vectors", w.S, w.T)
}

func statOf(p string) string {
	var st syscall.Stat_t
	if err := syscall.Stat(p, &st); err != nil {
		return err.Error()
	}
	return fmt.Sprint(st.Ino, st.Mode, st.Size, st.Mtim, st.Ctim, st.Nlink)
}

// c28nobody reads an index the user may only read.
func c28nobody(c *Case) {
	dir := c.Dir()
	for d := dir; len(d) > 1 && d != "/tmp"; d = filepath.Dir(d) {
		if st, err := os.Stat(d); err == nil && st.Mode().Perm()&0o055 != 0o055 {
			os.Chmod(d, 0o755)
		}
	}
	w := &world[float32, uint32]{K: Combo{}, T: 3, Seed: 5}
	w.S = genSet[float32, uint32](c.R, 60+c.R.IntN(60), 4, "gauss", "dense", false)
	idx := w.Build(w.Spec())
	path := c.File("ro.ann")
	c.Check(idx.Save(path) == nil, "Save failed")
	ids, _ := idx.GetNnsByItem(0, 10, 1<<20, idx.CreateContext())
	idx.Close()
	os.Chmod(path, 0o444)
	os.Chmod(dir, 0o555)
	defer os.Chmod(dir, 0o755)
	for _, al := range []string{"mmap", "heap"} {
		m, ran := asHelper(c, "reader", al, path)
		if !ran {
			return
		}
		c.Check(m["err"] == "" && m["panic"] == "", "a user who may only read the file, %s: error %q, panic %q", al, m["err"], m["panic"])
		c.Check(m["ids"] == fmt.Sprint(ids), "a user who may only read the file, %s: %s, expected %v", al, m["ids"], ids)
		c.Count("loads by a user who may only read", 1)
		c.Eval(true, c.Name, al)
	}
	es, _ := os.ReadDir(dir)
	c.Check(len(es) == 1, "reading left files behind: %v", es)
	os.Chmod(dir, 0o755)
	c.Clean()
}

func helperReader(args []string) {
	m := map[string]string{"panic": "", "err": "", "ids": ""}
	defer func() { json.NewEncoder(os.Stdout).Encode(m) }()
	defer func() {
		if r := recover(); r != nil {
			m["panic"] = fmt.Sprint(r)
		}
	}()
	var al interfaces.IndexAllocator = memory.MmapIndexAllocator()
	if args[0] == "heap" {
		al = memory.FileIndexMemoryAllocator()
	}
	idx := Spec[float32, uint32]{F: 4, IdxAlloc: al}.New()
	if err := idx.Load(args[1]); err != nil {
		m["err"] = err.Error()
		return
	}
	ids, _ := idx.GetNnsByItem(0, 10, 1<<20, idx.CreateContext())
	m["ids"] = fmt.Sprint(ids)
	idx.Close()
}

// ---- C29: the file format

// layout is the documented node layout, worked out here and not taken from the code.
type layout struct{ kids, factor, vec, size, cap int }

func layoutOf(k Combo, f int) layout {
	e, i := 4, 4
	if k.F64 {
		e = 8
	}
	if k.U64 {
		i = 8
	}
	up := func(n int) int { return (n + e - 1) / e * e }
	l := layout{kids: i, factor: -1, vec: up(3 * i)}
	if k.Dot {
		l.factor = up(3 * i)
		l.vec = l.factor + e
	}
	l.size = l.vec + f*e
	l.cap = (l.size - i) / i
	return l
}

func rdIdx[TIX IT](b []byte) TIX {
	if unsafe.Sizeof(TIX(0)) == 4 {
		return TIX(binary.LittleEndian.Uint32(b))
	}
	return TIX(binary.LittleEndian.Uint64(b))
}

func rdVal[TV VT](b []byte) TV {
	if unsafe.Sizeof(TV(0)) == 4 {
		return TV(math.Float32frombits(binary.LittleEndian.Uint32(b)))
	}
	return TV(math.Float64frombits(binary.LittleEndian.Uint64(b)))
}

// rawForest reads a file by the documented layout only.
func rawForest[TV VT, TIX IT](b []byte, s *Set[TV, TIX], k Combo) (*Forest[TV, TIX], error) {
	l := layoutOf(k, s.F)
	if len(b) == 0 || len(b)%l.size != 0 {
		return nil, fmt.Errorf("file of %d bytes is not made of nodes of %d bytes (%+v)", len(b), l.size, l)
	}
	fo := &Forest[TV, TIX]{F: s.F, Dot: s.Dot, Size: l.size, N: len(b) / l.size, M: s.NItems(), Cap: l.cap, data: b, present: s.Ids()}
	if fo.N < fo.M+2 {
		return nil, fmt.Errorf("only %d nodes for %d item slots", fo.N, fo.M)
	}
	w, e := int(unsafe.Sizeof(TIX(0))), vsize[TV]()
	fo.nd = func(i int) fnode[TV, TIX] {
		raw := b[i*l.size : (i+1)*l.size]
		v := make([]TV, s.F)
		for j := range v {
			v[j] = rdVal[TV](raw[l.vec+j*e:])
		}
		return fnode[TV, TIX]{Desc: int(rdIdx[TIX](raw)), Vec: v, raw: raw, kid: func(k int) TIX {
			p := l.kids + k*w
			if k < 0 || p+w > l.size {
				panic(fmt.Sprintf("child %d of node %d is outside the node", k, i))
			}
			return rdIdx[TIX](raw[p:])
		}}
	}
	return fo, nil
}

func c29[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	idx := w.buildAny(c)
	path := c.File("a.ann")
	c.Check(idx.Save(path) == nil, "Save failed")
	b, err := os.ReadFile(path)
	c.Check(err == nil, "reading back: %v", err)
	fo, err := rawForest(b, w.S, k)
	c.Check(err == nil, "by the documented layout: %v", err)
	if err := fo.Check(c, w.S, w.T); err != nil {
		c.Fail("by the documented layout: %v", err)
	}
	// the helpers of items: squared norm or the factor of the reduction to angles
	l := layoutOf(k, w.S.F)
	maxn := 0.0
	for _, id := range w.S.Ids() {
		_, n, _ := dot64(w.S.V[id], w.S.V[id])
		maxn = math.Max(maxn, n)
	}
	u := 16 * float64(w.S.F+16) * (eps[TV]() + 0x1p-53)
	for _, id := range w.S.Ids() {
		raw := fo.nd(int(id)).raw
		_, n, _ := dot64(w.S.V[id], w.S.V[id])
		if k.Dot {
			x := float64(rdVal[TV](raw[l.factor:]))
			c.Check(x >= 0 && math.Abs(x*x+n-maxn) <= u*maxn, "item %d: factor %v, squared norm %v, greatest %v", id, x, n, maxn)
		} else {
			x := float64(rdVal[TV](raw[l.kids:]))
			c.Check(math.Abs(x-n) <= u*n, "item %d: stored squared norm %v is %v", id, x, n)
		}
	}
	c.Count("item headers judged", int64(w.S.N()))
	// a file made by our own writer from the parsed nodes is as good: order and nodes are all there is
	x := w.Spec().New()
	p2 := c.File("copy.ann")
	os.WriteFile(p2, b, 0o644)
	c.Check(x.Load(p2) == nil, "Load of a copy failed")
	qs := w.queries(c, 4)
	sameAnswers(c, "copied file", qs, askAll(idx, qs), askAll(x, qs))
	x.Close()
	idx.Close()
	c.Clean()
	c.Count("files judged by the documented layout", 1)
	c.Eval(w.S.N() > w.Cap, c.Name)
}

// goldenRec is what a file written by the version the format was fixed at must give.
type goldenRec struct {
	F       int
	Dot     bool
	Trees   int
	Ids     []uint64
	Vecs    [][]float64
	Queries []goldenQuery
}

type goldenQuery struct {
	V         []float64
	NumReturn int
	Budget    int
	Ids       []uint64
	Ds        []float64
}

func goldenName(f int) string { return fmt.Sprintf("golden/g%02d", f) }

func makeGolden[TV VT, TIX IT](dir string, f int, k Combo) {
	r := rand.New(rand.NewPCG(uint64(f), 77))
	kind := f / 8 // 0 splits, 1 root buckets, 2 several workers
	w := &world[TV, TIX]{K: k, Seed: TIX(f + 1)}
	n := 45
	vl := 3
	lay := "gap"
	switch kind {
	case 0:
		w.T = 3
	case 1:
		n, vl, w.T, lay = 3, 8, 2, "dense"
	case 2:
		w.T = 5
		lay = "shuffled"
	}
	w.S = genSet[TV, TIX](r, n, vl, "gauss", lay, k.Dot)
	sp := w.Spec()
	workers := 1
	if kind == 2 {
		sp.Policy = policy.MultiWorker()
		workers = 3
	}
	idx := sp.New()
	w.S.AddTo(idx)
	idx.Build(w.T, workers)
	g := goldenRec{F: vl, Dot: k.Dot, Trees: w.T}
	for _, id := range w.S.Ids() {
		g.Ids = append(g.Ids, uint64(id))
		g.Vecs = append(g.Vecs, f64s(w.S.V[id]))
	}
	for i := 0; i < 6; i++ {
		v := genVectors[TV](r, 1, vl, "gauss")[0]
		q := goldenQuery{V: f64s(v), NumReturn: []int{1, 5, n, 5, 10, 3}[i], Budget: []int{-1, 12, w.T * n, 3, 20, -1}[i]}
		ids, ds := idx.GetNnsByVector(v, q.NumReturn, q.Budget, idx.CreateContext())
		for j := range ids {
			q.Ids = append(q.Ids, uint64(ids[j]))
			q.Ds = append(q.Ds, float64(ds[j]))
		}
		g.Queries = append(g.Queries, q)
	}
	os.MkdirAll(filepath.Join(dir, "golden"), 0o755)
	if err := idx.Save(filepath.Join(dir, goldenName(f)+".ann")); err != nil {
		panic(err)
	}
	b, _ := json.Marshal(g)
	os.WriteFile(filepath.Join(dir, goldenName(f)+".json"), b, 0o644)
	idx.Close()
}

func f64s[TV VT](v []TV) []float64 {
	o := make([]float64, len(v))
	for i, x := range v {
		o[i] = float64(x)
	}
	return o
}

func tvs[TV VT](v []float64) []TV {
	o := make([]TV, len(v))
	for i, x := range v {
		o[i] = TV(x)
	}
	return o
}

func c29golden[TV VT, TIX IT](c *Case, k Combo) {
	f := c.I % 24
	b, err := golden.ReadFile(goldenName(f) + ".ann")
	infra("golden", err)
	j, err := golden.ReadFile(goldenName(f) + ".json")
	infra("golden", err)
	var g goldenRec
	infra("golden", json.Unmarshal(j, &g))
	path := c.File("g.ann")
	infra("write", os.WriteFile(path, b, 0o644))
	sp := Spec[TV, TIX]{F: g.F, Dot: g.Dot, Seed: 3}
	if c.I >= 24 {
		sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	}
	idx := sp.New()
	err = idx.Load(path)
	c.Check(err == nil, "Load of a file written earlier (%s, %v): %v", goldenName(f), k, err)
	has := map[uint64]bool{}
	for i, id := range g.Ids {
		has[id] = true
		got := idx.GetItem(TIX(id))
		c.Check(sameBits(got, tvs[TV](g.Vecs[i])), "%s item %d reads %v, was %v", goldenName(f), id, got, g.Vecs[i])
	}
	for _, q := range g.Queries {
		ids, ds := idx.GetNnsByVector(tvs[TV](q.V), q.NumReturn, q.Budget, idx.CreateContext())
		c.Check(len(ids) == len(q.Ids) && len(ds) == len(ids), "%s: %d answers to %+v", goldenName(f), len(ids), q)
		for i := range ids {
			c.Check(uint64(ids[i]) == q.Ids[i], "%s: query %+v gives %v", goldenName(f), q, ids)
			c.Check(math.Abs(float64(ds[i])-q.Ds[i]) <= 1e-5*(1+math.Abs(q.Ds[i])), "%s: query %+v gives distances %v", goldenName(f), q, ds)
		}
		c.Count("answers from files written earlier judged", 1)
	}
	p2 := c.File("again.ann")
	c.Check(idx.Save(p2) == nil, "Save failed")
	b2, _ := os.ReadFile(p2)
	c.Check(bytes.Equal(b, b2), "%s saved again is another file", goldenName(f))
	idx.Close()
	c.Clean()
	c.Eval(true, c.Name)
	c.Sample("%s %v: %d items, %d queries as recorded", goldenName(f), k, len(g.Ids), len(g.Queries))
}

// ---- C30: work and space in proportion

type workDist[TV VT, TIX IT] struct {
	dist[TV, TIX]
	mem     *movingAlloc
	items   map[uintptr]int // distance evaluations by node
	margins map[uintptr]int
	other   int
}

func nodeAddr(n any) uintptr {
	type iface struct{ typ, data unsafe.Pointer }
	return uintptr((*iface)(unsafe.Pointer(&n)).data)
}

func (d *workDist[TV, TIX]) inside(a uintptr) bool {
	b := uintptr(d.mem.cur.base)
	return a >= b && a < b+uintptr(d.mem.cur.n)
}

func (d *workDist[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	if d.items != nil && d.mem.cur != nil {
		for _, n := range []interfaces.Node[TV, TIX]{x, y} {
			if a := nodeAddr(n); d.inside(a) {
				d.items[a-uintptr(d.mem.cur.base)]++
			}
		}
	}
	return d.dist.Distance(x, y)
}

func (d *workDist[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	if d.margins != nil && d.mem.cur != nil {
		if a := nodeAddr(n); d.inside(a) {
			d.margins[a-uintptr(d.mem.cur.base)]++
		} else {
			d.other++
		}
	}
	return d.dist.Margin(n, y)
}

func c30[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if c.I%10 == 3 {
		f := In(c.R, 2, 4, 8, 16)
		w.Cap = capacity[TV, TIX](f, k.Dot)
		w.S = genSet[TV, TIX](c.R, 3000+c.R.IntN(12000), f, "gauss", In(c.R, "dense", "shuffled", "gap"), k.Dot)
		w.T = In(c.R, 1, 2, 3)
		c.Note("large: %v", w.S)
		c.Count("large sets", 1)
	}
	mem := &movingAlloc{flushEnd: true}
	d := &workDist[TV, TIX]{dist: newDist[TV, TIX](w.S.F, k.Dot), mem: mem}
	sp := w.Spec()
	sp.Alloc, sp.Dist = mem, d
	ns := int(d.NodeSize())
	g0 := runtime.NumGoroutine()
	workers := 1
	if c.R.IntN(3) == 0 {
		sp.Policy = policy.MultiWorker()
		workers = In(c.R, 2, 3, 5, 8)
	}
	idx := sp.New()
	w.S.AddTo(idx)
	bound := func(what string, need int) {
		// growth by a tenth at a time is as slow as a sensible one gets
		lim := 12*math.Log(float64(need)+1) + 12
		if w.S.Lay != "dense" && w.S.Lay != "shuffled" {
			lim += 4
		}
		c.Check(float64(mem.calls) <= lim, "%s: %d reallocations for %d nodes (%v ...)", what, mem.calls, need, mem.sizes[:min(30, len(mem.sizes))])
		c.Check(mem.cur.n <= 4*(need+2)*ns, "%s: %d bytes of node memory for %d nodes of %d bytes", what, mem.cur.n, need, ns)
		c.Check(mem.cur.n >= need*ns, "%s: %d bytes of node memory for %d nodes of %d bytes", what, mem.cur.n, need, ns)
	}
	bound("adding", w.S.NItems())
	idx.Build(w.T, workers)
	for i := 0; runtime.NumGoroutine() > g0; i++ {
		c.Check(i < 300, "%d goroutines after the build, %d before", runtime.NumGoroutine(), g0)
		time.Sleep(10 * time.Millisecond)
	}
	nT := w.T
	// queries
	N := w.S.N()
	for j := 0; j < 8; j++ {
		q := w.query(c.R)
		B := In(c.R, 1, 2, 10, w.Cap, 1+c.R.IntN(N), 1+c.R.IntN(N*nT), N*nT)
		nr := In(c.R, 1, 5, 10, N)
		d.items, d.margins, d.other = map[uintptr]int{}, map[uintptr]int{}, 0
		ids, _ := idx.GetNnsByVector(q, nr, B, idx.CreateContext())
		tot := 0
		for a, n := range d.items {
			c.Check(int(a)%ns == 0, "a distance was asked of offset %d", a)
			_, ok := w.S.V[TIX(int(a)/ns)]
			c.Check(ok && int(a)/ns < w.S.NItems(), "a distance was asked of node %d, not an item", int(a)/ns)
			c.Check(n == 1, "the distance of item %d was worked out %d times in one query", int(a)/ns, n)
			tot++
		}
		c.Check(tot <= N && tot < B+max(w.Cap, 1), "%d distances worked out under a budget of %d (bucket capacity %d)", tot, B, w.Cap)
		c.Check(tot >= len(ids), "%d results but %d distances worked out", len(ids), tot)
		for a, n := range d.margins {
			c.Check(n == 1, "split %d was visited %d times in one query", int(a)/ns, n)
		}
		c.Check(len(d.margins)+d.other <= nT*max(N-1, 1), "%d splits visited, there are at most %d", len(d.margins)+d.other, nT*max(N-1, 1))
		c.Count("distances counted", int64(tot))
		c.Count("splits counted", int64(len(d.margins)))
		c.Count("queries counted", 1)
		c.Eval(N > w.Cap, c.Name, j)
	}
	d.items, d.margins = nil, nil
	// memory of a query: not more than its candidates need
	if N > 1000 {
		ctx := idx.CreateContext()
		q := w.query(c.R)
		idx.GetNnsByVector(q, 10, 10, ctx)
		var m0, m1 runtime.MemStats
		best := uint64(math.MaxUint64)
		for t := 0; t < 5; t++ {
			runtime.ReadMemStats(&m0)
			idx.GetNnsByVector(q, 10, 10, ctx)
			runtime.ReadMemStats(&m1)
			best = min(best, m1.TotalAlloc-m0.TotalAlloc)
		}
		lim := uint64(8192 + 4*ns + 512*(10+w.Cap+nT*64))
		c.Check(best <= lim, "a query for 10 candidates of %d items allocates %d bytes (limit %d)", N, best, lim)
		c.Max("bytes allocated by a small query", int64(best))
		c.Count("query allocations judged", 1)
	}
	path := c.File("a.ann")
	c.Check(idx.Save(path) == nil, "Save failed")
	st, err := os.Stat(path)
	c.Check(err == nil, "no file: %v", err)
	nodes := int(st.Size()) / ns
	c.Check(int(st.Size())%ns == 0 && nodes <= w.S.NItems()+nT*(2*N+1), "a file of %d bytes for %d item slots, %d items and %d trees", st.Size(), w.S.NItems(), N, nT)
	c.Max("reallocations", int64(mem.calls))
	idx.Close()
	mem.release()
	c.Clean()
}

// ---- C31: the forms of a query agree

// virtAlloc hands out one large piece of address space, pages come when they are touched.
type virtAlloc struct {
	all   []byte
	calls int
	size  int
}

func (a *virtAlloc) Reallocate(n int) unsafe.Pointer {
	a.calls++
	if n > len(a.all) {
		panic(fmt.Sprintf("Reallocate(%d)", n))
	}
	a.size = n
	return unsafe.Pointer(&a.all[0])
}
func (a *virtAlloc) Free() {}

// c30wide judges the growth of node memory up to sizes that could not be copied.
func c30wide[TV VT, TIX IT](c *Case, k Combo) {
	const space = 48 << 30
	all, err := syscall.Mmap(-1, 0, space, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	infra("mmap", err)
	defer syscall.Munmap(all)
	a := &virtAlloc{all: all}
	f := In(c.R, 1, 2, 5, 16, 100, 300)
	sp := (&world[TV, TIX]{K: k, S: newSet[TV, TIX](f, k.Dot), T: 1, Seed: 1}).Spec()
	sp.Alloc = a
	idx := sp.New()
	ns := int(newDist[TV, TIX](f, k.Dot).NodeSize())
	nodes := min(space/4, 1<<(16+c.R.IntN(19))) / ns // up to 12 GiB, growth by doubling must fit
	if uint64(TIX(nodes)) != uint64(nodes) {
		nodes = 1 << 31
	}
	steps := min(nodes, 4000)
	v := make([]TV, f)
	v[0] = 1
	for i := 1; i <= steps; i++ {
		id := nodes/steps*i - 1
		idx.AddItem(TIX(id), v)
		c.Check(a.size >= (id+1)*ns, "%d bytes for %d nodes of %d bytes", a.size, id+1, ns)
		c.Check(a.size <= 4*(id+3)*ns, "%d bytes of node memory for %d nodes of %d bytes", a.size, id+1, ns)
	}
	lim := 12*math.Log(float64(nodes)+1) + 12
	c.Check(float64(a.calls) <= lim, "%d reallocations for %d nodes of %d bytes, added in %d steps", a.calls, nodes, ns, steps)
	// and all the other ids below need none
	calls := a.calls
	for i := 0; i < 200; i++ {
		idx.AddItem(TIX(c.R.IntN(nodes/steps*steps)), v)
	}
	c.Check(a.calls == calls, "adding items below the largest id reallocates")
	c.Count("growths judged", 1)
	c.Max("MiB of nodes that growth was judged for", int64(nodes)*int64(ns)>>20)
	c.Eval(true, c.Name)
	idx.Close()
}

// c30query compares what small queries allocate on a small and on a large index.
func c30query[TV VT, TIX IT](c *Case, k Combo) {
	f := In(c.R, 2, 3, 4)
	T := In(c.R, 1, 2)
	B := In(c.R, 1, 10, 40)
	var bytes, objs [2]uint64
	for i, n := range []int{1500, 150000 + c.R.IntN(100000)} {
		w := &world[TV, TIX]{K: k, T: T, Seed: 7, Cap: capacity[TV, TIX](f, k.Dot)}
		w.S = genSet[TV, TIX](c.R, n, f, "gauss", "dense", k.Dot)
		idx := w.Build(w.Spec())
		ctx := idx.CreateContext()
		bytes[i], objs[i] = math.MaxUint64, math.MaxUint64
		for t := 0; t < 40; t++ {
			q := w.query(c.R)
			var m0, m1 runtime.MemStats
			best, bobj := uint64(math.MaxUint64), uint64(math.MaxUint64)
			for u := 0; u < 3; u++ {
				runtime.ReadMemStats(&m0)
				idx.GetNnsByVector(q, 5, B, ctx)
				runtime.ReadMemStats(&m1)
				best, bobj = min(best, m1.TotalAlloc-m0.TotalAlloc), min(bobj, m1.Mallocs-m0.Mallocs)
			}
			bytes[i], objs[i] = min(bytes[i], best), min(objs[i], bobj)
		}
		idx.Close()
	}
	c.Check(bytes[1] <= 4*bytes[0]+4096, "a query with a budget of %d allocates %d bytes on 1500 items and %d on a hundred times as many", B, bytes[0], bytes[1])
	c.Check(objs[1] <= 4*objs[0]+100, "a query with a budget of %d allocates %d objects on 1500 items and %d on a hundred times as many", B, objs[0], objs[1])
	c.Max("bytes allocated by a small query on a large index", int64(bytes[1]))
	c.Count("small and large indexes compared", 1)
	c.Eval(true, c.Name)
	c.Clean()
}

func c31[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	idx := w.buildAny(c)
	near := func(a, b TV, q, v []TV) bool {
		if a == b {
			return true
		}
		lo, hi := refDist(k.Dot, q, v)
		return math.Abs(float64(a)-float64(b)) <= hi-lo+8*eps[TV]()*math.Abs(float64(a))
	}
	// same answers up to ties
	agree := func(what string, q []TV, a, b Ans[TV, TIX]) {
		c.Check(len(a.Ids) == len(b.Ids), "%s: %d results against %d", what, len(a.Ids), len(b.Ids))
		for i := range a.Ids {
			v := w.S.V[a.Ids[i]]
			c.Check(near(a.Ds[i], b.Ds[i], q, v), "%s: rank %d is at %v (id %d) against %v (id %d)", what, i, a.Ds[i], a.Ids[i], b.Ds[i], b.Ids[i])
		}
	}
	w.variants(c, idx, func(stage string, x interfaces.AnnoyIndex[TV, TIX]) {
		N := w.S.N()
		for j := 0; j < 6; j++ {
			B := In(c.R, 1, 2, 5, 1+c.R.IntN(20), 1+c.R.IntN(N*w.T), N*w.T)
			id := w.S.Ids()[c.R.IntN(N)]
			q := w.query(c.R)
			if j%2 == 0 {
				q = append([]TV(nil), x.GetItem(id)...)
			}
			all := Query[TV, TIX]{V: q, NumReturn: N + 3, Budget: B}.Ask(x, nil)
			rank := map[TIX]TV{}
			for i, id := range all.Ids {
				rank[id] = all.Ds[i]
			}
			for _, nr := range []int{1, 2, 1 + c.R.IntN(N), len(all.Ids), max(1, len(all.Ids)-1), N} {
				a := Query[TV, TIX]{V: q, NumReturn: nr, Budget: B}.Ask(x, nil)
				c.Check(len(a.Ids) == min(nr, len(all.Ids)), "%s: budget %d finds %d candidates, but %d of %d asked for are returned", stage, B, len(all.Ids), len(a.Ids), nr)
				c.Check(sameSlice(a.Ids, all.Ids[:len(a.Ids)]), "%s: budget %d, numReturn %d: %v, among all %v", stage, B, nr, a.Ids, all.Ids)
				for i, id := range a.Ids {
					d, ok := rank[id]
					c.Check(ok, "%s: budget %d, numReturn %d: id %d is not among all candidates %v", stage, B, nr, id, all.Ids)
					c.Check(near(d, a.Ds[i], q, w.S.V[id]), "%s: budget %d: id %d is at %v or at %v", stage, B, id, d, a.Ds[i])
					c.Check(near(all.Ds[i], a.Ds[i], q, w.S.V[id]), "%s: budget %d, numReturn %d: rank %d is at %v, among all at %v", stage, B, nr, i, a.Ds[i], all.Ds[i])
				}
				c.Count("truncations judged", 1)
			}
			if j%2 == 0 {
				nr := In(c.R, 1, 5, N, 1+c.R.IntN(N))
				bi := Query[TV, TIX]{ByItem: true, Item: id, NumReturn: nr, Budget: B}.Ask(x, nil)
				bv := Query[TV, TIX]{V: q, NumReturn: nr, Budget: B}.Ask(x, nil)
				agree(fmt.Sprintf("%s: item %d by id and by vector, numReturn %d, budget %d", stage, id, nr, B), q, bi, bv)
				d := Query[TV, TIX]{ByItem: true, Item: id, NumReturn: nr, Budget: -1}.Ask(x, nil)
				dv := Query[TV, TIX]{V: q, NumReturn: nr, Budget: -1}.Ask(x, nil)
				agree(fmt.Sprintf("%s: item %d by id and by vector, numReturn %d, default budget", stage, id, nr), q, d, dv)
				for i, o := range bi.Ids {
					g, h := x.GetDistance(id, o), x.GetDistance(o, id)
					c.Check(near(bi.Ds[i], g, q, w.S.V[o]) && near(g, h, q, w.S.V[o]), "%s: the query says %v between %d and %d, GetDistance %v and %v", stage, bi.Ds[i], id, o, g, h)
				}
				c.Count("item queries judged", 2)
			}
			c.Eval(len(all.Ids) > 1, c.Name, stage, j)
		}
	})
	idx.Close()
	c.Clean()
}
