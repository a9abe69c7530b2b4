package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

func init() {
	checks["C17"] = func(e *Env) {
		n := 3000
		if e.Mode != "plain" {
			n = 320
		}
		e.Loop(n, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c17[float32, uint32], c17[float32, uint64], c17[float64, uint32], c17[float64, uint64])(c, k)
		})
	}
	checks["C18"] = func(e *Env) {
		e.Loop(8, func(c *Case) {
			k := Combo{F64: c.I&1 != 0, Dot: c.I&2 != 0}
			split := c.I&4 != 0
			if c.I >= 8 && c.R.IntN(3) == 0 {
				k.U64 = true
			}
			defer debug.FreeOSMemory()
			if split {
				pick(k, c18split[float32, uint32], c18split[float32, uint64], c18split[float64, uint32], c18split[float64, uint64])(c, k)
				return
			}
			pick(k, c18[float32, uint32], c18[float32, uint64], c18[float64, uint32], c18[float64, uint64])(c, k)
		})
	}
}

// faulted tells if a recovered panic value is an access to memory that is not there.
func faulted(v any) bool {
	if v == nil {
		return false
	}
	if a, ok := v.(interface{ Addr() uintptr }); ok {
		_ = a
		return true
	}
	if e, ok := v.(runtime.Error); ok {
		s := e.Error()
		return bytes.Contains([]byte(s), []byte("invalid memory address")) || bytes.Contains([]byte(s), []byte("unexpected fault"))
	}
	return false
}

// guardedVec puts a vector between unmapped pages, flush with one of them. The memory stays
// mapped until the returned function is called.
func guardedVec[TV VT](v []TV, end bool) ([]TV, func()) {
	sz := int(unsafe.Sizeof(TV(0)))
	r := newRegion(len(v)*sz, end)
	if len(v) == 0 {
		return v, func() { syscall.Munmap(r.all) }
	}
	g := unsafe.Slice((*TV)(r.base), len(v))
	copy(g, v)
	return g, func() { syscall.Munmap(r.all) }
}

// c17 runs random histories of valid and refused calls.
func c17[TV VT, TIX IT](c *Case, k Combo) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 150 {
		w.S = genSet[TV, TIX](c.R, 1+c.R.IntN(150), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	f := w.S.F
	guarded := c.Mode == "plain"
	sp := w.Spec()
	var mv *movingAlloc
	var gi *guardIndexAlloc
	if guarded {
		mv = &movingAlloc{flushEnd: c.R.IntN(4) > 0}
		sp.Alloc = mv
		if c.R.IntN(3) > 0 {
			gi = &guardIndexAlloc{flushEnd: c.R.IntN(4) > 0}
			sp.IdxAlloc = gi
		}
		defer mv.release()
	} else if c.R.IntN(2) == 0 {
		sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	}
	if c.R.IntN(3) == 0 {
		sp.Policy = policy.MultiWorker()
	}
	if c.R.IntN(4) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(2*w.S.NItems()))
	}
	if c.R.IntN(15) == 0 && w.S.N() < 80 {
		sp.Verbose = true
		defer quiet()()
	}
	if c.R.IntN(2) == 0 {
		_, ss := sorters[TV, TIX]()
		sp.Sorter = ss[c.R.IntN(len(ss))]
	}
	if c.R.IntN(4) == 0 {
		g := &gapSorter[TV, TIX]{c: c}
		_, ss := sorters[TV, TIX]()
		g.in = ss[0]
		sp.Sorter = g
	}
	idx := sp.New()
	path := c.File("m.ann")
	saved := false
	var ctxs []interfaces.AnnoyIndexContext[TV, TIX]
	ctxs = append(ctxs, idx.CreateContext())
	order := w.S.Order
	state := "empty"
	at := 0
	nItems := TIX(0)
	var drop []func()
	defer func() {
		for _, d := range drop {
			d()
		}
	}()
	vec := func(v []TV) []TV {
		if !guarded {
			return append(make([]TV, 0, len(v)), v...)
		}
		g, d := guardedVec(v, c.R.IntN(4) > 0)
		drop = append(drop, d)
		return g
	}
	var kept []Ans[TV, TIX]
	// op runs one call; mayRefuse: a panic other than a memory fault is fine
	op := func(name string, mayRefuse bool, fn func()) {
		did, val := Panics(fn)
		if did && (faulted(val) || !mayRefuse) {
			c.Fail("%s in state %s: %v (guards: flush end %v)", name, state, val, mv != nil && mv.flushEnd)
		}
		c.Count("op "+name, 1)
		c.Count("operations judged", 1)
	}
	big := func() TIX {
		var b TIX
		b--
		return In(c.R, nItems, nItems+1, nItems+7, b, b/2+1, TIX(1)<<31, b/TIX(4*f+12), nItems+TIX(c.R.IntN(1000)))
	}
	inside := func() TIX {
		if nItems == 0 {
			return 0
		}
		return TIX(c.R.IntN(int(nItems)))
	}
	ctx := func() interfaces.AnnoyIndexContext[TV, TIX] {
		if c.R.IntN(3) == 0 {
			ctxs = append(ctxs, idx.CreateContext())
			return ctxs[len(ctxs)-1]
		}
		return ctxs[c.R.IntN(len(ctxs))]
	}
	budget := func() int {
		return In(c.R, -1, 0, 1, 2, 5, 50, c.R.IntN(2000), 1<<30, w.S.N()*w.T, w.S.N()*w.T+1)
	}
	nret := func() int { return In(c.R, 0, 1, 2, 10, w.S.N(), w.S.N()+10, 1<<20) }
	hist := ""
	steps := 30 + c.R.IntN(50)
	for s := 0; s < steps; s++ {
		has := state != "empty"
		built := state == "built" || state == "loaded"
		x := c.R.IntN(22)
		hist += fmt.Sprint(x, ",")
		switch {
		case x < 5 && !built:
			n := 1 + c.R.IntN(1+len(order)/3)
			for ; n > 0 && at < len(order); n-- {
				id := order[at]
				at++
				op("AddItem", false, func() { idx.AddItem(id, vec(w.S.V[id])) })
				if id >= nItems {
					nItems = id + 1
				}
				state = "filled"
			}
		case x == 5 && state == "filled":
			op("Build", false, func() { idx.Build(In(c.R, w.T, w.T, -1), In(c.R, 0, 1, 2, 4, -1)) })
			state = "built"
		case x == 5 && built:
			op("Build (refused)", true, func() { idx.Build(2, 2) })
		case x == 6:
			op("AddItem (wrong length)", true, func() {
				n := In(c.R, 0, f-1, f+1, 2*f, f+1000)
				if n == f || n < 0 {
					n = f + 1
				}
				idx.AddItem(big(), vec(make([]TV, n)))
			})
		case x == 7 && !built:
			// ids whose node can't be addressed
			var id TIX
			if id--; unsafe.Sizeof(id) == 8 {
				size := uint64(newDist[TV, TIX](f, k.Dot).NodeSize())
				q := math.MaxUint64/size + 1
				id = In(c.R, id, TIX(uint64(1)<<(50+c.R.IntN(14))), TIX(q), TIX(q)+1, TIX(math.MaxInt64/size)+1)
			}
			op("AddItem (not addressable)", true, func() { idx.AddItem(id, vec(make([]TV, f))) })
		case x == 7 && built:
			op("AddItem (refused)", true, func() { idx.AddItem(In(c.R, inside(), big()), vec(make([]TV, f))) })
		case x == 8:
			op("GetItem outside", true, func() { touch(idx.GetItem(big())) })
		case x == 9:
			op("GetDistance outside", true, func() {
				if c.R.IntN(2) == 0 {
					idx.GetDistance(big(), inside())
				} else {
					idx.GetDistance(inside(), big())
				}
			})
		case x == 10:
			op("GetNnsByItem outside", true, func() { idx.GetNnsByItem(big(), nret(), budget(), ctx()) })
		case x == 11:
			op("query of a wrong length", true, func() {
				n := In(c.R, 0, f-1, f+1, 2*f, f+1000)
				if n == f || n < 0 {
					n = f + 1
				}
				idx.GetNnsByVector(vec(make([]TV, n)), nret(), budget(), ctx())
			})
		case x == 12 && has:
			op("GetItem", false, func() { touch(idx.GetItem(inside())) })
		case x == 13 && has:
			op("GetDistance", false, func() { idx.GetDistance(inside(), inside()) })
		case x == 14 && has:
			op("GetNnsByItem", false, func() {
				var a Ans[TV, TIX]
				a.Ids, a.Ds = idx.GetNnsByItem(inside(), nret(), budget(), ctx())
				kept = append(kept, a)
			})
		case x == 15 && built && c.R.IntN(2) == 0:
			op("Save", false, func() {
				err := idx.Save(path)
				c.Check(err == nil, "Save: %v", err)
			})
			saved, state = true, "loaded"
		case x == 16 && saved && c.R.IntN(2) == 0:
			op("Load", false, func() {
				err := idx.Load(path)
				c.Check(err == nil, "Load: %v", err)
			})
			state = "loaded"
			nItems = TIX(w.loadedItems(c, path))
		case x == 17 && c.R.IntN(4) == 0:
			op("Close", false, func() {
				err := idx.Close()
				c.Check(err == nil, "Close: %v", err)
			})
			state, at, nItems = "empty", 0, 0
		case x == 18 && c.R.IntN(3) == 0:
			bad := c.File("bad.ann")
			os.WriteFile(bad, make([]byte, 1+c.R.IntN(200)*2+1), 0o644)
			d := newDist[TV, TIX](f, k.Dot)
			if st, _ := os.Stat(bad); st.Size()%int64(d.NodeSize()) == 0 {
				os.WriteFile(bad, []byte("x"), 0o644)
			}
			op("Load (bad file)", false, func() {
				err := idx.Load(In(c.R, bad, c.File("missing.ann"), c.Dir()))
				c.Check(err != nil, "loading a bad file gives no error")
			})
			state, at, nItems = "empty", 0, 0
		case x == 19:
			op("CreateContext", false, func() { ctxs = append(ctxs, idx.CreateContext()) })
		default:
			op("GetNnsByVector", false, func() {
				var a Ans[TV, TIX]
				a.Ids, a.Ds = idx.GetNnsByVector(vec(w.query(c.R)), nret(), budget(), ctx())
				kept = append(kept, a)
			})
		}
	}
	for _, a := range kept { // answers are the user's own memory
		for i := range a.Ids {
			if !w.has(a.Ids[i]) {
				c.Fail("an answer holds id %d, which was never added", a.Ids[i])
			}
		}
	}
	op("Close", false, func() { idx.Close() })
	if mv != nil {
		c.Count("replaced memories revoked", int64(len(mv.old)))
	}
	if gi != nil {
		gi.release()
	}
	c.Clean()
	c.Eval(true, hist)
	c.Sample("%v T=%d: %d operations on guarded=%v memory, final state %s", w.S, w.T, steps, guarded, state)
}

func (w *world[TV, TIX]) has(id TIX) bool { _, ok := w.S.V[id]; return ok }

// loadedItems reads the number of items from the root at the end of a file.
func (w *world[TV, TIX]) loadedItems(c *Case, path string) int {
	b, err := os.ReadFile(path)
	infra("reading "+path, err)
	d := newDist[TV, TIX](w.S.F, w.K.Dot)
	al := align8(len(b) + 64)[:len(b)]
	copy(al, b)
	n := d.MapNodeToMemory(unsafe.Pointer(&al[0]), TIX(len(b)/int(d.NodeSize())-1))
	return int(n.GetNumberOfDescendants())
}

var sink float64

func touch[TV VT](v []TV) {
	for _, x := range v {
		sink += float64(x)
	}
}

// gapSorter checks that a search only hands over its own candidates.
type gapSorter[TV VT, TIX IT] struct {
	in interfaces.Sorter[TV, TIX]
	c  *Case
}

func (s *gapSorter[TV, TIX]) SortSlice(x []TIX)                       { s.in.SortSlice(x) }
func (s *gapSorter[TV, TIX]) SortPairs(p []*interfaces.Pair[TV, TIX]) { s.in.SortPairs(p) }
func (s *gapSorter[TV, TIX]) PartialSortSlice(p interfaces.Pairs[TV, TIX], b, m, e int) {
	if b < 0 || m < b || e < m || e > len(p) {
		s.c.Fail("PartialSortSlice(begin=%d, middle=%d, end=%d) of %d pairs", b, m, e, len(p))
	}
	for _, x := range p[b:e] {
		if x == nil {
			s.c.Fail("the sorter is given a nil pair")
		}
	}
	s.in.PartialSortSlice(p, b, m, e)
}

// sparse is a build allocator over reserved address space: only touched pages cost memory.
type sparse struct {
	all   []byte
	n     int
	calls int
	frees int
	grow  bool // move on growing
	old   [][]byte
}

const sparseSize = 24 << 30

func newSparse() *sparse { return &sparse{} }

func reserve() []byte {
	all, err := syscall.Mmap(-1, 0, sparseSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	infra("reserving address space", err)
	syscall.Madvise(all, 15) // MADV_NOHUGEPAGE
	return all
}

func (a *sparse) Reallocate(n int) unsafe.Pointer {
	if n < 0 || n > sparseSize {
		panic(fmt.Sprintf("Reallocate(%d)", n))
	}
	a.calls++
	if a.all == nil {
		a.all = reserve()
	}
	a.n = max(a.n, n)
	return unsafe.Pointer(&a.all[0])
}

func (a *sparse) Free() { a.frees++ }
func (a *sparse) release() {
	if a.all != nil {
		syscall.Munmap(a.all)
		a.all = nil
	}
}

// freeDisk tells how much room there is in a directory.
func freeDisk(dir string) int64 {
	var st syscall.Statfs_t
	if syscall.Statfs(dir, &st) != nil {
		return 0
	}
	return int64(st.Bavail) * st.Bsize
}

// bigItems are ids on both sides of the 2 GiB, 4 GiB and 8 GiB boundaries, and ids whose offsets
// are equal modulo 4 GiB up to a node.
func bigItems(r *rand.Rand, nodeSize int, top int) []int {
	seen := map[int]bool{}
	var out []int
	put := func(i int) {
		if i >= 0 && i <= top && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, b := range []int{1 << 31, 1 << 32, 1 << 33} {
		n := b / nodeSize
		for d := -2; d <= 2; d++ {
			put(n + d)
		}
		j := 5 + r.IntN(50)
		put(j)
		put(n + j)
		put(n + j + 1)
	}
	put(0)
	put(1)
	put(top)
	put(top - 1)
	for i := 0; i < 8; i++ {
		put(r.IntN(top))
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func c18[TV VT, TIX IT](c *Case, k Combo) {
	f := In(c.R, 1<<18, 1<<18+3, 200000)
	d := newDist[TV, TIX](f, k.Dot)
	ns := int(d.NodeSize())
	top := 5<<30/ns + c.R.IntN(50)
	if c.I >= 8 && c.R.IntN(3) == 0 {
		top = 9<<30/ns + c.R.IntN(50)
	}
	s := newSet[TV, TIX](f, k.Dot)
	s.Fam, s.Lay = "gauss", "big"
	ids := bigItems(c.R, ns, top)
	small := make([]TV, f)
	for _, id := range ids {
		// a random head and a random tail, so that a shifted read is seen
		v := small
		for i := range v {
			v[i] = TV(0.001)
		}
		for i := 0; i < 40; i++ {
			v[i] = TV(c.R.NormFloat64())
			v[f-1-i] = TV(c.R.NormFloat64())
		}
		s.put(TIX(id), v)
	}
	sp := Spec[TV, TIX]{F: f, Dot: k.Dot, Seed: 7}
	var al *sparse
	how := "sparse memory"
	if c.R.IntN(2) == 0 && c.I >= 8 || c.I == 2 || c.I == 1 {
		// the library's own allocator, all at once by the hint
		sp.Hint = TIX(top + 20)
		how = "hint"
		if c.I == 1 || c.I >= 8 && c.R.IntN(3) == 0 {
			// too little: the library's allocator has to move more than 4 GiB
			sp.Hint = TIX(top*2/3 - 2)
			how = "hint and growth"
			c.Count("node memories beyond 4 GiB moved", 1)
		}
	} else {
		al = newSparse()
		sp.Alloc = al
		defer al.release()
	}
	T := 1 + c.R.IntN(2)
	c.Note("f=%d node=%d top=%d items=%d %s T=%d %v", f, ns, top, len(ids), how, T, k)
	idx := sp.New()
	w := &world[TV, TIX]{K: k, S: s, T: T, Seed: 7}
	s.AddTo(idx)
	readAll := func(what string, x interfaces.AnnoyIndex[TV, TIX]) {
		for _, id := range s.Ids() {
			if !sameRaw(x.GetItem(id), s.V[id]) {
				c.Fail("%s: item %d at byte %d does not read back", what, id, int(id)*ns)
			}
			c.Count("items read back", 1)
			if int(id)*ns >= 1<<32 {
				c.Count("items beyond 4 GiB", 1)
			}
		}
		g := TIX(top - 3)
		if _, ok := s.V[g]; !ok {
			for _, e := range x.GetItem(g) {
				if e != 0 {
					c.Fail("%s: the gap %d reads %v", what, g, e)
				}
			}
		}
	}
	judge := func(what string, x interfaces.AnnoyIndex[TV, TIX]) {
		readAll(what, x)
		ctx := x.CreateContext()
		for j := 0; j < 3; j++ {
			id := s.Ids()[c.R.IntN(s.N())]
			ids, ds := x.GetNnsByItem(id, 5, T*s.N(), ctx)
			wellFormed(c, s, s.V[id], ids, ds, 5)
			exact(c, s, s.V[id], ids, ds, 5)
			o := s.Ids()[c.R.IntN(s.N())]
			dd := float64(x.GetDistance(id, o))
			lo, hi := refDist(k.Dot, s.V[id], s.V[o])
			c.Check(dd >= lo && dd <= hi, "%s: distance %d-%d is %v, the metric says [%v,%v]", what, id, o, dd, lo, hi)
			c.Count("searches judged", 1)
			c.Eval(true, c.Name, what, j)
		}
		did, _ := Panics(func() { x.GetItem(TIX(top) + 1) })
		c.Check(did, "%s: item %d outside is not refused", what, top+1)
	}
	readAll("filled", idx)
	idx.Build(T, 1)
	judge("built", idx)
	// the file
	path := c.File("big.ann")
	defer c.Clean()
	save := c.I%8 == 0 || c.I >= 8
	if save && freeDisk(c.Tmp) > 24<<30 {
		err := idx.Save(path)
		c.Check(err == nil, "Save: %v", err)
		st, _ := os.Stat(path)
		want := int64(ns) * int64(top+1+2*T)
		c.Check(st.Size() == want, "the saved file has %d bytes, %d expected", st.Size(), want)
		c.Count("files beyond 4 GiB saved", 1)
		judge("saved", idx)
	} else if al != nil {
		// write the same file, holes for the gaps
		fh, err := os.Create(path)
		infra("create", err)
		nodes := top + 1 + 2*T
		infra("truncate", fh.Truncate(int64(nodes)*int64(ns)))
		for i := 0; i < nodes; i++ {
			if _, ok := s.V[TIX(i)]; ok || i > top {
				_, err := fh.WriteAt(al.all[i*ns:(i+1)*ns], int64(i)*int64(ns))
				infra("writing a sparse file", err)
			}
		}
		infra("close", fh.Close())
	} else {
		idx.Close()
		return
	}
	idx.Close()
	if al != nil {
		al.release()
	}
	debug.FreeOSMemory()
	for _, heap := range []bool{false, true} {
		sp := Spec[TV, TIX]{F: f, Dot: k.Dot, Seed: 9}
		what := "loaded (mmap)"
		if heap {
			if c.I != 3 && c.I < 8 || top*ns > 6<<30 {
				continue
			}
			sp.IdxAlloc = memory.FileIndexMemoryAllocator()
			what = "loaded (heap)"
		}
		x := sp.New()
		err := x.Load(path)
		c.Check(err == nil, "%s: %v", what, err)
		judge(what, x)
		c.Count("files beyond 4 GiB "+what, 1)
		x.Close()
	}
	_ = w
	c.Sample("f=%d, %d byte nodes, ids up to %d (%d bytes), %s: %d items exact over build, file and load", f, ns, top, top*ns, how, len(ids))
}

// c18split has more items than a bucket holds, so that splits lie beyond 4 GiB too.
func c18split[TV VT, TIX IT](c *Case, k Combo) {
	f := 4096
	if k.F64 {
		f = 2800
	}
	d := newDist[TV, TIX](f, k.Dot)
	ns := int(d.NodeSize())
	kk := capacity[TV, TIX](f, k.Dot)
	top := 1<<32/ns + 40 + c.R.IntN(100)
	n := kk + 30
	s := newSet[TV, TIX](f, k.Dot)
	s.Fam, s.Lay = "gauss", "big"
	seen := map[int]bool{}
	put := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		v := make([]TV, f)
		for i := range v {
			v[i] = TV(c.R.NormFloat64())
		}
		s.V[TIX(id)] = v
		s.Order = append(s.Order, TIX(id))
		s.Max = max(s.Max, TIX(id))
	}
	put(top)
	for i := 0; i < 20; i++ {
		put(1<<32/ns + i)
	}
	for len(seen) < n {
		put(c.R.IntN(top))
	}
	al := newSparse()
	defer al.release()
	T := 2
	sp := Spec[TV, TIX]{F: f, Dot: k.Dot, Seed: 7, Alloc: al}
	c.Note("f=%d node=%d top=%d items=%d K=%d %v", f, ns, top, n, kk, k)
	idx := sp.New()
	s.AddTo(idx)
	idx.Build(T, 1)
	ctx := idx.CreateContext()
	for _, id := range []TIX{TIX(top), TIX(1<<32/ns + 3), s.Order[n-1], s.Order[n-2]} {
		c.Check(sameRaw(idx.GetItem(id), s.V[id]), "item %d at byte %d does not read back", id, int(id)*ns)
		ids, ds := idx.GetNnsByItem(id, 5, T*n, ctx)
		wellFormed(c, s, s.V[id], ids, ds, 5)
		exact(c, s, s.V[id], ids, ds, 5)
		ids, _ = idx.GetNnsByItem(id, 1, 1, ctx)
		if !k.Dot {
			c.Check(len(ids) == 1 && ids[0] == id, "item %d is not found by its own vector: %v", id, ids)
		}
		c.Count("searches judged", 1)
		c.Count("searches over splits beyond 4 GiB", 1)
		c.Eval(true, c.Name, id)
	}
	idx.Close()
	c.Sample("f=%d, %d byte nodes, %d items up to id %d, splits beyond 4 GiB: searches exact", f, ns, n, top)
}

var _ = io.EOF
