package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

func init() {
	checks["C32"] = func(e *Env) {
		e.Loop(640, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c32[float32, uint32], c32[float32, uint64], c32[float64, uint32], c32[float64, uint64])(c, k)
		})
	}
	checks["C33"] = func(e *Env) {
		e.LoopN("b", 2400, c33build)
		e.LoopN("f", 1600, c33files)
		e.LoopN("p", 160, c33parallel)
	}
	checks["C34"] = func(e *Env) {
		e.Loop(1600, c34)
	}
	checks["C35"] = func(e *Env) {
		e.Loop(3200, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c35[float32, uint32], c35[float32, uint64], c35[float64, uint32], c35[float64, uint64])(c, k)
		})
		e.LoopN("q", 2, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c35quality[float32, uint32], c35quality[float32, uint64], c35quality[float64, uint32], c35quality[float64, uint64])(c, k)
		})
	}
}

// ---- C32: the builder's options and what they promise

// captured runs f with the process's standard output and error going to a file, and gives what was
// written there.
func captured(c *Case, f func()) string {
	p := c.File("captured.txt")
	fd, err := syscall.Open(p, syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0o600)
	infra("open", err)
	var saved [3]int
	for i := 1; i <= 2; i++ {
		saved[i], err = syscall.Dup(i)
		infra("dup", err)
		infra("dup3", syscall.Dup3(fd, i, 0))
	}
	func() {
		defer func() {
			for i := 1; i <= 2; i++ {
				syscall.Dup3(saved[i], i, 0)
				syscall.Close(saved[i])
			}
			syscall.Close(fd)
		}()
		f()
	}()
	b, _ := os.ReadFile(p)
	os.Remove(p)
	return string(b)
}

// mappings of a file, with their permissions
func mappings(path string) []string {
	var out []string
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasSuffix(l, path) {
			out = append(out, strings.Fields(l)[1])
		}
	}
	return out
}

func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

func c32[TV VT, TIX IT](c *Case, k Combo) {
	k.Dot = false // the builder offers the angular metric
	w := genWorld[TV, TIX](c, k)
	w.S = genSet[TV, TIX](c.R, 1500+c.R.IntN(3000), In(c.R, 8, 16, 25), "gauss", In(c.R, "dense", "shuffled", "gap"), false)
	w.T = In(c.R, 2, 3, 5)
	w.Cap = capacity[TV, TIX](w.S.F, false)
	c.Note("%v T=%d", w.S, w.T)
	bl := func() *builder.AnnoyIndexBuilderImpl[TV, TIX] {
		return builder.Index[TV, TIX]().AngularDistance(w.S.F).Random(newRand(w.Seed))
	}
	path := c.File("a.ann")
	var fo [2]*Forest[TV, TIX]
	// worker policies
	workers := In(c.R, 2, 3, w.T)
	if c.I%2 == 0 {
		for i, b := range []*builder.AnnoyIndexBuilderImpl[TV, TIX]{bl(), bl()} {
			for c.R.IntN(2) == 0 {
				b.UseMultiWorkerPolicy().SingleWorkerPolicy()
				c.Count("options given again", 1)
			}
			if i == 0 {
				b.SingleWorkerPolicy()
			} else {
				b.UseMultiWorkerPolicy()
			}
			sp := w.Spec()
			if i == 1 {
				sp.Policy = policy.MultiWorker()
			}
			x, y := b.Build(), sp.New()
			for _, z := range []interfaces.AnnoyIndex[TV, TIX]{x, y} {
				w.S.AddTo(z)
				z.Build(w.T, workers)
			}
			f1, _ := w.forestOf(c, x, "x.ann")
			f2, _ := w.forestOf(c, y, "y.ann")
			c.Check(sameSlice(f1.Hashes(), f2.Hashes()), "the builder's policy %d with %d workers gives other trees than the constructor's", i, workers)
			fo[i] = f1
			x.Close()
			y.Close()
		}
		c.Check(!sameSlice(fo[0].Hashes(), fo[1].Hashes()), "with %d workers the single and the multi worker policy of the builder give the same trees", workers)
		c.Count("policies told apart", 1)
		// of the default
		x := bl().Build()
		w.S.AddTo(x)
		x.Build(w.T, workers)
		f1, _ := w.forestOf(c, x, "x.ann")
		h := f1.Hashes()
		c.Check(sameSlice(h, fo[0].Hashes()) || sameSlice(h, fo[1].Hashes()), "the builder's default policy gives yet other trees")
		x.Close()
	}
	// preallocation: additions need no more memory
	if c.I%2 == 1 {
		hint := w.S.NItems() * w.T
		b := bl()
		for c.R.IntN(2) == 0 { // the last one counts
			b.IndexNumHint(1 + c.R.IntN(hint))
			b.IndexNumHint(hint/2 + c.R.IntN(hint))
			c.Count("options given again", 1)
		}
		b.IndexNumHint(hint)
		var x interfaces.AnnoyIndex[TV, TIX]
		var vs [][]TV
		for _, id := range w.S.Order {
			vs = append(vs, append([]TV(nil), w.S.V[id]...))
		}
		moves := func(x interfaces.AnnoyIndex[TV, TIX]) (n int) {
			var at unsafe.Pointer
			for i, id := range w.S.Order {
				x.AddItem(id, vs[i])
				p := unsafe.Pointer(unsafe.SliceData(x.GetItem(w.S.Order[0])))
				if i > 0 && p != at {
					n++
				}
				at = p
			}
			x.Build(w.T, 1)
			if p := unsafe.Pointer(unsafe.SliceData(x.GetItem(w.S.Order[0]))); p != at {
				n++
			}
			return
		}
		x = b.Build()
		m := moves(x)
		c.Check(m == 0, "after a hint of %d nodes, %d items and %d trees move %d times", hint, len(vs), w.T, m)
		y := bl().Build()
		c.Count("moves without a hint", int64(moves(y)))
		y.Close()
		c.Count("preallocations judged", 1)
		x.Close()
		// small ones, for additions only
		for k := 0; k < 3; k++ {
			hint = 1 + c.R.IntN(1<<(1+c.R.IntN(9)))
			b := bl().IndexNumHint(hint)
			if c.R.IntN(2) == 0 { // after a greater or smaller one
				b = bl().IndexNumHint(1 + c.R.IntN(2*hint)).IndexNumHint(hint)
			}
			x := b.Build()
			first := TIX(c.R.IntN(hint))
			x.AddItem(first, vs[0])
			at := unsafe.Pointer(unsafe.SliceData(x.GetItem(first)))
			for _, id := range c.R.Perm(hint) {
				x.AddItem(TIX(id), vs[id%len(vs)])
				p := unsafe.Pointer(unsafe.SliceData(x.GetItem(first)))
				c.Check(p == at, "after a hint of %d nodes, the node memory moves as item %d is added", hint, id)
			}
			c.Count("small preallocations judged", 1)
			x.Close()
		}
		// of any size
		hint = In(c.R, 1<<16, 1<<17, 1<<20, 1<<21) + c.R.IntN(1<<16) - 100
		x = bl().IndexNumHint(hint).Build()
		var at unsafe.Pointer
		for i := 0; i < 300; i++ {
			id := TIX(c.R.IntN(hint))
			if i == 299 {
				id = TIX(hint - 1)
			}
			x.AddItem(id, vs[0])
			p := unsafe.Pointer(unsafe.SliceData(x.GetItem(id)))
			p = unsafe.Add(p, -int(id)*int(newDist[TV, TIX](w.S.F, false).NodeSize()))
			if i > 0 && p != at {
				// growth above the hint is not to be expected: ids are below it
				c.Fail("after a hint of %d nodes, the node memory moves as item %d is added", hint, id)
			}
			at = p
		}
		c.Count("large preallocations judged", 1)
		x.Close()
	}
	// silent unless told otherwise
	verbose := c.I%5 == 0
	b := bl()
	small := genSet[TV, TIX](c.R, 1+c.R.IntN(40), w.S.F, In(c.R, families...), In(c.R, layouts...), false)
	if c.R.IntN(3) == 0 {
		small = genSet[TV, TIX](c.R, 1+c.R.IntN(1500), w.S.F, In(c.R, "gauss", "near", "zeros", "grid", "scaled"), In(c.R, layouts...), false)
	}
	if !verbose {
		if c.R.IntN(2) == 0 {
			b.UseMultiWorkerPolicy()
		}
		if c.R.IntN(2) == 0 {
			b.GCMemoryIndexAllocator()
		}
	}
	if verbose {
		b.VerboseLogging()
	}
	out := captured(c, func() {
		x := b.Build()
		small.AddTo(x)
		x.Build(In(c.R, w.T, 1, -1), In(c.R, 1, -1, 0, 3))
		p := c.File("s.ann")
		for _, id := range small.Ids()[:min(3, small.N())] {
			x.GetNnsByItem(id, 5, -1, x.CreateContext())
			x.GetDistance(id, id)
		}
		x.Save(p)
		for _, id := range small.Ids()[:min(3, small.N())] {
			x.GetNnsByVector(small.V[id], small.N()+1, small.N()*w.T, x.CreateContext())
		}
		x.Save(p)
		x.Load(p)
		x.Load(c.File("missing.ann"))
		x.Close()
		x.Save(p)
	})
	c.Check((out != "") == verbose, "verbose %v: %d bytes printed: %.200q", verbose, len(out), out)
	c.Count("output judged", 1)
	// index allocators
	src := w.Build(w.Spec())
	c.Check(src.Save(path) == nil, "Save failed")
	qs := w.queries(c, 6)
	as := askAll(src, qs)
	src.Close()
	st, _ := os.Stat(path)
	size := st.Size()
	bm, bh := bl(), bl()
	for c.R.IntN(2) == 0 {
		bm.MmapIndexAllocator().GCMemoryIndexAllocator()
		bh.GCMemoryIndexAllocator().MmapIndexAllocator()
		c.Count("options given again", 1)
	}
	x := bm.MmapIndexAllocator().Build()
	priv := allocated(func() {
		err := x.Load(path)
		c.Check(err == nil, "Load: %v", err)
	})
	ms := mappings(path)
	c.Check(len(ms) >= 1, "the mmap allocator does not map the file")
	for _, m := range ms {
		c.Check(m[:3] == "r--", "the mmap allocator maps the file %s", m)
	}
	c.Check(priv < size/2, "the mmap allocator: loading a file of %d bytes allocates %d bytes", size, priv)
	sameAnswers(c, "mmap", qs, as, askAll(x, qs))
	x.Close()
	c.Check(len(mappings(path)) == 0, "still mapped after Close")
	if c.I%8 == 2 { // large files too
		big := genSet[TV, TIX](c.R, In(c.R, 3000, 20000, 70000), 100, "gauss", "dense", false)
		z := builder.Index[TV, TIX]().AngularDistance(100).Random(newRand(w.Seed)).GCMemoryIndexAllocator().Build()
		big.AddTo(z)
		z.Build(1, 1)
		bp := c.File("big.ann")
		c.Check(z.Save(bp) == nil, "Save of a large index failed")
		fds, maps := fdsAndMaps(c.Dir())
		c.Check(fds == 0 && maps == 0, "the heap allocator keeps %d descriptors and %d mappings of a large file", fds, maps)
		f, err := os.OpenFile(bp, os.O_RDWR, 0)
		infra("open", err)
		st, _ := f.Stat()
		for o := int64(0); o < st.Size(); o += 4096 {
			f.WriteAt([]byte{0x5a, 0x5a, 0x5a, 0x5a}, o)
		}
		f.Close()
		for id, v := range big.V {
			if !sameBits(z.GetItem(id), v) {
				c.Fail("an index of %d bytes in memory changes as its file is overwritten: item %d", st.Size(), id)
			}
		}
		z.Close()
		os.Remove(bp)
		c.Count("large files judged", 1)
		c.Max("bytes of a file loaded into memory", st.Size())
	}
	y := bh.GCMemoryIndexAllocator().Build()
	fds0, _ := fdsAndMaps(filepath.Dir(path))
	err := y.Load(path)
	c.Check(err == nil, "Load: %v", err)
	fds, maps := fdsAndMaps(filepath.Dir(path))
	c.Check(fds == fds0 && maps == 0, "the heap allocator keeps %d descriptors and %d mappings of the file", fds-fds0, maps)
	// the file may go or change now
	if c.R.IntN(2) == 0 {
		infra("truncate", os.Truncate(path, 0))
	} else {
		infra("write", os.WriteFile(path, bytes.Repeat([]byte{0x5a}, int(size)), 0o644))
	}
	sameAnswers(c, "heap, the file was overwritten", qs, as, askAll(y, qs))
	y.Close()
	c.Count("allocators told apart", 1)
	c.Clean()
	c.Eval(true, c.Name)
	c.Sample("%v T=%d: policies, hint, output and allocators judged", w.S, w.T)
}

// ---- C33: the provided allocators

func c33build(c *Case) {
	type al struct {
		a    interfaces.BuildIndexAllocator
		m    []byte // what must be there
		top  int    // most ever asked for since it was freed
		p    unsafe.Pointer
		n    int
		live bool
	}
	var as []*al
	for i := 0; i < 1+c.R.IntN(3); i++ {
		as = append(as, &al{a: memory.GoGCIndexAllocator()})
	}
	view := func(a *al) []byte { return unsafe.Slice((*byte)(a.p), a.n) }
	judge := func(a *al, what string) {
		if a.live && !bytes.Equal(view(a)[:len(a.m)], a.m) {
			i := 0
			for view(a)[i] == a.m[i] {
				i++
			}
			c.Fail("%s: byte %d of %d is %d, it was %d", what, i, a.n, view(a)[i], a.m[i])
		}
	}
	for s := 0; s < 25; s++ {
		a := as[c.R.IntN(len(as))]
		switch c.R.IntN(8) {
		case 0:
			a.a.Free()
			a.live, a.m, a.top, a.p = false, nil, 0, nil
			c.Count("frees", 1)
		case 1:
			runtime.GC()
		default:
			n := 1 + c.R.IntN(200)
			switch c.R.IntN(6) {
			case 0:
				n = a.n + c.R.IntN(3) - 1
			case 1:
				n = 4096 * (1 + c.R.IntN(4))
			case 2:
				n = a.n*3/2 + 1
			case 3:
				n = 1 + c.R.IntN(1<<uint(4+c.R.IntN(17)))
			}
			n = max(1, n)
			judge(a, "before growing")
			p := a.a.Reallocate(n)
			c.Check(p != nil, "Reallocate(%d) gives no memory", n)
			a.p, a.n, a.live = p, n, true
			keep := min(len(a.m), n)
			a.m = a.m[:keep]
			judge(a, fmt.Sprintf("Reallocate(%d)", n))
			// what was never handed out before is zero
			for i := a.top; i < n; i++ {
				if v := view(a)[i]; v != 0 {
					c.Fail("Reallocate(%d): new byte %d of %d is %d", n, i, n, v)
				}
			}
			a.top = max(a.top, n)
			r := byte(1 + c.R.IntN(255))
			b := view(a)
			for i := range b {
				b[i] = r + byte(i)*3
			}
			a.m = append(a.m[:0], b...)
			c.Count("reallocations", 1)
			if n > 4096 {
				c.Count("reallocations above a page", 1)
			}
			c.Eval(keep > 0, c.Name, s)
		}
		for i, o := range as {
			judge(o, fmt.Sprintf("allocator %d after a step on another", i))
		}
	}
	for _, a := range as {
		a.a.Free()
		a.a.Free()
	}
}

func fileAllocators() []interfaces.IndexAllocator {
	return []interfaces.IndexAllocator{memory.MmapIndexAllocator(), memory.FileIndexMemoryAllocator()}
}

func c33files(c *Case) {
	for ai, al := range fileAllocators() {
		name := []string{"mmap", "heap"}[ai]
		other := fileAllocators()[ai]
		type open struct {
			x    interfaces.AllocatedIndex
			path string
			data []byte
			gone bool
		}
		var os_ []*open
		files := map[string][]byte{}
		var paths []string
		for i := 0; i < 3; i++ {
			n := In(c.R, 1, 7, 4095, 4096, 4097, 8192, 1+c.R.IntN(20000), 1+c.R.IntN(100))
			if c.R.IntN(30) == 0 {
				n = 1<<20 + c.R.IntN(4<<20)
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(c.R.Uint32())
			}
			p := c.File(fmt.Sprintf("%s%d.bin", name, i))
			if i == 2 { // named as the first one
				p = filepath.Join(c.Dir(), "other", name+"0.bin")
				infra("mkdir", os.MkdirAll(filepath.Dir(p), 0o755))
			}
			infra("write", os.WriteFile(p, b, 0o644))
			files[p] = b
			paths = append(paths, p)
		}
		judge := func(what string) {
			n := map[string]int{}
			var newest, last = map[string]*open{}, map[string]*open{}
			for _, o := range os_ {
				last[o.path] = o
				if o.gone {
					continue
				}
				n[o.path]++
				newest[o.path] = o
				c.Check(o.x.Size() == int64(len(o.data)), "%s, %s: size %d of a file of %d bytes", name, what, o.x.Size(), len(o.data))
				if !bytes.Equal(unsafe.Slice((*byte)(o.x.Ptr()), len(o.data)), o.data) {
					c.Fail("%s, %s: the memory of %s differs from the file", name, what, filepath.Base(o.path))
				}
			}
			for _, p := range paths {
				g, ok := al.Get(p)
				if n[p] == 0 {
					c.Check(!ok, "%s, %s: Get finds a file that is not open", name, what)
				} else if last[p] == newest[p] {
					c.Check(ok && g == newest[p].x, "%s, %s: Get does not find the file opened last, which is open", name, what)
					c.Count("files found again", 1)
				} else if n[p] == 1 && countAll(os_, func(o *open) bool { return o.path == p }) == 1 {
					c.Check(ok && g == newest[p].x, "%s, %s: Get does not find the open file", name, what)
				}
				_, ok = other.Get(p)
				c.Check(!ok, "%s, %s: another allocator knows the file", name, what)
			}
		}
		for s := 0; s < 20; s++ {
			p := paths[c.R.IntN(3)]
			switch c.R.IntN(6) {
			case 0, 1, 2:
				x, err := al.Open(p)
				c.Check(err == nil, "%s: Open: %v", name, err)
				os_ = append(os_, &open{x: x, path: p, data: files[p]})
				judge("after Open")
				c.Count("opens", 1)
				c.Eval(true, c.Name, ai, s)
			case 3, 4:
				if len(os_) == 0 {
					continue
				}
				o := os_[c.R.IntN(len(os_))]
				err := o.x.Close()
				c.Check(err == nil, "%s: Close: %v (closed before: %v)", name, err, o.gone)
				o.gone = true
				judge("after Close")
				c.Count("closes", 1)
			case 5:
				bad := In(c.R, c.File("missing"), c.Dir(), c.File("empty"), "/dev/null")
				os.WriteFile(c.File("empty"), nil, 0o644)
				x, err := al.Open(bad)
				c.Check(err != nil, "%s: Open of %s gives no error", name, bad)
				c.Check(x == nil || fmt.Sprintf("%v", x) == "<nil>", "%s: Open of %s gives an index and an error", name, bad)
				_, ok := al.Get(bad)
				c.Check(!ok, "%s: Get finds %s, which was never opened", name, bad)
				judge("after a failed Open")
				c.Count("failed opens", 1)
			}
		}
		for _, o := range os_ {
			o.x.Close()
			o.gone = true
		}
		judge("at the end")
		fds, maps := fdsAndMaps(c.Dir())
		c.Check(fds == 0 && maps == 0, "%s: %d descriptors and %d mappings are left", name, fds, maps)
	}
	c.Clean()
}

func countAll[T any](xs []T, f func(T) bool) (n int) {
	for _, x := range xs {
		if f(x) {
			n++
		}
	}
	return
}

func c33parallel(c *Case) {
	for _, al := range fileAllocators() {
		var wg sync.WaitGroup
		var bad atomic.Value
		p := c.File("shared.bin")
		b := make([]byte, 5000)
		for j := range b {
			b[j] = byte(c.R.Uint32())
		}
		infra("write", os.WriteFile(p, b, 0o644))
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					x, err := al.Open(p)
					if err != nil {
						bad.Store(err.Error())
						return
					}
					al.Get(p)
					if !bytes.Equal(unsafe.Slice((*byte)(x.Ptr()), x.Size()), b) {
						bad.Store("other bytes")
					}
					if err := x.Close(); err != nil {
						bad.Store(err.Error())
					}
				}
			}(g)
		}
		wg.Wait()
		c.Check(bad.Load() == nil, "parallel opens: %v", bad.Load())
		_, ok := al.Get(p)
		c.Check(!ok, "Get finds a file that is not open")
		c.Count("parallel opens", 160)
	}
	c.Clean()
	c.Eval(true, c.Name)
}

// ---- C34: the provided policies

type fakeBuilder struct {
	f func(trees, worker int, p interfaces.AnnoyIndexBuildPolicy)
}

func (b fakeBuilder) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	b.f(trees, worker, p)
}

func c34(c *Case) {
	trees := In(c.R, -1, 0, 1, 2, 3, 7, 8, 9, 10, 100, 1+c.R.IntN(5000), 1<<20+c.R.IntN(1000))
	workers := In(c.R, -1, 0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 100, 1+c.R.IntN(300))
	c.Note("trees %d workers %d", trees, workers)
	judge := func(single bool, p interfaces.AnnoyIndexBuildPolicy) {
		var mu sync.Mutex
		type call struct{ trees, worker int }
		var calls []call
		var running, done atomic.Int64
		want := workers
		if workers == -1 {
			want = runtime.NumCPU()
		}
		if workers == 0 || single {
			want = 1
		}
		slow := c.R.IntN(4) == 0
		p.Build(fakeBuilder{func(t, w int, q interfaces.AnnoyIndexBuildPolicy) {
			running.Add(1)
			if slow && w%3 == 0 {
				time.Sleep(time.Millisecond)
			}
			q.LockRoots()
			mu.Lock()
			calls = append(calls, call{t, w})
			mu.Unlock()
			q.UnlockRoots()
			done.Add(1)
		}}, trees, workers)
		c.Check(running.Load() == done.Load() && int(done.Load()) == want, "Build returned when %d of %d workers were done, %d were to run", done.Load(), running.Load(), want)
		seenW := map[int]bool{}
		sum, lo, hi := 0, math.MaxInt, -1
		for _, x := range calls {
			c.Check(x.worker >= 0 && !seenW[x.worker], "worker number %d is given twice or negative", x.worker)
			seenW[x.worker] = true
			if trees == -1 {
				c.Check(x.trees == -1, "worker %d is to build %d trees, the number was left open", x.worker, x.trees)
			}
			sum += x.trees
			lo, hi = min(lo, x.trees), max(hi, x.trees)
		}
		if trees >= 0 {
			c.Check(sum == trees, "%d workers build %d trees, %d were asked for", len(calls), sum, trees)
			c.Check(hi-lo <= 1, "workers build between %d and %d trees", lo, hi)
		}
		for w := 0; w < want; w++ {
			c.Check(seenW[w], "no worker has the number %d of %d", w, want)
		}
		c.Count("distributions judged", 1)
		c.Eval(want > 1, c.Name, single)
	}
	p := policy.MultiWorker()
	judge(false, p)
	judge(false, p) // once more with the same one
	judge(true, policy.SingleWorker())
	if c.I%4 == 0 {
		c34locks(c)
	}
	// locks of the single worker never wait
	s := policy.SingleWorker()
	ok := make(chan bool)
	go func() {
		for i := 0; i < 3; i++ {
			s.LockNNodes()
			s.LockNodes()
			s.LockSharedNodes()
			s.LockRoots()
		}
		for i := 0; i < 3; i++ {
			s.UnlockRoots()
			s.UnlockSharedNodes()
			s.UnlockNodes()
			s.UnlockNNodes()
		}
		ok <- true
	}()
	select {
	case <-ok:
	case <-time.After(20 * time.Second):
		c.Fail("a lock of the single worker policy waits")
	}
}

// c34locks: the locks workers get really exclude each other, and only what they must.
func c34locks(c *Case) {
	p := policy.MultiWorker()
	W := 2 + c.R.IntN(5)
	var n, x, s, r atomic.Int64
	var plainN, plainX, plainR int // for the race detector
	var bad atomic.Value
	var overlap atomic.Int64
	p.Build(fakeBuilder{func(_, w int, q interfaces.AnnoyIndexBuildPolicy) {
		rnd := h64(c.Seed, c.Name, w)
		next := func(m uint64) uint64 { rnd = rnd*6364136223846793005 + 1442695040888963407; return (rnd >> 33) % m }
		nap := func() {
			if next(3) == 0 {
				runtime.Gosched()
			}
		}
		for i := 0; i < 60; i++ {
			switch next(4) {
			case 0:
				q.LockNNodes()
				if n.Add(1) != 1 {
					bad.Store("two workers hold the counter lock")
				}
				plainN++
				nap()
				if next(2) == 0 {
					q.LockNodes()
					if x.Add(1) != 1 || s.Load() != 0 {
						bad.Store("the exclusive node lock is held next to another")
					}
					plainX++
					nap()
					if s.Load() != 0 {
						bad.Store("a shared section was entered during an exclusive one")
					}
					x.Add(-1)
					q.UnlockNodes()
				}
				n.Add(-1)
				q.UnlockNNodes()
			case 1, 2:
				q.LockSharedNodes()
				if s.Add(1) > 1 {
					overlap.Add(1)
				}
				if x.Load() != 0 {
					bad.Store("a shared section was entered during an exclusive one")
				}
				if plainX < 0 {
					bad.Store("no")
				}
				nap()
				s.Add(-1)
				q.UnlockSharedNodes()
			case 3:
				q.LockRoots()
				if r.Add(1) != 1 {
					bad.Store("two workers hold the root lock")
				}
				plainR++
				nap()
				r.Add(-1)
				q.UnlockRoots()
			}
		}
		c.Count("lock sections judged", 60)
	}}, W, W)
	c.Check(bad.Load() == nil, "%v", bad.Load())
	c.Count("overlapping shared sections", overlap.Load())
	// shared sections can overlap, nodes can be locked under the counter lock, policies are independent
	o := policy.MultiWorker()
	ok := make(chan bool)
	go func() {
		p.LockSharedNodes()
		in := make(chan bool)
		go func() { p.LockSharedNodes(); p.UnlockSharedNodes(); in <- true }()
		<-in
		p.UnlockSharedNodes()
		p.LockNNodes()
		go func() {
			o.LockNodes()
			o.LockNNodes()
			o.LockRoots()
			o.UnlockRoots()
			o.UnlockNNodes()
			o.UnlockNodes()
			in <- true
		}()
		p.LockNodes() // as done to grow
		<-in
		p.UnlockNodes()
		p.UnlockNNodes()
		p.LockRoots()
		go func() {
			o.LockRoots()
			o.UnlockRoots()
			o.LockSharedNodes()
			o.UnlockSharedNodes()
			o.LockNNodes()
			o.LockNodes()
			o.UnlockNodes()
			o.UnlockNNodes()
			in <- true
		}()
		<-in
		p.UnlockRoots()
		p.LockNodes()
		go func() { o.LockSharedNodes(); o.UnlockSharedNodes(); o.LockRoots(); o.UnlockRoots(); in <- true }()
		<-in
		p.UnlockNodes()
		ok <- true
	}()
	select {
	case <-ok:
	case <-time.After(20 * time.Second):
		c.Fail("a lock waits although nothing it excludes is held")
	}
}

// ---- C35: the provided metrics and their nodes

// countRand counts draws.
type countRand[TIX IT] struct {
	interfaces.Random[TIX]
	n, sides int
}

func (r *countRand[TIX]) Next() TIX           { r.n++; return r.Random.Next() }
func (r *countRand[TIX]) NextIndex(n TIX) TIX { r.n++; return r.Random.NextIndex(n) }
func (r *countRand[TIX]) NextSide() interfaces.Side {
	r.sides++
	return r.Random.NextSide()
}

func c35[TV VT, TIX IT](c *Case, k Combo) {
	defer debugFault()()
	f := In(c.R, 1, 2, 3, 4, 5, 8, 16, 33, 100, 1+c.R.IntN(200))
	d := newDist[TV, TIX](f, k.Dot)
	ns := int(d.NodeSize())
	K := int(d.MaxNumChildren())
	c.Note("%v f=%d", k, f)
	c.Check(int(d.VectorLength()) == f, "vector length %d, made for %d", d.VectorLength(), f)
	c.Check(K >= 2, "a node has room for %d children", K)
	n := 3 + c.R.IntN(40)
	reg := newRegion(n*ns, c.R.IntN(2) == 0)
	defer syscall.Munmap(reg.all)
	nodes := make([]interfaces.Node[TV, TIX], n)
	for i := range nodes {
		nodes[i] = d.MapNodeToMemory(reg.base, TIX(i))
	}
	// --- nodes: a model of each
	type model struct {
		desc TIX
		vec  []TV
		kids []TIX
		norm *TV
		what string
	}
	ms := make([]model, n)
	for i := range ms {
		ms[i].vec = make([]TV, f)
	}
	check := func(at int, what string) {
		for i, m := range ms {
			nd := nodes[i]
			c.Check(nd.GetNumberOfDescendants() == m.desc, "%s of node %d: node %d has %d descendants, not %d", what, at, i, nd.GetNumberOfDescendants(), m.desc)
			if m.vec != nil {
				c.Check(sameBits(nd.GetVector(TIX(f)), m.vec), "%s of node %d: the vector of node %d is %v, was %v", what, at, i, nd.GetVector(TIX(f)), m.vec)
				c.Check(*nd.GetRawVector() == m.vec[0], "%s of node %d: raw vector of node %d", what, at, i)
			}
			if m.kids != nil {
				raw := unsafe.Slice(nd.GetRawChildren(), len(m.kids))
				c.Check(sameSlice(raw, m.kids), "%s of node %d: the children of node %d are %v, were %v", what, at, i, raw, m.kids)
				if int(m.desc) == len(m.kids) {
					c.Check(sameSlice(nd.GetChildren(), m.kids), "%s of node %d: GetChildren of node %d gives %v, were %v", what, at, i, nd.GetChildren(), m.kids)
				}
			}
			if m.norm != nil {
				c.Check(nd.GetNorm() == *m.norm, "%s of node %d: the norm of node %d is %v, was %v", what, at, i, nd.GetNorm(), *m.norm)
			}
			if m.desc == 0 {
				c.Check(len(nd.GetChildren()) == 0, "GetChildren of an empty node gives %v", nd.GetChildren())
			}
		}
		c.Count("node states judged", int64(n))
	}
	// only the bytes of what is set may change
	var before []byte
	at := 0
	only := func(what string, from unsafe.Pointer, size int) {
		off := int(uintptr(from) - uintptr(reg.base))
		for o, b := range reg.bytes() {
			if b != before[o] && (o < off || o >= off+size) {
				c.Fail("%s of node %d (nodes of %d bytes) changed byte %d of node %d", what, at, ns, o%ns, o/ns)
			}
		}
		c.Count("writes to nodes judged byte by byte", 1)
	}
	var tv TV
	var ti TIX
	for s := 0; s < 30; s++ {
		i := c.R.IntN(n)
		m := &ms[i]
		at = i
		before = append(before[:0], reg.bytes()...)
		switch c.R.IntN(5) {
		case 0:
			m.desc = TIX(c.R.IntN(2 * K))
			if c.R.IntN(8) == 0 {
				m.desc = TIX(c.R.Uint32())
			}
			if int(m.desc) > K && m.desc <= TIX(2*K) {
				m.desc = TIX(K)
			}
			nodes[i].SetNumberOfDescendants(m.desc)
			only("SetNumberOfDescendants", unsafe.Add(reg.base, i*ns), int(uintptr(unsafe.Pointer(nodes[i].GetRawChildren()))-uintptr(reg.base))-i*ns)
			check(i, "SetNumberOfDescendants")
		case 1:
			v := genVectors[TV](c.R, 1, f, "gauss")[0]
			nodes[i].SetVector(v)
			m.vec = append([]TV(nil), v...)
			if len(m.kids) > 2 { // a bucket's children lie where the vector is
				m.kids = nil
			}
			only("SetVector", unsafe.Pointer(nodes[i].GetRawVector()), f*int(unsafe.Sizeof(tv)))
			check(i, "SetVector")
		case 2: // two children next to the vector
			m.kids = []TIX{TIX(c.R.Uint64()), TIX(c.R.Uint64())}
			m.norm = nil
			nodes[i].SetChildren(m.kids)
			only("SetChildren", unsafe.Pointer(nodes[i].GetRawChildren()), 2*int(unsafe.Sizeof(ti)))
			m.kids = append([]TIX(nil), m.kids...)
			check(i, "SetChildren of a split")
		case 3: // a bucket
			kk := 1 + c.R.IntN(K)
			m.kids = make([]TIX, kk)
			for j := range m.kids {
				m.kids[j] = TIX(c.R.Uint64())
			}
			m.norm = nil
			if kk > 2 {
				m.vec = nil
			}
			nodes[i].SetChildren(m.kids)
			only("SetChildren", unsafe.Pointer(nodes[i].GetRawChildren()), kk*int(unsafe.Sizeof(ti)))
			nodes[i].SetNumberOfDescendants(TIX(kk))
			m.desc = TIX(kk)
			check(i, "SetChildren of a bucket")
			c.Count("buckets judged", 1)
		case 4:
			x := TV(c.R.NormFloat64())
			m.norm = &x
			m.kids = nil
			nodes[i].SetNorm(x)
			only("SetNorm", unsafe.Pointer(nodes[i].GetRawChildren()), 2*int(unsafe.Sizeof(ti)))
			check(i, "SetNorm")
		}
	}
	// --- the metric
	fam := In(c.R, "gauss", "scaled", "zeros", "near", "grid")
	vs := genVectors[TV](c.R, n, f, fam)
	for i := range nodes {
		nodes[i].SetVector(vs[i])
		nodes[i].SetNumberOfDescendants(1)
		d.InitNode(nodes[i])
	}
	d.PreProcess(reg.base, TIX(n))
	for i := range nodes {
		c.Check(sameBits(nodes[i].GetVector(TIX(f)), vs[i]), "InitNode or PreProcess changed vector %d", i)
	}
	c.Check(math.IsInf(float64(d.PQInitialValue()), 1), "a whole tree starts with priority %v", d.PQInitialValue())
	snap := append([]byte(nil), reg.bytes()...)
	for t := 0; t < 20; t++ {
		i, j := c.R.IntN(n), c.R.IntN(n)
		a, b := d.NormalizedDistance(d.Distance(nodes[i], nodes[j])), d.NormalizedDistance(d.Distance(nodes[j], nodes[i]))
		lo, hi := refDist(k.Dot, vs[i], vs[j])
		for _, x := range []TV{a, b} {
			c.Check(float64(x) >= lo && float64(x) <= hi, "distance %v of %v and %v, the metric says [%v,%v]", x, vs[i], vs[j], lo, hi)
		}
		m, l := TV(c.R.NormFloat64()), TV(c.R.NormFloat64())
		switch c.R.IntN(6) {
		case 0, 1:
			l = d.PQInitialValue()
		case 2:
			special := []TV{0, 0, m, -m, 1, -1, TV(math.Copysign(0, -1)), 1e-30, -1e-30, 1e30, -1e30, l}
			m, l = special[c.R.IntN(len(special))], special[c.R.IntN(len(special))]
		}
		c.Check(d.PQDistance(l, m, interfaces.SideRight) == TV(math.Min(float64(l), float64(m))), "priority on the right of margin %v below %v: %v", m, l, d.PQDistance(l, m, interfaces.SideRight))
		c.Check(d.PQDistance(l, m, interfaces.SideLeft) == TV(math.Min(float64(l), -float64(m))), "priority on the left of margin %v below %v: %v", m, l, d.PQDistance(l, m, interfaces.SideLeft))
		c.Count("distances judged", 2)
	}
	// splits
	mem := make([]uint64, ns/8+2)
	rnd := &countRand[TIX]{Random: newRand[TIX](TIX(1 + c.R.IntN(1000)))}
	for t := 0; t < 3; t++ {
		for i := range mem {
			mem[i] = 0
		}
		sp := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
		var ch []interfaces.Node[TV, TIX]
		m := 2 + c.R.IntN(n-1)
		for _, i := range c.R.Perm(n)[:m] {
			ch = append(ch, nodes[i])
		}
		d.CreateSplit(ch, TIX(ns), rnd, sp)
		c.Check(bytes.Equal(snap, reg.bytes()), "CreateSplit changed the nodes it was given")
		pv := append([]TV(nil), sp.GetVector(TIX(f))...)
		_, nn, _ := dot64(pv, pv)
		c.Check(!math.IsNaN(nn) && (nn == 0 || math.Abs(nn-1) < 1e-3), "a splitting plane %v of length² %v", pv, nn)
		var sides [2]int
		for i := range vs {
			want, _, nv := dot64(pv, vs[i])
			got := float64(d.Margin(sp, vs[i]))
			tol := 2 * float64(f+16) * (eps[TV]() + 0x1p-53) * math.Sqrt(nn*nv)
			c.Check(math.Abs(got-want) <= tol+1e-30, "margin %v, the plane says %v", got, want)
			s0 := rnd.sides
			s := d.Side(sp, vs[i], rnd)
			c.Check(s == interfaces.SideLeft || s == interfaces.SideRight, "side %d", s)
			if want > tol {
				c.Check(s == interfaces.SideRight, "side %d at margin %v", s, want)
			}
			if want < -tol {
				c.Check(s == interfaces.SideLeft, "side %d at margin %v", s, want)
			}
			if got != 0 {
				c.Check(rnd.sides == s0, "a side was drawn at margin %v", got)
			} else {
				c.Check(rnd.sides > s0, "no side was drawn at margin 0")
				c.Count("drawn sides judged", 1)
			}
			sides[s]++
			c.Count("margins judged", 1)
		}
		c.Check(bytes.Equal(snap, reg.bytes()), "Margin or Side changed a node")
	}
	// Normalize
	tmp := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	for t := 0; t < 4; t++ {
		v := vs[c.R.IntN(n)]
		if t == 3 {
			v = make([]TV, f)
		}
		tmp.SetVector(v)
		d.Normalize(tmp)
		got := tmp.GetVector(TIX(f))
		dt, nv, ng := dot64(v, got)
		if nv == 0 {
			c.Check(ng == 0, "a zero vector normalized is %v", got)
			continue
		}
		u := 8 * float64(f+16) * (eps[TV]() + 0x1p-53)
		c.Check(math.Abs(ng-1) <= u && math.Abs(dt-math.Sqrt(nv)) <= u*math.Sqrt(nv), "%v normalized is %v", v, got)
		c.Count("normalizations judged", 1)
	}
	// two far clusters are told apart
	if f >= 2 && n >= 20 {
		ca := genVectors[TV](c.R, 1, f, "gauss")[0]
		var side [2]map[interfaces.Side]int
		side[0], side[1] = map[interfaces.Side]int{}, map[interfaces.Side]int{}
		for i := range nodes {
			v := make([]TV, f)
			for j := range v {
				v[j] = ca[j] + TV(0.01*c.R.NormFloat64())
				if i%2 == 1 {
					v[j] = -ca[j] + TV(0.01*c.R.NormFloat64())
				}
			}
			vs[i] = v
			nodes[i].SetVector(v)
			d.InitNode(nodes[i])
		}
		d.PreProcess(reg.base, TIX(n))
		_, na, _ := dot64(ca, ca)
		if na > 1 {
			good := false
			for t := 0; t < 20 && !good; t++ {
				for i := range mem {
					mem[i] = 0
				}
				sp := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
				d.CreateSplit(nodes, TIX(ns), rnd, sp)
				clear(side[0])
				clear(side[1])
				for i := range vs {
					side[i%2][d.Side(sp, vs[i], rnd)]++
				}
				good = len(side[0]) == 1 && len(side[1]) == 1 && side[0][interfaces.SideLeft] != side[1][interfaces.SideLeft]
			}
			c.Check(good, "20 splits of two opposite clusters, none tells them apart: %v %v", side[0], side[1])
			c.Count("cluster splits judged", 1)
		}
	}
	c.Eval(true, c.Name)
	c.Sample("%v f=%d: 30 node operations, 40 distances, 3 splits over %d nodes judged", k, f, n)
}

// c35quality: the heuristic that finds a split does its work. Two clusters of items of very
// different lengths in different directions are told apart by most of its splits.
func c35quality[TV VT, TIX IT](c *Case, k Combo) {
	sum, least := 0.0, 0.74
	if !k.Dot {
		least = 0.8
	}
	for t := 0; t < 20; t++ {
		sum += splitQuality[TV, TIX](c, k)
	}
	for t := 0; t < 20; t++ {
		fewQuality[TV, TIX](c, k)
	}
	c.Check(sum/20 >= least, "splits of two clusters at a right angle tell only %v of them apart", sum/20)
	c.Eval(true, c.Name)
	c.Count("split qualities judged", 1)
	c.Min("split quality permille", int64(50*sum))
}

// fewQuality: of two to five items in clearly different directions every split with a plane has items
// on both sides, and hardly any split goes without a plane.
func fewQuality[TV VT, TIX IT](c *Case, k Combo) {
	f := In(c.R, 2, 3, 8, 30)
	n := In(c.R, 2, 2, 3, 4, 5)
	d := newDist[TV, TIX](f, k.Dot)
	ns := int(d.NodeSize())
	mem := make([]byte, (n+1)*ns)
	rnd := newRand[TIX](TIX(1 + c.R.IntN(1<<30)))
	vs := make([][]TV, n)
	nodes := make([]interfaces.Node[TV, TIX], n)
	for i := range vs {
		for far := false; !far; {
			v := genVectors[TV](c.R, 1, f, "gauss")[0]
			_, _, nv := dot64(v, v)
			for j := range v {
				v[j] = TV(float64(v[j]) / math.Sqrt(nv) * (1 + 0.2*c.R.Float64()))
			}
			vs[i], far = v, true
			for _, w := range vs[:i] {
				dt, a, b := dot64(v, w)
				far = far && dt < 0.7*math.Sqrt(a*b)
			}
		}
		nodes[i] = d.MapNodeToMemory(unsafe.Pointer(&mem[0]), TIX(i))
		nodes[i].SetNumberOfDescendants(1)
		nodes[i].SetVector(vs[i])
		d.InitNode(nodes[i])
	}
	d.PreProcess(unsafe.Pointer(&mem[0]), TIX(n))
	good := 0
	for t := 0; t < 60; t++ {
		clear(mem[n*ns:])
		sp := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), TIX(n))
		d.CreateSplit(nodes, TIX(ns), rnd, sp)
		var in [2]int
		for i := range vs {
			in[d.Side(sp, vs[i], rnd)]++
		}
		_, _, pn := dot64(sp.GetVector(TIX(f)), sp.GetVector(TIX(f)))
		if in[0] > 0 && in[1] > 0 && pn > 0 {
			good++
		}
	}
	c.Check(good >= 55, "f=%d: only %d of 60 splits of %d items in clearly different directions %v have items on both sides of a plane", f, good, n, vs)
	c.Min(fmt.Sprintf("splits of %d that part them, of 60, dot %v", n, k.Dot), int64(good))
	c.Count("splits of few items judged", 60)
}

func splitQuality[TV VT, TIX IT](c *Case, k Combo) float64 {
	f := In(c.R, 8, 16, 40)
	n := In(c.R, 60, 150, 400)
	d := newDist[TV, TIX](f, k.Dot)
	ns := int(d.NodeSize())
	mem := make([]byte, (n+1)*ns)
	rnd := newRand[TIX](TIX(1 + c.R.IntN(1<<30)))
	ca := genVectors[float64](c.R, 2, f, "gauss")
	for i := range ca { // two directions at a right angle
		dt, na, _ := dot64(ca[i], ca[0])
		if i > 0 {
			for j := range ca[i] {
				ca[i][j] -= dt / na * ca[0][j]
			}
		}
	}
	for i := range ca {
		_, na, _ := dot64(ca[i], ca[i])
		for j := range ca[i] {
			ca[i][j] /= math.Sqrt(na)
		}
	}
	share := In(c.R, 2, 2, 3)
	vs := make([][]TV, n)
	nodes := make([]interfaces.Node[TV, TIX], n)
	for i := range vs {
		s := 1.0
		if !k.Dot {
			s = math.Pow(10, 2*c.R.Float64()-1)
		}
		v := make([]TV, f)
		for j := range v {
			x := ca[min(1, i%share)][j]
			v[j] = TV(s * (x + 0.8/math.Sqrt(float64(f))*c.R.NormFloat64()))
		}
		vs[i] = v
		nodes[i] = d.MapNodeToMemory(unsafe.Pointer(&mem[0]), TIX(i))
		nodes[i].SetNumberOfDescendants(1)
		nodes[i].SetVector(v)
		d.InitNode(nodes[i])
	}
	d.PreProcess(unsafe.Pointer(&mem[0]), TIX(n))
	sp := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), TIX(n))
	good, tot := 0.0, 30
	for t := 0; t < tot; t++ {
		d.CreateSplit(nodes, TIX(ns), rnd, sp)
		var in [2][2]int
		for i := range vs {
			in[min(1, i%share)][d.Side(sp, vs[i], rnd)]++
		}
		a, b := float64(in[0][0])/float64(in[0][0]+in[0][1]), float64(in[1][0])/float64(in[1][0]+in[1][1])
		good += math.Abs(a - b)
	}
	q := good / float64(tot)
	c.Note("f=%d n=%d share=%d dot=%v quality %v", f, n, share, k.Dot, q)
	return q
}
