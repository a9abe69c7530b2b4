package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
)

func init() {
	checks["C22"] = func(e *Env) {
		n := 1000
		if e.Mode == "race" {
			n = 160
		}
		e.Loop(n, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c22[float32, uint32], c22[float32, uint64], c22[float64, uint32], c22[float64, uint64])(c, k)
		})
		e.LoopN("s", n/8, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c22saves[float32, uint32], c22saves[float32, uint64], c22saves[float64, uint32], c22saves[float64, uint64])(c, k)
		})
	}
	checks["C23"] = func(e *Env) {
		e.Loop(12000, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c23[float32, uint32], c23[float32, uint64], c23[float64, uint32], c23[float64, uint64])(c, k)
		})
	}
	checks["C24"] = func(e *Env) {
		e.Loop(160, func(c *Case) { c24(c) })
	}
}

// life is a script of operations on one index; it writes what it sees to log.
type life[TV VT, TIX IT] struct {
	steps []func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string)
	desc  []string
	dot   bool
}

func hashOf(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:16] }

// newLife writes a script. shared is a file anyone may load.
func newLife[TV VT, TIX IT](c *Case, w *world[TV, TIX], n int, shared string, sharedItems int, workers int) *life[TV, TIX] {
	l := &life[TV, TIX]{dot: w.K.Dot}
	r := rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64()))
	add := func(d string, f func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string)) {
		l.steps = append(l.steps, f)
		l.desc = append(l.desc, d)
	}
	set := func() *Set[TV, TIX] {
		return genSet[TV, TIX](r, 1+r.IntN(90), w.S.F, In(r, "gauss", "cluster", "zeros", "grid"), layouts[r.IntN(len(layouts))], w.K.Dot)
	}
	items := 0
	state := "empty"
	saved := false
	savedItems := 0
	var cur *Set[TV, TIX]
	query := func() {
		vs := genVectors[TV](r, 4, w.S.F, "gauss")
		nr := 1 + r.IntN(12)
		bud := In(r, -1, 1, 10, r.IntN(300), 1<<20)
		if workers != 1 {
			bud = 1 << 20 // complete answers do not depend on the interleaving
		}
		m := items
		at := make([]int, 4)
		for i := range at {
			at[i] = r.IntN(m + 1)
		}
		add("query", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) {
			ctx := idx.CreateContext()
			for i, v := range vs {
				ids, ds := idx.GetNnsByVector(append([]TV(nil), v...), nr, bud, ctx)
				*log = append(*log, fmt.Sprintf("nns %v %v", ids, ds))
				if at[i] < m {
					ids, ds := idx.GetNnsByItem(TIX(at[i]), nr, bud, ctx)
					*log = append(*log, fmt.Sprintf("nns item %v %v", ids, ds))
					*log = append(*log, fmt.Sprintf("item %v", idx.GetItem(TIX(at[i]))))
					*log = append(*log, fmt.Sprintf("dist %v", idx.GetDistance(TIX(at[i]), TIX(at[(i+1)%4]%m))))
				}
			}
		})
	}
	for i := 0; i < n; i++ {
		switch {
		case state == "empty" && (r.IntN(4) == 0 && shared != ""):
			add("load shared", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) {
				*log = append(*log, fmt.Sprint("load ", idx.Load(shared)))
			})
			state, items = "built", sharedItems
		case state == "empty" && saved && r.IntN(2) == 0:
			add("load own", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) {
				*log = append(*log, fmt.Sprint("load ", idx.Load(dir+"own.ann")))
			})
			state, items = "built", savedItems
		case state == "empty":
			cur = set()
			s := cur
			add("fill", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) { s.AddTo(idx) })
			state, items = "filled", cur.NItems()
		case state == "filled" && r.IntN(3) > 0:
			T := 1 + r.IntN(4)
			W := workers
			add("build", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) { idx.Build(T, W) })
			state = "built"
		case state == "built" && r.IntN(4) == 0:
			add("save", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) {
				p := dir + "own.ann"
				*log = append(*log, fmt.Sprint("save ", idx.Save(p)))
				if workers == 1 {
					b, _ := os.ReadFile(p)
					*log = append(*log, hashOf(b))
				}
			})
			saved, savedItems = true, items
		case r.IntN(6) == 0:
			add("close", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) {
				*log = append(*log, fmt.Sprint("close ", idx.Close()))
			})
			state, items = "empty", 0
		default:
			query()
		}
	}
	query()
	add("close", func(idx interfaces.AnnoyIndex[TV, TIX], dir string, log *[]string) {
		*log = append(*log, fmt.Sprint("close ", idx.Close()))
	})
	return l
}

func c22[TV VT, TIX IT](c *Case, k Combo) {
	w := &world[TV, TIX]{K: k, T: 2, Seed: TIX(1 + c.R.IntN(1000))}
	f := pickF(c.R)
	w.S = genSet[TV, TIX](c.R, 40+c.R.IntN(60), f, "gauss", "dense", k.Dot)
	n := 2 + c.R.IntN(4)
	shared := c.File("shared.ann")
	x := w.Build(w.Spec())
	c.Check(x.Save(shared) == nil, "Save failed")
	x.Close()
	workers := In(c.R, 1, 1, 3)
	lives := make([]*life[TV, TIX], n)
	for i := range lives {
		lives[i] = newLife(c, w, 6+c.R.IntN(16), shared, w.S.NItems(), workers)
	}
	useBuilder := !k.Dot && c.R.IntN(3) > 0
	heap := c.R.IntN(2) == 0
	multi := workers != 1 || c.R.IntN(3) == 0
	shareIdxAlloc := c.R.IntN(4) > 0
	sharePolicy := c.R.IntN(2) == 0
	shareRand := c.R.IntN(2) == 0
	shareDist := c.R.IntN(2) == 0
	withRand := c.R.IntN(2) == 0
	c.Note("f=%d n=%d builder=%v heap=%v multi=%v workers=%d share: alloc %v policy %v rand %v dist %v; %v", f, n, useBuilder, heap, multi, workers, shareIdxAlloc, sharePolicy, shareRand, shareDist, k)
	maker := func() func() interfaces.AnnoyIndex[TV, TIX] {
		if useBuilder {
			b := builder.Index[TV, TIX]().AngularDistance(f)
			if withRand {
				b = b.Random(newRand(w.Seed))
			}
			if heap {
				b = b.GCMemoryIndexAllocator()
			}
			if multi {
				b = b.UseMultiWorkerPolicy()
			}
			return func() interfaces.AnnoyIndex[TV, TIX] { return b.Build() }
		}
		pol := func() interfaces.AnnoyIndexBuildPolicy {
			if multi {
				return policy.MultiWorker()
			}
			return policy.SingleWorker()
		}
		ia := func() interfaces.IndexAllocator {
			if heap {
				return memory.FileIndexMemoryAllocator()
			}
			return memory.MmapIndexAllocator()
		}
		p, a, rd, d := pol(), ia(), newRand(w.Seed), newDist[TV, TIX](f, k.Dot)
		return func() interfaces.AnnoyIndex[TV, TIX] {
			sp := Spec[TV, TIX]{F: f, Dot: k.Dot, Seed: w.Seed, Policy: pol(), IdxAlloc: ia()}
			if sharePolicy {
				sp.Policy = p
			}
			if shareIdxAlloc {
				sp.IdxAlloc = a
			}
			if shareRand {
				sp.Rand = rd
			}
			if shareDist {
				sp.Dist = d
			}
			return sp.New()
		}
	}
	oneDir := c.R.IntN(2) == 0
	dir := func(kind string, i int) string {
		if oneDir {
			return c.File(fmt.Sprintf("%s%d-", kind, i))
		}
		d := c.File(fmt.Sprintf("%s%d", kind, i))
		os.MkdirAll(d, 0o755)
		return d + "/"
	}
	// alone
	alone := make([][]string, n)
	for i, l := range lives {
		idx := maker()()
		d := dir("alone", i)
		for j, s := range l.steps {
			if did, v := Panics(func() { s(idx, d, &alone[i]) }); did {
				c.Fail("index %d alone: step %d (%s of %v) panics: %v", i, j, l.desc[j], l.desc, v)
			}
		}
	}
	// together
	mk := maker()
	idxs := make([]interfaces.AnnoyIndex[TV, TIX], n)
	logs := make([][]string, n)
	late := c.R.IntN(2) == 0
	for i := range idxs {
		if !late {
			idxs[i] = mk()
		}
	}
	parallel := c.R.IntN(2) == 0 || c.Mode == "race"
	order := fnvNew()
	if !parallel {
		at := make([]int, n)
		left := 0
		for _, l := range lives {
			left += len(l.steps)
		}
		for left > 0 {
			i := c.R.IntN(n)
			if at[i] == len(lives[i].steps) {
				continue
			}
			if idxs[i] == nil {
				idxs[i] = mk()
			}
			order.add(i)
			l := lives[i]
			if did, v := Panics(func() { l.steps[at[i]](idxs[i], dir("tog", i), &logs[i]) }); did {
				c.Fail("index %d among %d: step %d (%s of %v) panics: %v; alone it does not", i, n, at[i], l.desc[at[i]], l.desc, v)
			}
			at[i]++
			left--
		}
		c.Count("interleaved lives", int64(n))
	} else {
		for i := range idxs {
			if idxs[i] == nil {
				idxs[i] = mk()
			}
		}
		var wg sync.WaitGroup
		errs := make([]string, n)
		for i := range idxs {
			wg.Add(1)
			d := dir("tog", i)
			r := rand.New(rand.NewPCG(c.R.Uint64(), 8))
			go func() {
				defer wg.Done()
				for j, s := range lives[i].steps {
					if did, v := Panics(func() { s(idxs[i], d, &logs[i]) }); did {
						errs[i] = fmt.Sprintf("index %d among %d goroutines: step %d (%s of %v) panics: %v; alone it does not", i, n, j, lives[i].desc[j], lives[i].desc, v)
						return
					}
					if r.IntN(3) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			c.Check(e == "", "%s", e)
		}
		order.add(c.I)
		c.Count("parallel lives", int64(n))
	}
	for i := range lives {
		for j := range alone[i] {
			if j >= len(logs[i]) || alone[i][j] != logs[i][j] {
				got := "nothing"
				if j < len(logs[i]) {
					got = logs[i][j]
				}
				c.Fail("index %d of %d (%v): observation %d is %.300s, alone it is %.300s", i, n, lives[i].desc, j, got, alone[i][j])
			}
			c.Count("observations compared", 1)
		}
	}
	if shareIdxAlloc || useBuilder {
		c.Count("lives sharing an index allocator", int64(n))
	}
	if useBuilder {
		c.Count("lives from one builder", int64(n))
	}
	fd, mp := fdsAndMaps(c.Dir())
	c.Check(fd == 0 && mp == 0, "after closing all: %d descriptors, %d mappings remain", fd, mp)
	c.Eval(true, c.Name, order.v)
	c.Clean()
	c.Sample("%d indexes (builder %v, parallel %v, workers %d): each sees what it sees alone", n, useBuilder, parallel, workers)
}

// c22saves lets indexes save at the same time, into one directory or even to one path.
func c22saves[TV VT, TIX IT](c *Case, k Combo) {
	n := 2 + c.R.IntN(4)
	f := pickF(c.R)
	onePath := c.R.IntN(2) == 0
	heap := c.R.IntN(2) == 0
	var ia interfaces.IndexAllocator
	if heap {
		ia = memory.FileIndexMemoryAllocator()
	} else {
		ia = memory.MmapIndexAllocator()
	}
	share := c.R.IntN(2) == 0
	dir := c.File("d")
	os.Mkdir(dir, 0o755)
	ws := make([]*world[TV, TIX], n)
	xs := make([]interfaces.AnnoyIndex[TV, TIX], n)
	qs := make([][]Query[TV, TIX], n)
	want := make([][]Ans[TV, TIX], n)
	data := make([][]byte, n)
	mine := map[string]int{}
	for i := range xs {
		w := &world[TV, TIX]{K: k, T: 1 + c.R.IntN(4), Seed: TIX(1 + c.R.IntN(1000))}
		w.S = genSet[TV, TIX](c.R, 30+c.R.IntN(400), f, "gauss", "dense", k.Dot)
		sp := w.Spec()
		if share {
			sp.IdxAlloc = ia
		} else if heap {
			sp.IdxAlloc = memory.FileIndexMemoryAllocator()
		}
		ws[i], xs[i] = w, w.Build(sp)
		qs[i] = w.queries(c, 4)
		want[i] = askAll(xs[i], qs[i])
		p := c.File(fmt.Sprintf("alone%d", i))
		c.Check(xs[i].Save(p) == nil, "Save failed")
		data[i], _ = os.ReadFile(p)
		mine[hashOf(data[i])] = i
	}
	path := func(i int) string {
		if onePath {
			i = 0
		}
		return filepath.Join(dir, fmt.Sprintf("%d.ann", i))
	}
	rounds := 4 + c.R.IntN(12)
	for t := 0; t < rounds; t++ {
		var wg sync.WaitGroup
		errs := make([]error, n)
		start := make(chan bool)
		for i := range xs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[i] = xs[i].Save(path(i))
			}()
		}
		close(start)
		wg.Wait()
		var names []string
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			names = append(names, e.Name())
		}
		for i := range xs {
			c.Check(errs[i] == nil, "round %d: index %d of %d that save at the same time (one path %v): %v", t, i, n, onePath, errs[i])
			sameAnswers(c, fmt.Sprintf("round %d: index %d of %d that saved at the same time (one path %v)", t, i, n, onePath), qs[i], want[i], askAll(xs[i], qs[i]))
			b, _ := os.ReadFile(path(i))
			j, ok := mine[hashOf(b)]
			c.Check(ok, "round %d: the file of %d indexes that saved at the same time (one path %v) is none of theirs: %d bytes", t, n, onePath, len(b))
			c.Check(onePath || j == i, "round %d: the file of index %d is the one of index %d", t, i, j)
		}
		c.Check(len(names) == len(map[bool][]int{true: {0}, false: make([]int, n)}[onePath]), "round %d: files %v", t, names)
		c.Count("saves at the same time", int64(n))
		if onePath {
			c.Count("saves to one path at the same time", int64(n))
		}
	}
	for i := range xs {
		xs[i].Close()
		c.Check(xs[i].Load(path(i)) == nil, "Load failed")
		if !onePath {
			sameAnswers(c, "loaded again", qs[i], want[i], askAll(xs[i], qs[i]))
		}
		xs[i].Close()
	}
	fd, mp := fdsAndMaps(c.Dir())
	c.Check(fd == 0 && mp == 0, "after closing all: %d descriptors, %d mappings remain", fd, mp)
	c.Eval(true, c.Name)
	c.Clean()
	c.Sample("%d indexes saving at the same time %d times, one path %v", n, rounds, onePath)
}

type fnvAcc struct{ v uint64 }

func fnvNew() *fnvAcc       { return &fnvAcc{14695981039346656037} }
func (a *fnvAcc) add(i int) { a.v = (a.v ^ uint64(i+1)) * 1099511628211 }

// bigSum adds up terms exactly.
func bigF(x float64) *big.Float { return new(big.Float).SetPrec(1200).SetFloat64(x) }

func c23[TV VT, TIX IT](c *Case, k Combo) {
	r := c.R
	if c.I%8 >= 6 || c.I%16 == 3 {
		c23utils[TIX](c)
		return
	}
	n := In(r, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, r.IntN(70), r.IntN(300))
	scale := In(r, 1.0, 1.0, 1e-3, 1e3, 1e10, 1e-10)
	gen := func() []TV {
		v := make([]TV, n)
		kind := r.IntN(5)
		for i := range v {
			switch kind {
			case 0:
				v[i] = TV(r.NormFloat64() * scale)
			case 1:
				v[i] = TV(float64(r.IntN(21)-10) * scale)
			case 2:
				v[i] = TV(math.Ldexp(r.NormFloat64(), r.IntN(60)-30))
			case 3:
				v[i] = 0
				if r.IntN(4) == 0 {
					v[i] = TV(math.Copysign(scale, r.NormFloat64()))
				}
			case 4:
				v[i] = TV(scale)
				if i%2 == 1 {
					v[i] = -v[i]
				}
			}
		}
		return v
	}
	a, b := gen(), gen()
	if r.IntN(8) == 0 {
		copy(b, a)
	}
	u := eps[TV]()
	tiny := 0x1p-149
	if u < 1e-10 {
		tiny = 0x1p-1074
	}
	// exact references
	dot, absDot, aa, eu, man := bigF(0), bigF(0), bigF(0), bigF(0), bigF(0)
	for i := range a {
		x, y := bigF(float64(a[i])), bigF(float64(b[i]))
		p := new(big.Float).SetPrec(1200).Mul(x, y)
		dot.Add(dot, p)
		absDot.Add(absDot, new(big.Float).SetPrec(1200).Abs(p))
		aa.Add(aa, new(big.Float).SetPrec(1200).Mul(x, x))
		d := new(big.Float).SetPrec(1200).Sub(x, y)
		eu.Add(eu, new(big.Float).SetPrec(1200).Mul(d, d))
		man.Add(man, new(big.Float).SetPrec(1200).Abs(d))
	}
	v := func(b *big.Float) float64 { f, _ := b.Float64(); return f }
	g := float64(n+4) * u * 1.1
	within := func(what string, got TV, want, mag float64) {
		if !(math.Abs(float64(got)-want) <= g*mag+float64(n+1)*tiny+math.Abs(want)*0x1p-52) {
			c.Fail("%s of %v and %v is %v, by definition %v", what, a, b, got, want)
		}
		c.Count(what+" judged", 1)
	}
	// the vectors end at an unmapped page, or are followed by elements that must not be used
	ga, gb := a, b
	var free []func()
	how := r.IntN(3)
	switch how {
	case 0:
		var fa, fb func()
		ga, fa = guardedVec(a, true)
		gb, fb = guardedVec(b, true)
		free = append(free, fa, fb)
	case 1:
		var fa, fb func()
		ga, fa = guardedVec(a, false)
		gb, fb = guardedVec(b, false)
		free = append(free, fa, fb)
	case 2:
		ga = append(append([]TV(nil), a...), TV(math.NaN()), TV(math.Inf(1)), 1e30)
		gb = append(append([]TV(nil), b...), TV(math.NaN()), 7, 1e30, 3)
	}
	la, lb := append([]TV(nil), ga...), append([]TV(nil), gb...)
	N := TIX(n)
	did, val := false, any(nil)
	func() {
		defer debugFault()()
		did, val = Panics(func() {
			within("Dot", vector.Dot(ga, gb, N), v(dot), v(absDot))
			within("EuclideanDistance", vector.EuclideanDistance(ga, gb, N), v(eu), v(eu)*4)
			within("ManhattanDistance", vector.ManhattanDistance(ga, gb, N), v(man), v(man)*2)
			norm := math.Sqrt(v(aa))
			within("GetNorm", vector.GetNorm(ga, N), norm, norm*2)
			if n > 0 {
				within("DotUnsafe", vector.DotUnsafe(&ga[0], &gb[0], N), v(dot), v(absDot))
				within("GetNormUnsafe", vector.GetNormUnsafe(&ga[0], N), norm, norm*2)
				// a part of the vector
				m := r.IntN(n + 1)
				d2, ad2 := bigF(0), bigF(0)
				for i := 0; i < m; i++ {
					p := new(big.Float).SetPrec(1200).Mul(bigF(float64(a[i])), bigF(float64(b[i])))
					d2.Add(d2, p)
					ad2.Add(ad2, p.Abs(p))
				}
				within("Dot of leading elements", vector.Dot(ga, gb, TIX(m)), v(d2), v(ad2))
				within("DotUnsafe of leading elements", vector.DotUnsafe(&ga[0], &gb[0], TIX(m)), v(d2), v(ad2))
			}
			for _, x := range a {
				c.Check(float64(vector.Abs(x)) == math.Abs(float64(x)), "Abs(%v) is %v", x, vector.Abs(x))
			}
			for _, x := range []float64{math.Inf(1), math.Inf(-1), 0, math.MaxFloat32, -math.MaxFloat32, -1e-40} {
				c.Check(float64(vector.Abs(TV(x))) == math.Abs(float64(TV(x))), "Abs(%v) is %v", x, vector.Abs(TV(x)))
			}
			c.Check(math.IsNaN(float64(vector.Abs(TV(math.NaN())))), "Abs(NaN) is a number")
			if n > 0 {
				xa := append([]TV(nil), a...)
				xa[r.IntN(n)] = TV(math.NaN())
				c.Check(math.IsNaN(float64(vector.Dot(xa, gb, N))) && math.IsNaN(float64(vector.EuclideanDistance(xa, gb, N))) &&
					math.IsNaN(float64(vector.ManhattanDistance(xa, gb, N))) && math.IsNaN(float64(vector.GetNorm(xa, N))), "a NaN element is ignored")
			}
		})
	}()
	if did {
		c.Fail("vectors of %d elements (placement %d): %v", n, how, val)
	}
	c.Check(sameRaw(la, ga) && sameRaw(lb, gb), "a helper modified its vectors")
	for _, f := range free {
		f()
	}
	c.Eval(n > 1, c.Name)
	c.Sample("n=%d placement %d: dot, norm, distances within %.2g of the exact values", n, how, g)
}

func c23utils[TIX IT](c *Case) {
	r := c.R
	// rounding
	for i := 0; i < 60; i++ {
		f := In(r, r.NormFloat64(), r.NormFloat64()*1e3, r.NormFloat64()*1e9, float64(r.IntN(2001)-1000)/2, float64(r.IntN(2001)-1000), math.Ldexp(r.NormFloat64(), r.IntN(100)-40))
		g := utils.Round(f)
		ulp := math.Nextafter(math.Abs(f), math.Inf(1)) - math.Abs(f)
		c.Check(g == math.Trunc(g) && math.Abs(g-f) <= 0.5+ulp+0x1p-53, "Round(%v) is %v", f, g)
		if 2*f == math.Trunc(2*f) && math.Abs(f) < 1<<40 {
			c.Check(g == math.Floor(f+0.5), "Round(%v) is %v", f, g)
		}
		p := r.IntN(10) - 3
		x := In(r, r.NormFloat64()*1e3, r.NormFloat64(), r.NormFloat64()*1e6, float64(r.IntN(20001)-10000)/100)
		y := utils.RoundPlus(x, p)
		step := math.Pow(10, -float64(p))
		slack := 8*0x1p-52*math.Abs(x) + 8*0x1p-52*step
		c.Check(math.Abs(y-x) <= step/2+slack, "RoundPlus(%v,%d) is %v", x, p, y)
		q := y / step
		c.Check(math.Abs(q-math.Round(q)) <= 16*0x1p-52*math.Abs(q)+1e-12, "RoundPlus(%v,%d) is %v: not a multiple of %v", x, p, y, step)
		c.Count("roundings judged", 2)
	}
	// maximum
	for i := 0; i < 10; i++ {
		a, b := TIX(r.Uint64()), TIX(r.Uint64())
		if i < 3 {
			a, b = TIX(r.IntN(4)), TIX(r.IntN(4))
		}
		w := a
		if b > a {
			w = b
		}
		c.Check(utils.Max(a, b) == w, "Max(%d,%d) is %d", a, b, utils.Max(a, b))
	}
	// intersection
	gen := func() []TIX {
		n := In(r, 0, 1, 2, r.IntN(12), r.IntN(12), r.IntN(200), 600)
		span := In(r, 3, 10, 100, 1000, 1<<31)
		out := make([]TIX, n)
		for i := range out {
			out[i] = TIX(r.IntN(span))
			if r.IntN(30) == 0 {
				out[i]--
			}
		}
		return out
	}
	a, b := gen(), gen()
	if r.IntN(3) == 0 { // sets
		a, b = uniq(a), uniq(b)
		r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	}
	ca, cb := map[TIX]int{}, map[TIX]int{}
	for _, x := range a {
		ca[x]++
	}
	for _, x := range b {
		cb[x]++
	}
	var want []TIX
	for x, n := range ca {
		for i := 0; i < min(n, cb[x]); i++ {
			want = append(want, x)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	la, lb := append([]TIX(nil), a...), append([]TIX(nil), b...)
	got := utils.Intersection(a, b)
	c.Check(sameSlice(got, want), "Intersection of %v and %v is %v, expected %v", clip(la), clip(lb), clip(got), clip(want))
	so := func(x []TIX) []TIX {
		y := append([]TIX(nil), x...)
		sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
		return y
	}
	c.Check(sameSlice(so(a), so(la)) && sameSlice(so(b), so(lb)), "Intersection changed the elements of its arguments")
	c.Count("intersections judged", 1)
	c.Eval(len(want) > 0, c.Name)
}

func uniq[T comparable](x []T) []T {
	seen := map[T]bool{}
	var out []T
	for _, e := range x {
		if !seen[e] {
			seen[e] = true
			out = append(out, e)
		}
	}
	return out
}

var limitRe = regexp.MustCompile(`(?m)^limit = (\d+), precision = (\S+), time = `)
var findRe = regexp.MustCompile(`(?m)^finding nbs for (\d+)$`)

// c24 runs the precision command.
func c24(c *Case) {
	r := c.R
	bin := os.Getenv("MON_CLI")
	infraIf(bin == "", "MON_CLI is not set")
	items := In(r, 1, 2, 5, 9, 10, 11, 30, 99, 100, 101, 250, 1+r.IntN(400), 1+r.IntN(400))
	if c.I%20 == 3 {
		items = In(r, 1000, 1001, 1200)
	}
	length := In(r, 1, 2, 3, 5, 8, 10, 16)
	prec := In(r, 1, 2, 10, 1+r.IntN(40))
	keep, file, verbose, heap := r.IntN(2) == 0, r.IntN(2) == 0, r.IntN(8) == 0, r.IntN(2) == 0
	prof := In(r, "", "", "", "", "", "cpu", "mem")
	dir := c.File("cwd")
	tmp := c.File("tmp")
	os.MkdirAll(dir, 0o755)
	os.MkdirAll(tmp, 0o755)
	if verbose {
		items = min(items, 60)
	}
	args := []string{"-items", strconv.Itoa(items), "-length", strconv.Itoa(length), "-prec", strconv.Itoa(prec)}
	if c.I%25 == 7 {
		// the defaults
		args, items, length, prec = nil, 1000, 40, 1000
		verbose, prof = false, ""
		if c.I%50 == 7 {
			args, length, prec = []string{"-length", "12", "-prec", "50"}, 12, 50
		}
	}
	if keep {
		args = append(args, "-keep")
	}
	if file {
		args = append(args, "-file")
	}
	if verbose {
		args = append(args, "-verbose")
	}
	if heap {
		args = append(args, "-use-memory-index-allocator")
	}
	if prof != "" {
		args = append(args, "-"+prof+"-profile")
	}
	r.Shuffle(0, func(int, int) {})
	pre := r.IntN(4)
	if pre == 0 { // left overs of an earlier run
		os.WriteFile(filepath.Join(dir, "test.ann"), bytes.Repeat([]byte("x"), 100000), 0o644)
	}
	if pre <= 1 && file {
		os.WriteFile(filepath.Join(dir, "results.txt"), bytes.Repeat([]byte("old line\n"), 100000), 0o644)
	}
	c.Note("args %v", args)
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	c.Check(err == nil, "precision %v: %v\n%s\n%s", args, err, tail(se.String()), tail(so.String()))
	text := so.String()
	rep, rerr := os.ReadFile(filepath.Join(dir, "results.txt"))
	if file {
		c.Check(rerr == nil, "no results.txt with -file")
		c.Check(!limitRe.MatchString(text), "with -file the report still goes to standard output")
		text = string(rep)
		c.Check(!strings.Contains(text, "old line"), "results.txt keeps old contents")
	} else {
		c.Check(os.IsNotExist(rerr), "results.txt is written without -file")
	}
	_, aerr := os.Stat(filepath.Join(dir, "test.ann"))
	if keep {
		c.Check(aerr == nil, "no test.ann with -keep")
	} else {
		c.Check(os.IsNotExist(aerr), "test.ann is left without -keep")
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		c.Check(e.Name() == "results.txt" || e.Name() == "test.ann", "the command leaves %s", e.Name())
	}
	// the report
	var js []uint32
	for _, m := range findRe.FindAllStringSubmatch(text, -1) {
		j, _ := strconv.Atoi(m[1])
		c.Check(j >= 0 && j < items, "searches item %d of %d", j, items)
		js = append(js, uint32(j))
	}
	c.Check(len(js) == prec, "%d searches reported, %d asked for", len(js), prec)
	got := map[int]float64{}
	for _, m := range limitRe.FindAllStringSubmatch(text, -1) {
		l, _ := strconv.Atoi(m[1])
		p, err := strconv.ParseFloat(m[2], 64)
		c.Check(err == nil && p >= 0 && p <= 1.0000001, "precision %s for limit %d", m[2], l)
		_, dup := got[l]
		c.Check(!dup, "limit %d is reported twice", l)
		got[l] = p
	}
	var limits []int
	for i := 1; i <= items; i *= 10 {
		limits = append(limits, i)
	}
	for _, l := range limits {
		_, ok := got[l]
		c.Check(ok, "limit %d is not reported for %d items", l, items)
	}
	trees := 2 * length
	for l, p := range got {
		// all items may be returned and the reference search finds ten
		if l >= items && items/trees >= 10 {
			c.Check(math.Abs(p-1) < 1e-6, "all %d items may be returned (limit %d), but the precision is %v", items, l, p)
			c.Count("best precisions judged", 1)
		}
	}
	if keep {
		idx := Spec[float32, uint32]{F: length, Seed: 1}.New()
		err := idx.Load(filepath.Join(dir, "test.ann"))
		c.Check(err == nil, "the kept file does not load: %v", err)
		n := 0
		for i := 0; i < items; i++ {
			c.Check(len(idx.GetItem(uint32(i))) == length, "item %d", i)
			n++
		}
		did, _ := Panics(func() { idx.GetItem(uint32(items)) })
		c.Check(did, "the kept index has more than %d items", items)
		all, _ := idx.GetNnsByItem(0, items+1, 1<<30, idx.CreateContext())
		c.Check(len(all) == items, "the kept index finds %d of %d items", len(all), items)
		sum := map[int]float64{}
		ctx := idx.CreateContext()
		for _, j := range js {
			closest, _ := idx.GetNnsByItem(j, 10, items, ctx)
			for l := range got {
				top, _ := idx.GetNnsByItem(j, l, -1, ctx)
				in := map[uint32]bool{}
				for _, t := range top {
					in[t] = true
				}
				for _, t := range closest {
					if in[t] {
						sum[l]++
					}
				}
			}
		}
		for l, p := range got {
			want := sum[l] / 10 / float64(prec)
			c.Check(math.Abs(p-want) <= 2e-6, "limit %d: reported precision %v, on the kept index it is %v", l, p, want)
			c.Count("precisions recomputed", 1)
			if l >= items {
				c.Count("precisions with all items", 1)
			}
		}
		idx.Close()
	}
	c.Count("runs", 1)
	for _, o := range args {
		if strings.HasPrefix(o, "-") {
			c.Count("option "+o, 1)
		}
	}
	c.Eval(items > 1, strings.Join(args, " "))
	c.Sample("%v: %v", args, got)
	c.Clean()
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

var _ = syscall.SIGINT
var _ = unsafe.Sizeof(0)
