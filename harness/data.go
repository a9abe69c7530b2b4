package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// Families of vectors. Values stay in a range where squared norms neither over- nor underflow.
var families = []string{
	"gauss", "cluster", "dup", "gauss", "collinear", "onehot", "grid", "zeros",
	"scaled", "near", "halfspace", "ident", "allzero", "cluster", "wide",
}

// rarely split: few distinct directions
func degenerate(fam string) bool {
	return fam == "ident" || fam == "allzero" || fam == "collinear" || fam == "onehot" || fam == "dup"
}

func genVectors[TV VT](r *rand.Rand, n, f int, fam string) [][]TV {
	g := func() float64 { return r.NormFloat64() }
	vec := func(fn func(int) float64) []TV {
		v := make([]TV, f)
		for i := range v {
			v[i] = TV(fn(i))
		}
		return v
	}
	nc := 2 + r.IntN(6)
	centers := make([][]float64, nc)
	for i := range centers {
		centers[i] = make([]float64, f)
		for j := range centers[i] {
			centers[i][j] = g()
		}
	}
	spread := math.Pow(10, -1-3*r.Float64())
	out := make([][]TV, n)
	for k := range out {
		c := centers[r.IntN(nc)]
		switch fam {
		case "gauss":
			out[k] = vec(func(int) float64 { return g() })
		case "cluster":
			out[k] = vec(func(i int) float64 { return c[i] + 0.15*g() })
		case "near":
			out[k] = vec(func(i int) float64 { return centers[0][i] + spread*g() })
		case "dup":
			out[k] = vec(func(i int) float64 { return c[i] })
		case "ident":
			out[k] = vec(func(i int) float64 { return centers[0][i] })
		case "collinear":
			s := In(r, 0.5, 1.0, 2.0, -1.0, 3.0, 0.125)
			out[k] = vec(func(i int) float64 { return centers[0][i] * s })
		case "onehot":
			p := r.IntN(f)
			s := In(r, 1.0, -1.0, 2.0)
			out[k] = vec(func(i int) float64 {
				if i == p {
					return s
				}
				return 0
			})
		case "grid":
			out[k] = vec(func(int) float64 { return float64(r.IntN(5) - 2) })
		case "zeros":
			if r.IntN(3) == 0 {
				out[k] = make([]TV, f)
			} else {
				out[k] = vec(func(int) float64 { return g() })
			}
		case "allzero":
			out[k] = make([]TV, f)
		case "scaled":
			s := math.Pow(10, -3+6*r.Float64())
			out[k] = vec(func(int) float64 { return s * g() })
		case "wide": // up to where the squared norm is about to be too great or small
			s := math.Pow(10, 15*(2*r.Float64()-1))
			if eps[TV]() < 1e-10 {
				s = math.Pow(10, 140*(2*r.Float64()-1))
			}
			out[k] = vec(func(int) float64 { return s * g() })
		case "halfspace":
			out[k] = vec(func(i int) float64 { return math.Abs(g()) + 0.1 })
		default:
			panic("family " + fam)
		}
	}
	return out
}

var layouts = []string{"dense", "shuffled", "dense", "reverse", "gap", "sparse", "offset", "single"}

// genIds gives n distinct ids in the order of adding; the highest stays below 4n+20.
func genIds(r *rand.Rand, n int, layout string) []int {
	ids := make([]int, n)
	for i := range ids {
		ids[i] = i
	}
	switch layout {
	case "dense":
	case "shuffled":
		r.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	case "reverse":
		for i := range ids {
			ids[i] = n - 1 - i
		}
	case "gap":
		g := 1 + r.IntN(10)
		at := r.IntN(n + 1)
		for i := range ids {
			if i >= at {
				ids[i] += g
			}
		}
	case "sparse":
		p := r.Perm(3*n + 3)
		ids = p[:n]
	case "offset":
		o := 1 + r.IntN(20)
		for i := range ids {
			ids[i] += o
		}
	case "single":
		// one far id last or first
		if n > 0 {
			ids[n-1] = n + r.IntN(2*n+10)
		}
		if r.IntN(2) == 0 {
			ids[0], ids[n-1] = ids[n-1], ids[0]
		}
	default:
		panic("layout " + layout)
	}
	return ids
}

// Set is an item set and the reference metric over it.
type Set[TV VT, TIX IT] struct {
	F     int
	Dot   bool
	Order []TIX // in the order of adding
	V     map[TIX][]TV
	Max   TIX
	Fam   string
	Lay   string
	pre   map[TIX][]TV // vectors that are overwritten
	ids   []TIX        // sorted
	eps   float64
}

func newSet[TV VT, TIX IT](f int, dot bool) *Set[TV, TIX] {
	return &Set[TV, TIX]{F: f, Dot: dot, V: map[TIX][]TV{}}
}

func (s *Set[TV, TIX]) put(id TIX, v []TV) {
	s.Order = append(s.Order, id)
	s.V[id] = append([]TV(nil), v...)
	if id > s.Max {
		s.Max = id
	}
	s.ids = nil
}

// Ids in ascending order.
func (s *Set[TV, TIX]) Ids() []TIX {
	if s.ids == nil {
		for id := range s.V {
			s.ids = append(s.ids, id)
		}
		sort.Slice(s.ids, func(i, j int) bool { return s.ids[i] < s.ids[j] })
	}
	return s.ids
}

func (s *Set[TV, TIX]) N() int { return len(s.V) }

// NItems is the highest id + 1, as the index counts.
func (s *Set[TV, TIX]) NItems() int { return int(s.Max) + 1 }

func (s *Set[TV, TIX]) String() string {
	return fmt.Sprintf("f=%d n=%d max=%d fam=%s lay=%s overwritten=%d dot=%v %T/%T", s.F, s.N(), s.Max, s.Fam, s.Lay, len(s.pre), s.Dot, TV(0), TIX(0))
}

// AddTo adds all items in order.
func (s *Set[TV, TIX]) AddTo(idx interfaces.AnnoyIndex[TV, TIX]) {
	for i, id := range s.Order {
		if v, ok := s.pre[id]; ok {
			idx.AddItem(id, append([]TV(nil), v...))
			// the right vector follows at once or some items later
			if j := i - 3; i%2 == 0 && j >= 0 {
				idx.AddItem(s.Order[j], append([]TV(nil), s.V[s.Order[j]]...))
			}
		}
		idx.AddItem(id, append([]TV(nil), s.V[id]...))
	}
}

func genSet[TV VT, TIX IT](r *rand.Rand, n, f int, fam, lay string, dot bool) *Set[TV, TIX] {
	s := newSet[TV, TIX](f, dot)
	s.Fam, s.Lay = fam, lay
	vs := genVectors[TV](r, n, f, fam)
	for i, id := range genIds(r, n, lay) {
		s.put(TIX(id), vs[i])
	}
	if r.IntN(4) == 0 { // some items are added twice
		s.pre = map[TIX][]TV{}
		ds := genVectors[TV](r, 1+n/4, f, In(r, "gauss", "scaled", "wide", "zeros", fam))
		for _, v := range ds {
			s.pre[s.Order[r.IntN(n)]] = v
		}
	}
	return s
}

func eps[TV VT]() float64 {
	if unsafe.Sizeof(TV(0)) == 4 {
		return 0x1p-24
	}
	return 0x1p-53
}

func dot64[TV VT](a, b []TV) (d, na, nb float64) {
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		d += x * y
		na += x * x
		nb += y * y
	}
	return
}

// Key is the reference ordering key (ascending = nearer) and its tolerance: the squared angular
// distance, or the negated inner product.
func refKey[TV VT](dot bool, a, b []TV) (key, tol float64) {
	d, na, nb := dot64(a, b)
	f := float64(len(a))
	u := eps[TV]()
	// the float64 reference itself rounds
	c := 7*(f+16)*u + 8*(f+16)*0x1p-53
	if dot {
		return -d, c * (math.Sqrt(na)*math.Sqrt(nb) + 1e-300)
	}
	if na == 0 || nb == 0 {
		return 2, 0
	}
	return 2 - 2*d/(math.Sqrt(na)*math.Sqrt(nb)), c
}

// refDist is the value the user sees, as an interval.
func refDist[TV VT](dot bool, a, b []TV) (lo, hi float64) {
	k, t := refKey(dot, a, b)
	if dot {
		return -k - t, -k + t
	}
	lo = math.Sqrt(math.Max(0, k-t))
	hi = math.Sqrt(math.Max(0, k+t))
	u := eps[TV]()
	return lo * (1 - 4*u), hi * (1 + 4*u)
}

// Spec says how to make an index. Nil fields get the usual defaults.
type Spec[TV VT, TIX IT] struct {
	F        int
	Dot      bool
	Seed     TIX
	Dist     interfaces.Distance[TV, TIX]
	Rand     interfaces.Random[TIX]
	Policy   interfaces.AnnoyIndexBuildPolicy
	Alloc    interfaces.BuildIndexAllocator
	IdxAlloc interfaces.IndexAllocator
	Sorter   interfaces.Sorter[TV, TIX]
	Verbose  bool
	Hint     TIX
}

func newDist[TV VT, TIX IT](f int, dot bool) interfaces.Distance[TV, TIX] {
	if dot {
		return dotproduct.Distance[TV](TIX(f))
	}
	return angular.Distance[TV](TIX(f))
}

func newRand[TIX IT](seed TIX) interfaces.Random[TIX] {
	var t TIX
	switch any(t).(type) {
	case uint32:
		return any(random.NewKiss32Random(uint32(seed))).(interfaces.Random[TIX])
	}
	return any(random.NewKiss64Random(uint64(seed))).(interfaces.Random[TIX])
}

func (s Spec[TV, TIX]) New() interfaces.AnnoyIndex[TV, TIX] {
	if s.Dist == nil {
		s.Dist = newDist[TV, TIX](s.F, s.Dot)
	}
	if s.Rand == nil {
		s.Rand = newRand[TIX](s.Seed)
	}
	if s.Policy == nil {
		s.Policy = policy.SingleWorker()
	}
	if s.Alloc == nil {
		s.Alloc = memory.GoGCIndexAllocator()
	}
	if s.IdxAlloc == nil {
		s.IdxAlloc = memory.MmapIndexAllocator()
	}
	return index.New[TV, TIX](s.Rand, s.Dist, s.Policy, s.Alloc, s.IdxAlloc, s.Sorter, s.Verbose, s.Hint)
}

// capacity of a bucket, worked out from the node layout (not from MaxNumChildren).
func capacity[TV VT, TIX IT](f int, dot bool) int {
	d := newDist[TV, TIX](f, dot)
	mem := make([]byte, int(d.NodeSize())+64)
	n := d.MapNodeToMemory(unsafe.Pointer(&mem[0]), 0)
	off := uintptr(unsafe.Pointer(n.GetRawChildren())) - uintptr(unsafe.Pointer(&mem[0]))
	return (int(d.NodeSize()) - int(off)) / int(unsafe.Sizeof(TIX(0)))
}

// pickF and pickN give vector lengths and item counts around the interesting boundaries.
func pickF(r *rand.Rand) int {
	if r.IntN(12) == 0 {
		return In(r, 6, 7, 31, 32, 33, 48, 64, 65, 100, 128)
	}
	return In(r, 1, 2, 3, 4, 5, 8, 8, 10, 13, 16, 25)
}

func pickN(r *rand.Rand, k int) int {
	switch r.IntN(10) {
	case 0:
		return 1 + r.IntN(3)
	case 1:
		return max(1, k-1+r.IntN(3))
	case 2:
		return k + 1 + r.IntN(k+1)
	case 3:
		return 2*k + r.IntN(3)
	case 4:
		return 3 + r.IntN(60)
	case 5, 6:
		return k + 1 + r.IntN(6*k+10)
	}
	return 30 + r.IntN(250)
}

// world is a random index set-up.
type world[TV VT, TIX IT] struct {
	K    Combo
	S    *Set[TV, TIX]
	Cap  int
	T    int
	Seed TIX
	Big  bool // more than 65533 items
}

// bigCases: every so manyth case of a check is about very many items
var bigCases = map[string]int{"C01": 1200, "C02": 1800, "C03": 1600, "C04": 900, "C05": 1200, "C06": 750, "C11": 2400, "C21": 2400}

func genWorld[TV VT, TIX IT](c *Case, k Combo) *world[TV, TIX] {
	r := c.R
	f := pickF(r)
	kk := capacity[TV, TIX](f, k.Dot)
	n := pickN(r, kk)
	fam := families[r.IntN(len(families))]
	lay := layouts[r.IntN(len(layouts))]
	T := In(r, 1, 1, 2, 3, 5, 8, 10, 1, 2, 3, 5, 8, 10, 4, 6, 17)
	// rarely: long vectors, many trees, very many items
	switch x := r.IntN(400); {
	case x < 2:
		f = In(r, 150, 200, 254, 255, 256, 257, 300, 511, 512, 513, 784, 1024, 1025, 1500)
		kk = capacity[TV, TIX](f, k.Dot)
		n = In(r, 1, 20, kk-1, kk, kk+1, kk+2+r.IntN(kk), kk+2+r.IntN(kk), 2*kk+3+r.IntN(9))
		T = In(r, 1, 2, 3)
		c.Count("worlds of long vectors", 1)
	case x < 5:
		T = In(r, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025)
		n = min(n, 2+r.IntN(90))
		if T > 300 {
			n = min(n, 2+r.IntN(30))
		}
		c.Count("worlds of many trees", 1)
	}
	big := false
	if m := bigCases[c.Prop]; m > 0 && c.I%m == m-7 {
		big = true
		f = 1 + r.IntN(4)
		kk = capacity[TV, TIX](f, k.Dot)
		n = In(r, 1<<16-2, 1<<16-1, 1<<16, 1<<16+1, 1<<16+2, 65536+r.IntN(9000), 65536+r.IntN(9000), 1<<17+r.IntN(9), 200000+r.IntN(150000))
		T = In(r, 1, 1, 2)
		c.Count("worlds of more than 65533 items", 1)
	}
	w := &world[TV, TIX]{K: k, Cap: kk, T: T, Seed: TIX(1 + r.IntN(1<<30)), Big: big}
	if (fam == "ident" || fam == "allzero") && n > 120 {
		if big || f > 100 {
			fam = "gauss"
		} else {
			n = 120
		}
	}
	if big {
		fam, lay = In(r, "gauss", "cluster", "scaled", "gauss"), In(r, "dense", "shuffled", "gap", "offset", "single")
	}
	w.S = genSet[TV, TIX](r, n, f, fam, lay, k.Dot)
	c.Note("%v T=%d K=%d seed=%d", w.S, w.T, kk, w.Seed)
	return w
}

func (w *world[TV, TIX]) Spec() Spec[TV, TIX] {
	return Spec[TV, TIX]{F: w.S.F, Dot: w.K.Dot, Seed: w.Seed}
}

// Build gives a freshly built index.
func (w *world[TV, TIX]) Build(sp Spec[TV, TIX]) interfaces.AnnoyIndex[TV, TIX] {
	idx := sp.New()
	w.S.AddTo(idx)
	idx.Build(w.T, 1)
	return idx
}

// query vectors: random ones, stored ones, perturbed ones, zero and scaled ones
func (w *world[TV, TIX]) query(r *rand.Rand) []TV {
	ids := w.S.Ids()
	switch r.IntN(8) {
	case 0, 1:
		return append([]TV(nil), w.S.V[ids[r.IntN(len(ids))]]...)
	case 2, 3:
		v := append([]TV(nil), w.S.V[ids[r.IntN(len(ids))]]...)
		for i := range v {
			v[i] += TV(0.1 * r.NormFloat64())
		}
		return v
	case 4:
		if r.IntN(3) == 0 {
			return make([]TV, w.S.F)
		}
		v := append([]TV(nil), w.S.V[ids[r.IntN(len(ids))]]...)
		s := TV(In(r, -1.0, 0.01, 100))
		for i := range v {
			v[i] *= s
		}
		return v
	}
	return genVectors[TV](r, 1, w.S.F, "gauss")[0]
}

func vsize[TV VT]() int { return int(unsafe.Sizeof(TV(0))) }
