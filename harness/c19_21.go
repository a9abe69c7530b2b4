package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"math/rand/v2"
	"runtime"
	"sort"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	gsort "github.com/mariotoffia/goannoy/sort"
)

func init() {
	checks["C19"] = func(e *Env) {
		e.Loop(6000, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c19[float32, uint32], c19[float32, uint64], c19[float64, uint32], c19[float64, uint64])(c, k)
		})
		e.LoopN("huge", 3, func(c *Case) {
			c19huge[float32, uint32](c)
		})
	}
	checks["C20"] = func(e *Env) {
		e.Loop(4000, func(c *Case) { c20(c) })
		e.LoopN("long", 8, func(c *Case) { c20long(c) })
	}
	checks["C21"] = func(e *Env) {
		e.Loop(3000, func(c *Case) {
			k := ComboOf(c.I)
			pick(k, c21[float32, uint32], c21[float32, uint64], c21[float64, uint32], c21[float64, uint64])(c, k)
		})
	}
}

// lessPair is the order of pairs by definition.
func lessPair[TV VT, TIX IT](a, b interfaces.Pair[TV, TIX]) bool {
	if a.First != b.First {
		return a.First < b.First
	}
	return a.Second < b.Second
}

// shapes of sort inputs
func genPairs[TV VT, TIX IT](r *rand.Rand, n int) []interfaces.Pair[TV, TIX] {
	kind := r.IntN(9)
	out := make([]interfaces.Pair[TV, TIX], n)
	for i := range out {
		p := &out[i]
		p.Second = TIX(r.Uint64())
		switch kind {
		case 0:
			p.First = TV(r.NormFloat64())
		case 1: // many ties
			p.First = TV(r.IntN(4))
			p.Second = TIX(r.IntN(5))
		case 2:
			p.First, p.Second = TV(i), TIX(i)
		case 3:
			p.First, p.Second = TV(n-i), TIX(n-i)
		case 4:
			p.First = 1.5
		case 5: // all the same
			p.First, p.Second = 2, 7
		case 6: // extremes
			p.First = TV(In(r, math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 1e-45, -1e-45, 3e38, -3e38))
			p.Second = TIX(In(r, 0, 1, 1<<31, 1<<32-1))
		case 7: // organ pipe
			p.First = TV(min(i, n-i))
			p.Second = TIX(i % 3)
		case 8: // nearly sorted
			p.First = TV(i)
			if r.IntN(10) == 0 {
				p.First = TV(r.IntN(n))
			}
		}
	}
	return out
}

func pickLen(r *rand.Rand) int {
	return In(r, 0, 1, 2, 3, r.IntN(12), 15+r.IntN(8), 15+r.IntN(8), r.IntN(60), r.IntN(300), 490+r.IntN(25), r.IntN(1500), 1000+r.IntN(4000))
}

func c19[TV VT, TIX IT](c *Case, k Combo) {
	r := c.R
	switch c.I % 4 {
	case 0: // ids
		n := pickLen(r)
		in := make([]TIX, n)
		kind := r.IntN(5)
		for i := range in {
			switch kind {
			case 0:
				in[i] = TIX(r.Uint64())
			case 1:
				in[i] = TIX(r.IntN(7))
			case 2:
				in[i] = TIX(i)
			case 3:
				in[i] = TIX(n - i)
			case 4:
				var b TIX
				b--
				in[i] = In(r, 0, b, b/2, b/2+1, 1)
			}
		}
		want := append([]TIX(nil), in...)
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		for which, fn := range []func([]TIX){gsort.SortSlice[TIX], gsort.SortSlice2[TIX], gsort.SortSlice3[TIX]} {
			back := make([]TIX, n+8)
			for i := range back {
				back[i] = 12345
			}
			s := back[4 : 4+n : 4+n]
			copy(s, in)
			fn(s)
			c.Check(sameSlice(s, want), "SortSlice#%d of %d ids (kind %d): %v", which+1, n, kind, clip(s))
			for i := range back {
				if (i < 4 || i >= 4+n) && back[i] != 12345 {
					c.Fail("SortSlice#%d wrote outside the slice", which+1)
				}
			}
			c.Count("id sorts judged", 1)
			c.Eval(n > 1, c.Name, which)
		}
	case 1: // pairs
		n := pickLen(r)
		in := genPairs[TV, TIX](r, n)
		for which, fn := range []func([]*interfaces.Pair[TV, TIX]){gsort.SortPairs[TV, TIX], func(p []*interfaces.Pair[TV, TIX]) { gsort.SortPairs2[TV, TIX](p) }} {
			ps, ptrs := pointers(in)
			fn(ps)
			c.samePairs(fmt.Sprintf("SortPairs#%d of %d", which+1, n), anyPtrs(ps), ptrs)
			for i := 1; i < n; i++ {
				if lessPair(*ps[i], *ps[i-1]) {
					c.Fail("SortPairs#%d of %d: %v before %v at %d", which+1, n, *ps[i-1], *ps[i], i)
				}
			}
			checkValues(c, "SortPairs", in, ps)
			c.Count("pair sorts judged", 1)
			c.Eval(n > 1, c.Name, which)
		}
	case 2: // partial
		n := max(1, pickLen(r))
		in := genPairs[TV, TIX](r, n)
		b := In(r, 0, 0, r.IntN(n), r.IntN(n))
		e := In(r, n, n, b+r.IntN(n-b+1), b+r.IntN(n-b+1))
		m := b + In(r, e-b, r.IntN(e-b+1), r.IntN(e-b+1), min(10, e-b), min(1, e-b), 0)
		c.partial(in2any(in), func(which int) (fail string) {
			ps, ptrs := pointers(in)
			if which == 0 {
				gsort.PartialSortSlice[TV, TIX](ps, b, m, e)
			} else {
				gsort.PartialSortSlice2[TV, TIX](ps, b, m, e)
			}
			return judgePartial(c, in, ps, ptrs, b, m, e)
		}, n, b, m, e)
	case 3:
		c19pq[TV, TIX](c)
		c19list[TV, TIX](c)
	}
}

func in2any[T any](x []T) int { return len(x) }

func (c *Case) partial(_ int, f func(int) string, n, b, m, e int) {
	for which := 0; which < 2; which++ {
		if s := f(which); s != "" {
			c.Fail("PartialSortSlice#%d(begin=%d middle=%d end=%d) of %d: %s", which+1, b, m, e, n, s)
		}
		c.Count("partial sorts judged", 1)
		c.Eval(m > b, c.Name, which)
	}
}

func judgePartial[TV VT, TIX IT](c *Case, in []interfaces.Pair[TV, TIX], ps []*interfaces.Pair[TV, TIX], ptrs []*interfaces.Pair[TV, TIX], b, m, e int) string {
	for i := range in {
		if (i < b || i >= e) && ps[i] != ptrs[i] {
			return fmt.Sprintf("position %d outside [begin,end) changed", i)
		}
	}
	c.samePairs("partial sort", anyPtrs(ps), ptrs)
	checkValues(c, "partial sort", in, ps)
	w := append([]interfaces.Pair[TV, TIX](nil), in[b:e]...)
	sort.Slice(w, func(i, j int) bool { return lessPair(w[i], w[j]) })
	for i := b; i < m; i++ {
		if lessPair(*ps[i], w[i-b]) || lessPair(w[i-b], *ps[i]) {
			return fmt.Sprintf("position %d holds %v, the %d-th smallest is %v", i, *ps[i], i-b, w[i-b])
		}
	}
	return ""
}

func clip[T any](x []T) []T {
	if len(x) > 30 {
		return x[:30]
	}
	return x
}

func pointers[TV VT, TIX IT](in []interfaces.Pair[TV, TIX]) (a, b []*interfaces.Pair[TV, TIX]) {
	for i := range in {
		p := in[i]
		a = append(a, &p)
	}
	b = append(b, a...)
	return
}

func anyPtrs[T any](x []*T) []*T { return x }

// samePairs checks that exactly the same pairs are there.
func (c *Case) samePairs(what string, got, want any) {
	switch g := got.(type) {
	default:
		samePtrs(c, what, g, want)
	}
}

func samePtrs(c *Case, what string, got, want any) {
	count := map[string]int{}
	for _, p := range ptrList(got) {
		count[p]++
	}
	for _, p := range ptrList(want) {
		count[p]--
	}
	for p, n := range count {
		if n != 0 {
			c.Fail("%s: element %s appears %+d times too often", what, p, n)
		}
	}
}

func ptrList(x any) []string {
	var out []string
	switch v := x.(type) {
	case []*interfaces.Pair[float32, uint32]:
		out = addrs(v)
	case []*interfaces.Pair[float32, uint64]:
		out = addrs(v)
	case []*interfaces.Pair[float64, uint32]:
		out = addrs(v)
	case []*interfaces.Pair[float64, uint64]:
		out = addrs(v)
	default:
		panic(fmt.Sprintf("%T", x))
	}
	return out
}

func addrs[T any](v []*T) (out []string) {
	for _, p := range v {
		out = append(out, fmt.Sprintf("%p", p))
	}
	return
}

// checkValues: sorting changes no pair (as a multiset of values).
func checkValues[TV VT, TIX IT](c *Case, what string, in []interfaces.Pair[TV, TIX], ps []*interfaces.Pair[TV, TIX]) {
	cnt := map[[2]uint64]int{}
	for _, p := range in {
		cnt[[2]uint64{rawBits(p.First), uint64(p.Second)}]++
	}
	for _, p := range ps {
		cnt[[2]uint64{rawBits(p.First), uint64(p.Second)}]--
	}
	for k, n := range cnt {
		if n != 0 {
			c.Fail("%s: pair %v lost or invented", what, k)
		}
	}
}

// c19pq drives the priority queue against a multiset.
func c19pq[TV VT, TIX IT](c *Case) {
	r := c.R
	q := gsort.NewPriorityQueue[TV, TIX]()
	c.Check(q.Empty() && q.Len() == 0, "a new queue is not empty")
	c.Check(q.Top() == nil, "Top of an empty queue is not nil")
	var model []interfaces.Pair[TV, TIX]
	src := genPairs[TV, TIX](r, 1+pickLen(r)%800)
	steps := 20 + r.IntN(600)
	push := 1 + r.IntN(9)
	pops := 0
	take := func() {
		top := q.Top()
		best := 0
		for i := range model {
			if lessPair(model[i], model[best]) {
				best = i
			}
		}
		c.Check(top != nil, "Top of a queue of %d is nil", len(model))
		t := *top
		if lessPair(t, model[best]) || lessPair(model[best], t) {
			c.Fail("Top is %v, the smallest of %d remaining is %v", t, len(model), model[best])
		}
		if r.IntN(4) == 0 {
			return
		}
		p := q.Pop()
		if rawBits(p.First) != rawBits(t.First) || p.Second != t.Second {
			c.Fail("Pop gives %v, Top was %v", *p, t)
		}
		// remove that very pair
		at := -1
		for i := range model {
			if rawBits(model[i].First) == rawBits(p.First) && model[i].Second == p.Second {
				at = i
			}
		}
		c.Check(at >= 0, "Pop invents %v", *p)
		model[at] = model[len(model)-1]
		model = model[:len(model)-1]
		pops++
	}
	for s := 0; s < steps; s++ {
		if r.IntN(10) < push || len(model) == 0 {
			p := src[r.IntN(len(src))]
			q.Push(p.First, p.Second)
			model = append(model, p)
		} else {
			take()
		}
		c.Check(q.Len() == len(model) && q.Empty() == (len(model) == 0), "Len %d Empty %v, %d pairs are in", q.Len(), q.Empty(), len(model))
	}
	for len(model) > 0 {
		take()
	}
	c.Check(q.Empty() && q.Top() == nil, "the drained queue is not empty")
	c.Count("queue pops judged", int64(pops))
	c.Eval(pops > 5, c.Name)
	c.Sample("priority queue: %d steps, %d pops each the smallest remaining", steps, pops)
}

// c19list drives a list of pairs against a slice.
func c19list[TV VT, TIX IT](c *Case) {
	r := c.R
	src := genPairs[TV, TIX](r, 2+r.IntN(40))
	var l interfaces.Pairs[TV, TIX]
	var model []*interfaces.Pair[TV, TIX]
	for s := 0; s < 60; s++ {
		what := r.IntN(6)
		switch {
		case what < 2 || len(model) == 0:
			p := src[r.IntN(len(src))]
			model = append(model, &p)
			l.Push(&p)
		case what == 2:
			p, ok := l.Pop().(*interfaces.Pair[TV, TIX])
			c.Check(ok && p == model[len(model)-1], "Pop gives %v, the last of the list is %v", p, model[len(model)-1])
			model = model[:len(model)-1]
		case what == 3:
			i, j := r.IntN(len(model)), r.IntN(len(model))
			l.Swap(i, j)
			model[i], model[j] = model[j], model[i]
		case what == 4:
			i, j := r.IntN(len(model)), r.IntN(len(model))
			c.Check(l.Less(i, j) == lessPair(*model[i], *model[j]) && model[i].Less(model[j]) == l.Less(i, j), "Less of %v and %v is %v", *model[i], *model[j], l.Less(i, j))
		default:
			p := src[r.IntN(len(src))]
			first, second := false, false
			for _, m := range model {
				first = first || m.First == p.First
				second = second || m.Second == p.Second
			}
			c.Check(l.ContainsFirst(p.First) == first && l.ContainsSecond(p.Second) == second, "ContainsFirst(%v) is %v and ContainsSecond(%v) %v", p.First, !first, p.Second, !second)
		}
		c.Check(l.Len() == len(model), "Len is %d of %d pairs", l.Len(), len(model))
		for i := range model {
			c.Check(l[i] == model[i], "pair %d is %v, was %v", i, l[i], model[i])
		}
		if len(model) == 0 {
			c.Check(l.Top() == nil, "Top of an empty list is %v", l.Top())
		} else {
			c.Check(l.Top() == model[0], "Top is %v, the first is %v", l.Top(), model[0])
		}
	}
	c.Count("pair list steps judged", 60)
}

// c19huge goes through the branch for five million elements and more.
func c19huge[TV VT, TIX IT](c *Case) {
	n := In(c.R, 4999999, 5000000, 5000001)
	n = []int{5000000, 5000001, 4999999}[c.I%3]
	pairs := make([]interfaces.Pair[TV, TIX], n)
	ps := make(interfaces.Pairs[TV, TIX], n)
	for i := range ps {
		pairs[i] = interfaces.Pair[TV, TIX]{First: TV(c.R.IntN(n / 3)), Second: TIX(i)}
		ps[i] = &pairs[i]
	}
	want := make([]interfaces.Pair[TV, TIX], n)
	copy(want, pairs)
	sort.Slice(want, func(i, j int) bool { return lessPair(want[i], want[j]) })
	m := In(c.R, 10, 20, 40)
	if c.I%2 == 0 {
		gsort.PartialSortSlice[TV, TIX](ps, 0, m, n)
	} else {
		gsort.PartialSortSlice2[TV, TIX](ps, 0, m, n)
	}
	for i := 0; i < m; i++ {
		c.Check(*ps[i] == want[i], "partial sort of %d: position %d holds %v, expected %v", n, i, *ps[i], want[i])
	}
	seen := make([]bool, n)
	for _, p := range ps {
		c.Check(!seen[p.Second], "partial sort of %d: element %v twice", n, *p)
		seen[p.Second] = true
	}
	c.Count("partial sorts of 5 million judged", 1)
	c.Eval(true, c.Name)
	runtime.GC()
}

// kiss32 and kiss64 are the generators as Marsaglia and Jones state them, in big arithmetic.
type kiss32 struct{ x, y, z, c uint64 }

func newKiss32(seed uint32) *kiss32 {
	if seed == 0 {
		seed = 123456789
	}
	return &kiss32{uint64(seed), 362436000, 521288629, 7654321}
}

func (k *kiss32) next() uint32 {
	const m = 1 << 32
	k.x = (69069*k.x + 12345) % m
	y := k.y
	y = (y ^ (y << 13)) % m
	y = y ^ (y >> 17)
	y = (y ^ (y << 5)) % m
	k.y = y
	hi, lo := bits.Mul64(698769069, k.z)
	lo, carry := bits.Add64(lo, k.c, 0)
	hi += carry
	_ = hi // below 2^64: 698769069 * (2^32-1) + c
	k.z, k.c = lo%m, lo/m
	return uint32((k.x + k.y + k.z) % m)
}

type kiss64 struct{ x, y, z, c uint64 }

func newKiss64(seed uint64) *kiss64 {
	if seed == 0 {
		seed = 1234567890987654321
	}
	return &kiss64{seed, 362436362436362436, 1066149217761810, 123456123456123456}
}

func (k *kiss64) next() uint64 {
	k.z = 6906969069*k.z + 1234567
	y := k.y
	y ^= y << 13
	y ^= y >> 17
	y ^= y << 43
	k.y = y
	// multiply with carry, a = 2^58+1
	hi, lo := bits.Mul64(1<<58+1, k.x)
	lo, carry := bits.Add64(lo, k.c, 0)
	k.x, k.c = lo, hi+carry
	return k.x + k.y + k.z
}

// big does the same step over unbounded integers.
func (k *kiss64) big() uint64 {
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	z := new(big.Int).Mul(u(6906969069), u(k.z))
	z.Add(z, u(1234567)).Mod(z, m)
	y := u(k.y)
	xs := func(s uint, left bool) {
		t := new(big.Int)
		if left {
			t.Lsh(y, s).Mod(t, m)
		} else {
			t.Rsh(y, s)
		}
		y.Xor(y, t)
	}
	xs(13, true)
	xs(17, false)
	xs(43, true)
	t := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 58), big.NewInt(1))
	t.Mul(t, u(k.x)).Add(t, u(k.c))
	k.c = new(big.Int).Rsh(t, 64).Uint64()
	k.x = t.Mod(t, m).Uint64()
	k.y, k.z = y.Uint64(), z.Uint64()
	return k.x + k.y + k.z
}

// rnd is any of the provided generators, widened.
type rnd struct {
	name            string
	next            func() uint64
	side            func() interfaces.Side
	index           func(n uint64) uint64
	setSeed         func(uint64)
	getSeed         func() uint64
	clone           func() rnd
	max             uint64
	restartOnFreshS bool
}

func wrap[TIX IT](name string, r interfaces.Random[TIX]) rnd {
	var m TIX
	m--
	return rnd{name: name, next: func() uint64 { return uint64(r.Next()) }, side: r.NextSide,
		index:   func(n uint64) uint64 { return uint64(r.NextIndex(TIX(n))) },
		setSeed: func(s uint64) { r.SetSeed(TIX(s)) }, getSeed: func() uint64 { return uint64(r.GetSeed()) },
		clone: func() rnd { return wrap(name, r.CloneAndReset()) }, max: uint64(m)}
}

var gens = []struct {
	name string
	mk   func(seed uint64) rnd
}{
	{"Kiss32", func(s uint64) rnd {
		return wrap[uint32]("Kiss32", random.NewKiss32Random(uint32(s)))
	}},
	{"Kiss64", func(s uint64) rnd {
		return wrap[uint64]("Kiss64", random.NewKiss64Random(s))
	}},
	{"GoRandom", func(s uint64) rnd {
		return wrap[uint32]("GoRandom", random.NewGoRandomWithSeed(uint32(s)))
	}},
	{"Kiss32 over uint64", func(s uint64) rnd {
		return wrap[uint64]("Kiss32 over uint64", random.NewKiss32Random(s))
	}},
}

// draw makes one of the three kinds of draws.
func (g *rnd) draw(kind, arg uint64) uint64 {
	switch kind % 3 {
	case 0:
		return g.next()
	case 1:
		return uint64(g.side())
	}
	return g.index(arg)
}

func c20(c *Case) {
	r := c.R
	gn := gens[c.I%len(gens)]
	seed := In(r, uint64(0), 1, 2, 1<<31, 1<<32-1, r.Uint64()>>32, r.Uint64()>>32, r.Uint64()>>40)
	if gn.name == "Kiss64" && r.IntN(2) == 0 {
		seed = r.Uint64()
	}
	c.Note("%s seed %d", gn.name, seed)
	g := gn.mk(seed)
	n := 300 + r.IntN(1500)
	// the sequence
	switch gn.name {
	case "Kiss32":
		ref := newKiss32(uint32(seed))
		for i := 0; i < n; i++ {
			a, b := g.next(), uint64(ref.next())
			c.Check(a == b, "draw %d of KISS32 with seed %d is %d, expected %d", i, seed, a, b)
		}
		c.Count("KISS32 draws judged", int64(n))
	case "Kiss64":
		ref, rb := newKiss64(seed), newKiss64(seed)
		for i := 0; i < n; i++ {
			a, b := g.next(), ref.next()
			c.Check(a == b, "draw %d of KISS64 with seed %d is %d, expected %d", i, seed, a, b)
			if i < 50 {
				infraIf(rb.big() != b, "the two KISS64 references differ")
			}
		}
		c.Count("KISS64 draws judged", int64(n))
	}
	// mixed draws of equal seeds
	type d struct{ kind, arg, val uint64 }
	var log []d
	a, b := gn.mk(seed), gn.mk(seed)
	for i := 0; i < n; i++ {
		k := r.Uint64()
		arg := In(r, uint64(1), 2, 3, 7, 100, 1+r.Uint64()>>44, 1<<31-1, 1<<31, 1<<32-1, 1<<30)
		va, vb := a.draw(k, arg), b.draw(k, arg)
		c.Check(va == vb, "draw %d of two %s with seed %d: %d and %d", i, gn.name, seed, va, vb)
		switch k % 3 {
		case 1:
			c.Check(va <= 1, "side %d", va)
		case 2:
			c.Check(va < arg, "NextIndex(%d) gives %d", arg, va)
			c.Count("index draws judged", 1)
		}
		log = append(log, d{k, arg, va})
	}
	// clones restart, and do not disturb
	cl := a.clone()
	if seed != 0 {
		c.Check(a.getSeed() == seed && cl.getSeed() == seed, "%s: seed %d, GetSeed says %d and %d for the clone", gn.name, seed, a.getSeed(), cl.getSeed())
	}
	cl2 := cl.clone()
	for i, x := range log {
		v := cl.draw(x.kind, x.arg)
		c.Check(v == x.val, "%s seed %d: draw %d of a clone is %d, the stream has %d", gn.name, seed, i, v, x.val)
		k := r.Uint64()
		va, vb := a.draw(k, 10), b.draw(k, 10) // the original goes on, in between
		c.Check(va == vb, "%s: the original is disturbed by its clone", gn.name)
		if r.IntN(50) == 0 {
			cl.clone().next()
			a.clone().setSeed(99)
		}
	}
	for i, x := range log {
		v := cl2.draw(x.kind, x.arg)
		c.Check(v == x.val, "%s seed %d: draw %d of a clone of a clone is %d, the stream has %d", gn.name, seed, i, v, x.val)
	}
	c.Count("clone draws judged", int64(2*len(log)))
	// reseeding
	s2 := 1 + r.Uint64()>>33
	x := gn.mk(seed)
	x.setSeed(s2)
	c.Check(x.getSeed() == s2, "GetSeed after SetSeed(%d) is %d", s2, x.getSeed())
	y := gn.mk(s2)
	y2 := gn.mk(seed).clone()
	y2.setSeed(s2)
	z := x.clone()
	// one that has been used, and a clone of it
	u := gn.mk(r.Uint64() >> 33)
	for i := r.IntN(30); i >= 0; i-- {
		u.draw(r.Uint64(), 5)
	}
	u.setSeed(s2)
	uc := u.clone()
	c.Check(u.getSeed() == s2 && uc.getSeed() == s2, "%s: GetSeed after SetSeed(%d) is %d, %d for a clone", gn.name, s2, u.getSeed(), uc.getSeed())
	differs := false
	o := gn.mk(s2 + 1)
	for i := 0; i < 60; i++ {
		v := y.next()
		w := x.next()
		c.Check(v == w, "%s: draw %d after SetSeed(%d) is %d, a new one gives %d", gn.name, i, s2, w, v)
		w = y2.next()
		c.Check(v == w, "%s: draw %d of a reseeded clone is %d, a new one gives %d", gn.name, i, w, v)
		w = z.next()
		c.Check(v == w, "%s: draw %d of the clone of a reseeded one is %d, a new one gives %d", gn.name, i, w, v)
		w = u.next()
		c.Check(v == w, "%s: draw %d of a used generator after SetSeed(%d) is %d, a new one gives %d", gn.name, i, s2, w, v)
		w = uc.next()
		c.Check(v == w, "%s: draw %d of the clone of a used, reseeded one is %d, a new one gives %d", gn.name, i, w, v)
		differs = differs || o.next() != v
	}
	c.Check(differs, "%s gives the same stream for the seeds %d and %d", gn.name, s2, s2+1)
	c.Count("reseeded draws judged", 300)
	// fairness, six sigma
	f := gn.mk(s2)
	N := 4000
	left, pairs := 0, [4]int{}
	last := 0
	for i := 0; i < N; i++ {
		s := int(f.side())
		left += s
		if i > 0 {
			pairs[2*last+s]++
		}
		last = s
	}
	c.Check(math.Abs(float64(left)-float64(N)/2) <= 6*math.Sqrt(float64(N))/2, "%s seed %d: %d of %d sides are right", gn.name, s2, left, N)
	for i, p := range pairs {
		c.Check(math.Abs(float64(p)-float64(N)/4) <= 6*math.Sqrt(float64(N)*3/16), "%s seed %d: the side pair %d comes %d times of %d", gn.name, s2, i, p, N)
	}
	m := uint64(2 + r.IntN(12))
	cnt := make([]int, m)
	for i := 0; i < N; i++ {
		cnt[f.index(m)]++
	}
	p := 1 / float64(m)
	for i, k := range cnt {
		c.Check(math.Abs(float64(k)-float64(N)*p) <= 6*math.Sqrt(float64(N)*p*(1-p)), "%s seed %d: NextIndex(%d) gives %d %d times of %d", gn.name, s2, m, i, k, N)
	}
	// the same for great numbers: every bit of the index, and the eighth it falls in
	k := 12 + r.IntN(19)
	bits := make([]int, k)
	for i := 0; i < N; i++ {
		v := f.index(1 << k)
		for j := range bits {
			bits[j] += int(v >> j & 1)
		}
	}
	for j, x := range bits {
		c.Check(math.Abs(float64(x)-float64(N)/2) <= 6.5*math.Sqrt(float64(N))/2, "%s seed %d: bit %d of NextIndex(2^%d) is set %d times of %d", gn.name, s2, j, k, x, N)
	}
	m = 5000 + r.Uint64()%(1<<22) // the modulo of 32 bit draws is fair enough
	d2, eighth := 2+uint64(r.IntN(15)), [8]int{}
	rest := make([]int, d2)
	for i := 0; i < N; i++ {
		v := f.index(m)
		eighth[v*8/m]++
		rest[v%d2]++
	}
	for j, x := range eighth {
		c.Check(math.Abs(float64(x)-float64(N)/8) <= 7*math.Sqrt(float64(N)*7/64), "%s seed %d: NextIndex(%d) falls in eighth %d %d times of %d", gn.name, s2, m, j, x, N)
	}
	p = 1 / float64(d2)
	for j, x := range rest {
		c.Check(math.Abs(float64(x)-float64(N)*p) <= 7*math.Sqrt(float64(N)*p*(1-p)), "%s seed %d: NextIndex(%d) has rest %d to %d %d times of %d", gn.name, s2, m, j, d2, x, N)
	}
	// all of a range that needs all 32 bits is reached
	m = 1<<31 + uint64(r.Uint32()>>1)
	quarter := [4]int{}
	for i := 0; i < N/4; i++ {
		v := f.index(m)
		c.Check(v < m, "%s seed %d: NextIndex(%d) gives %d", gn.name, s2, m, v)
		quarter[v*4/m]++
	}
	for j, x := range quarter {
		c.Check(x >= N/4/20, "%s seed %d: NextIndex(%d) falls in quarter %d only %d times of %d", gn.name, s2, m, j, x, N/4)
	}
	c.Count("great index draws judged", int64(2*N+N/4))
	if gn.name == "Kiss64" { // and of one that needs more
		m = uint64(1)<<(33+r.IntN(28)) + r.Uint64()>>32
		quarter = [4]int{}
		for i := 0; i < N/4; i++ {
			v := f.index(m)
			c.Check(v < m, "%s seed %d: NextIndex(%d) gives %d", gn.name, s2, m, v)
			quarter[v/(m/4+1)]++
		}
		for j, x := range quarter {
			c.Check(x >= N/4/20, "%s seed %d: NextIndex(%d) falls in quarter %d only %d times of %d", gn.name, s2, m, j, x, N/4)
		}
		c.Count("index draws beyond 32 bits judged", int64(N/4))
	}
	c.Count("side draws judged", int64(N))
	c.Eval(true, gn.name, seed, s2)
	c.Sample("%s seed %d: %d draws as the reference/twin/clones, fair sides", gn.name, seed, n)
}

func infraIf(bad bool, what string) {
	if bad {
		panic("HARNESS: " + what)
	}
}

// c20long compares millions of draws.
func c20long(c *Case) {
	n := 3_000_000
	if c.I%2 == 0 {
		s := uint32(c.R.Uint64())
		g, ref := random.NewKiss32Random(s), newKiss32(s)
		for i := 0; i < n; i++ {
			if a, b := g.Next(), ref.next(); a != b {
				c.Fail("draw %d of KISS32 with seed %d is %d, expected %d", i, s, a, b)
			}
		}
		c.Count("KISS32 draws judged", int64(n))
	} else {
		s := c.R.Uint64()
		g, ref := random.NewKiss64Random(s), newKiss64(s)
		for i := 0; i < n; i++ {
			if a, b := g.Next(), ref.next(); a != b {
				c.Fail("draw %d of KISS64 with seed %d is %d, expected %d", i, s, a, b)
			}
		}
		c.Count("KISS64 draws judged", int64(n))
	}
	c.Eval(true, c.Name)
}

// boundRand counts draws and gives up beyond a bound.
type boundRand[TIX IT] struct {
	interfaces.Random[TIX]
	n     *int64
	bound int64
}

func (r *boundRand[TIX]) hit() {
	*r.n++
	if *r.n > r.bound {
		panic(fmt.Sprintf("more than %d random draws in one build", r.bound))
	}
}
func (r *boundRand[TIX]) Next() TIX                 { r.hit(); return r.Random.Next() }
func (r *boundRand[TIX]) NextSide() interfaces.Side { r.hit(); return r.Random.NextSide() }
func (r *boundRand[TIX]) NextIndex(n TIX) TIX       { r.hit(); return r.Random.NextIndex(n) }
func (r *boundRand[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return &boundRand[TIX]{r.Random.CloneAndReset(), r.n, r.bound}
}

func c21[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	switch c.R.IntN(6) {
	case 0: // degenerate data
		w.S = genSet[TV, TIX](c.R, In(c.R, 1, 2, w.Cap, w.Cap+1, w.Cap+2, 3*w.Cap, 150), w.S.F, In(c.R, "ident", "allzero", "collinear", "onehot", "dup"), w.S.Lay, k.Dot)
		c.Note("degenerate: %v", w.S)
	case 1: // two identical heaps, or one odd item
		s := genSet[TV, TIX](c.R, 2+c.R.IntN(150), w.S.F, "ident", w.S.Lay, k.Dot)
		odd := s.Ids()[c.R.IntN(s.N())]
		s.V[odd] = genVectors[TV](c.R, 1, w.S.F, "gauss")[0]
		w.S = s
		c.Note("one odd item: %v", w.S)
	}
	M := w.S.NItems()
	mode := c.R.IntN(4)
	sp := w.Spec()
	T := In(c.R, 1, 1, 2, 3, 4, 7, 10, 16)
	W := 1
	switch mode {
	case 0: // automatic number of trees, one worker
		T = -1
		sp.Policy = In[interfaces.AnnoyIndexBuildPolicy](c.R, policy.SingleWorker(), policy.MultiWorker())
		W = 1
	case 1:
		sp.Policy = policy.SingleWorker()
		W = In(c.R, -1, 0, 1, 2, 5, 100)
	default:
		sp.Policy = policy.MultiWorker()
		W = In(c.R, -1, 0, 1, 2, 3, 4, 5, T, T+1, T+5, 3*T+1, 17, 32)
	}
	var draws int64
	bounded := mode <= 1
	trees := T
	if T == -1 {
		trees = 2*M + 2
	}
	n := int64(w.S.N())
	bound := int64(trees) * (2*n + 2) * (3*3000 + 40*n + 2000)
	if bounded {
		sp.Rand = &boundRand[TIX]{newRand(sp.Seed), &draws, bound}
	}
	if c.R.IntN(4) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(3*M))
	}
	c.Note("T=%d W=%d policy %T", T, W, sp.Policy)
	idx := sp.New()
	w.S.AddTo(idx)
	idx.Build(T, W)
	path := c.File("t.ann")
	err := idx.Save(path)
	c.Check(err == nil, "Save: %v", err)
	fo := readForestFile(c, path, w.S)
	if T != -1 {
		if err := fo.Check(c, w.S, T); err != nil {
			c.Fail("T=%d, %d workers: %v", T, W, err)
		}
		c.Count("builds with an exact number of trees", 1)
		if W > T {
			c.Count("builds with more workers than trees", 1)
		}
		if W <= 0 {
			c.Count("builds with a special worker count", 1)
		}
	} else {
		t := fo.trees()
		c.Check(t >= 1, "no tree with T=-1")
		if err := fo.Check(c, w.S, t); err != nil {
			c.Fail("T=-1 (%d trees found): %v", t, err)
		}
		total := fo.N - t // without the root copies
		last := fo.lastTree(t)
		c.Check(total >= 2*M, "T=-1 stopped at %d nodes for %d item slots", total, M)
		c.Check(total-last < 2*M, "T=-1 went on at %d nodes for %d item slots (last tree has %d nodes)", total-last, M, last)
		c.Count("automatic builds judged", 1)
		T = t
	}
	// a query with full budget sees exactly these trees
	q := w.query(c.R)
	ids, ds := idx.GetNnsByVector(q, w.S.N(), T*w.S.N(), idx.CreateContext())
	exact(c, w.S, q, ids, ds, w.S.N())
	if bounded {
		c.Max("draws per tree and item", draws/int64(T)/n)
	}
	idx.Close()
	c.Clean()
	c.Eval(true, c.Name, T, W)
	c.Sample("%v T=%d W=%d: %d trees found, %d nodes, %d draws", w.S, T, W, T, fo.N, draws)
}
