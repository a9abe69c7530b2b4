package main

import (
	"math"
	"sort"

	"github.com/mariotoffia/goannoy/interfaces"
)

// wellFormed checks an answer: lengths, distinct known ids, order, true distances (C02).
func wellFormed[TV VT, TIX IT](c *Case, s *Set[TV, TIX], q []TV, ids []TIX, ds []TV, numReturn int) {
	c.Check(len(ids) == len(ds), "%d ids but %d distances", len(ids), len(ds))
	c.Check(len(ids) <= numReturn, "%d results for numReturn %d", len(ids), numReturn)
	seen := map[TIX]bool{}
	for i, id := range ids {
		v, ok := s.V[id]
		c.Check(ok, "answer holds id %d, which was never added (%v)", id, ids)
		c.Check(!seen[id], "id %d twice in the answer %v", id, ids)
		seen[id] = true
		d := float64(ds[i])
		c.Check(!math.IsNaN(d) && !math.IsInf(d, 0), "distance %v of id %d", d, id)
		if i > 0 {
			if s.Dot {
				c.Check(ds[i] <= ds[i-1], "not nearest first: inner products %v then %v at %d", ds[i-1], ds[i], i)
			} else {
				c.Check(ds[i] >= ds[i-1], "not nearest first: distances %v then %v at %d", ds[i-1], ds[i], i)
			}
		}
		lo, hi := refDist(s.Dot, q, v)
		c.Check(d >= lo && d <= hi, "id %d reported at %v, the metric says [%v,%v] (query %v item %v)", id, d, lo, hi, q, v)
	}
	c.Count("results judged", int64(len(ids)))
}

// refOrder gives all items by reference key.
type refItem[TIX IT] struct {
	id       TIX
	key, tol float64
}

func refOrder[TV VT, TIX IT](s *Set[TV, TIX], q []TV) []refItem[TIX] {
	out := make([]refItem[TIX], 0, s.N())
	for _, id := range s.Ids() {
		k, t := refKey(s.Dot, q, s.V[id])
		out = append(out, refItem[TIX]{id, k, t})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// exact checks that the answer is the exact nearest neighbours (C01).
func exact[TV VT, TIX IT](c *Case, s *Set[TV, TIX], q []TV, ids []TIX, ds []TV, numReturn int) {
	want := min(numReturn, s.N())
	c.Check(len(ids) == want, "%d results, expected %d (numReturn=%d, %d items) under a full budget", len(ids), want, numReturn, s.N())
	ref := refOrder(s, q)
	tolMax := 0.0
	for _, x := range ref {
		tolMax = math.Max(tolMax, x.tol)
	}
	for i, id := range ids {
		k, t := refKey(s.Dot, q, s.V[id])
		if math.Abs(k-ref[i].key) > t+tolMax {
			c.Fail("rank %d holds id %d with key %v, the true %d-th nearest is id %d with key %v (tol %v)", i, id, k, i, ref[i].id, ref[i].key, t+tolMax)
		}
	}
}

func sameSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bits compares vectors bit for bit.
func sameBits[TV VT](a, b []TV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(float64(a[i])) != math.Float64bits(float64(b[i])) {
			return false
		}
	}
	return true
}

// Query is a recorded question.
type Query[TV VT, TIX IT] struct {
	ByItem    bool
	Item      TIX
	V         []TV
	NumReturn int
	Budget    int
}

// Ans is its answer.
type Ans[TV VT, TIX IT] struct {
	Ids []TIX
	Ds  []TV
}

func (q Query[TV, TIX]) Ask(idx interfaces.AnnoyIndex[TV, TIX], ctx interfaces.AnnoyIndexContext[TV, TIX]) Ans[TV, TIX] {
	if ctx == nil {
		ctx = idx.CreateContext()
	}
	var a Ans[TV, TIX]
	if q.ByItem {
		a.Ids, a.Ds = idx.GetNnsByItem(q.Item, q.NumReturn, q.Budget, ctx)
	} else {
		a.Ids, a.Ds = idx.GetNnsByVector(q.V, q.NumReturn, q.Budget, ctx)
	}
	return a
}

func (a Ans[TV, TIX]) Equal(b Ans[TV, TIX]) bool {
	return sameSlice(a.Ids, b.Ids) && sameBits(a.Ds, b.Ds)
}

// queries makes a batch of mixed questions.
func (w *world[TV, TIX]) queries(c *Case, n int) []Query[TV, TIX] {
	out := make([]Query[TV, TIX], n)
	N := w.S.N()
	for i := range out {
		q := Query[TV, TIX]{NumReturn: In(c.R, 1, 2, 5, 10, N, N+3, 1+c.R.IntN(N), 1+c.R.IntN(N), In(c.R, math.MaxInt, math.MaxInt32, N+1, 2*N))}
		q.Budget = In(c.R, -1, -1, 1, 2, 5, c.R.IntN(N*w.T+1), N*w.T, N*w.T+7, 0, 1+c.R.IntN(20))
		if c.R.IntN(3) == 0 {
			q.ByItem = true
			q.Item = w.S.Ids()[c.R.IntN(N)]
		} else {
			q.V = w.query(c.R)
		}
		out[i] = q
	}
	return out
}

func (w *world[TV, TIX]) vec(q Query[TV, TIX]) []TV {
	if q.ByItem {
		return w.S.V[q.Item]
	}
	return q.V
}

func askAll[TV VT, TIX IT](idx interfaces.AnnoyIndex[TV, TIX], qs []Query[TV, TIX]) []Ans[TV, TIX] {
	out := make([]Ans[TV, TIX], len(qs))
	ctx := idx.CreateContext()
	for i, q := range qs {
		out[i] = q.Ask(idx, ctx)
	}
	return out
}

func sameAnswers[TV VT, TIX IT](c *Case, what string, qs []Query[TV, TIX], a, b []Ans[TV, TIX]) {
	for i := range qs {
		if !a[i].Equal(b[i]) {
			c.Fail("%s: query %+v answered %v, before it was %v", what, qs[i], b[i], a[i])
		}
	}
	c.Count("answers compared", int64(len(qs)))
}
