package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"sort"
	"unsafe"
)

// Forest is a saved index read by our own reader: the trees are found from the end of the file,
// nothing of the index implementation is used except the node accessors of its metric.
type Forest[TV VT, TIX IT] struct {
	F       int
	Dot     bool
	Size    int // node size
	N       int // nodes in the file
	M       int // items including gaps
	Cap     int // bucket capacity
	NTrees  int
	Copies  []int // the root copies at the end
	Roots   []int // the original of each copy
	data    []byte
	nd      func(i int) fnode[TV, TIX]
	present []TIX // added items, ascending
}

// fnode is one node as read.
type fnode[TV VT, TIX IT] struct {
	Desc int
	Vec  []TV
	Kids []TIX // two raw children
	raw  []byte
	kid  func(k int) TIX
}

func align8(n int) []byte {
	w := make([]uint64, n/8+16)
	return unsafe.Slice((*byte)(unsafe.Pointer(&w[0])), n)
}

// readForest parses the bytes of a saved index; s gives the added items.
func readForest[TV VT, TIX IT](b []byte, s *Set[TV, TIX]) (*Forest[TV, TIX], error) {
	d := newDist[TV, TIX](s.F, s.Dot)
	fo := &Forest[TV, TIX]{F: s.F, Dot: s.Dot, Size: int(d.NodeSize()), Cap: capacity[TV, TIX](s.F, s.Dot)}
	if len(b) == 0 || len(b)%fo.Size != 0 {
		return nil, fmt.Errorf("file of %d bytes is not made of %d byte nodes", len(b), fo.Size)
	}
	fo.N = len(b) / fo.Size
	fo.data = align8(len(b) + 64)[:len(b)]
	copy(fo.data, b)
	base := unsafe.Pointer(&fo.data[0])
	fo.nd = func(i int) fnode[TV, TIX] {
		n := d.MapNodeToMemory(base, TIX(i))
		off := uintptr(unsafe.Pointer(n.GetRawChildren())) - uintptr(base) - uintptr(i)*uintptr(fo.Size)
		w := int(unsafe.Sizeof(TIX(0)))
		at := i*fo.Size + int(off)
		return fnode[TV, TIX]{
			Desc: int(n.GetNumberOfDescendants()),
			Vec:  n.GetVector(TIX(s.F)),
			raw:  fo.data[i*fo.Size : (i+1)*fo.Size],
			kid: func(k int) TIX {
				p := at + k*w
				if k < 0 || p+w > (i+1)*fo.Size {
					panic(fmt.Sprintf("child %d of node %d is outside the node", k, i))
				}
				if w == 4 {
					return TIX(binary.LittleEndian.Uint32(fo.data[p:]))
				}
				return TIX(binary.LittleEndian.Uint64(fo.data[p:]))
			},
		}
	}
	fo.M = s.NItems()
	fo.present = s.Ids()
	if fo.N < fo.M+2 {
		return nil, fmt.Errorf("only %d nodes for %d item slots", fo.N, fo.M)
	}
	return fo, nil
}

func readForestFile[TV VT, TIX IT](c *Case, path string, s *Set[TV, TIX]) *Forest[TV, TIX] {
	b, err := os.ReadFile(path)
	c.Check(err == nil, "reading back %s: %v", path, err)
	fo, err := readForest(b, s)
	c.Check(err == nil, "saved file: %v", err)
	return fo
}

// Check verifies the whole file against the items and the number of trees. A nil error means
// every tree partitions the items, counts and sides are right and the root copies are faithful.
// sides: verify the side of every item under every split.
func (fo *Forest[TV, TIX]) Check(c *Case, s *Set[TV, TIX], trees int) error {
	m, N := fo.M, fo.N
	// items
	for i := 0; i < m; i++ {
		n := fo.nd(i)
		v, ok := s.V[TIX(i)]
		if !ok {
			if n.Desc != 0 {
				return fmt.Errorf("gap %d has %d descendants", i, n.Desc)
			}
			for _, x := range n.raw {
				if x != 0 && !fo.Dot { // the dot metric keeps its extra component in gaps too
					return fmt.Errorf("gap %d is not empty: % x", i, n.raw)
				}
			}
			for _, x := range n.Vec {
				if x != 0 {
					return fmt.Errorf("gap %d has the vector %v", i, n.Vec)
				}
			}
			continue
		}
		if n.Desc != 1 {
			return fmt.Errorf("item %d has %d descendants", i, n.Desc)
		}
		if !sameBits(n.Vec, v) {
			return fmt.Errorf("item %d is stored as %v, added was %v", i, n.Vec, v)
		}
	}
	if trees < 1 {
		return fmt.Errorf("bad tree count %d", trees)
	}
	// the last `trees` nodes are copies of roots
	fo.NTrees = trees
	if m+2*trees > N {
		return fmt.Errorf("%d nodes cannot hold %d items and %d trees with root copies", N, m, trees)
	}
	// walk each copied root
	own := make([]int8, N) // 1: visited inner node
	usedRoot := map[int]bool{}
	for t := 0; t < trees; t++ {
		ci := N - trees + t
		cp := fo.nd(ci)
		if cp.Desc != m {
			return fmt.Errorf("root copy %d has %d descendants, expected %d", ci, cp.Desc, m)
		}
		fo.Copies = append(fo.Copies, ci)
		// its original: a not yet used node with the same bytes
		orig := -1
		for j := m; j < N-trees; j++ {
			if !usedRoot[j] && own[j] == 0 && string(fo.nd(j).raw) == string(cp.raw) {
				orig = j
				break
			}
		}
		if orig < 0 {
			return fmt.Errorf("root copy %d (tree %d) is not a copy of any node", ci, t)
		}
		usedRoot[orig] = true
		fo.Roots = append(fo.Roots, orig)
		seen := make(map[TIX]bool, len(s.V))
		if err := fo.walkTree(c, s, ci, own, seen); err != nil {
			return fmt.Errorf("tree %d: %w", t, err)
		}
		if len(seen) != len(s.V) {
			var miss []TIX
			for _, id := range s.Ids() {
				if !seen[id] {
					miss = append(miss, id)
				}
			}
			return fmt.Errorf("tree %d lacks %d of %d items: %v", t, len(miss), len(s.V), miss[:min(20, len(miss))])
		}
	}
	// every node is used exactly once
	for j := m; j < N-trees; j++ {
		if own[j] == 0 && !usedRoot[j] {
			return fmt.Errorf("node %d belongs to no tree", j)
		}
		if own[j] != 0 && usedRoot[j] {
			return fmt.Errorf("node %d is a root and an inner node", j)
		}
	}
	return nil
}

// rootKind: the root of a tree is a bucket when all its items fit.
func (fo *Forest[TV, TIX]) rootIsBucket() bool {
	return fo.M <= fo.Cap || len(fo.present) == 1
}

func (fo *Forest[TV, TIX]) walkTree(c *Case, s *Set[TV, TIX], root int, own []int8, seen map[TIX]bool) error {
	if fo.rootIsBucket() {
		n := fo.nd(root)
		// a root stands for all ids, but lists the added ones
		for k := 0; k < len(fo.present); k++ {
			id := n.kid(k)
			if seen[id] {
				return fmt.Errorf("item %d twice in the root bucket", id)
			}
			if _, ok := s.V[id]; !ok {
				return fmt.Errorf("root bucket lists %d, not an item", id)
			}
			seen[id] = true
		}
		c.Count("root buckets", 1)
		return nil
	}
	_, err := fo.walk(c, s, root, true, own, seen, 0)
	return err
}

func (fo *Forest[TV, TIX]) walk(c *Case, s *Set[TV, TIX], i int, isRoot bool, own []int8, seen map[TIX]bool, depth int) ([]TIX, error) {
	if depth > 100000 {
		return nil, fmt.Errorf("endless path")
	}
	if i < fo.M {
		id := TIX(i)
		if _, ok := s.V[id]; !ok {
			return nil, fmt.Errorf("gap %d is in the tree", i)
		}
		if seen[id] {
			return nil, fmt.Errorf("item %d is in the tree twice", i)
		}
		seen[id] = true
		return []TIX{id}, nil
	}
	if i >= fo.N {
		return nil, fmt.Errorf("child %d is outside the file of %d nodes", i, fo.N)
	}
	if !isRoot {
		if i >= fo.N-fo.NTrees {
			return nil, fmt.Errorf("child %d is a root copy", i)
		}
		if own[i] != 0 {
			return nil, fmt.Errorf("node %d has two parents", i)
		}
		own[i] = 1
	}
	n := fo.nd(i)
	if !isRoot && n.Desc <= fo.Cap {
		if n.Desc < 2 {
			return nil, fmt.Errorf("bucket %d has %d items", i, n.Desc)
		}
		var out []TIX
		for k := 0; k < n.Desc; k++ {
			id := n.kid(k)
			if _, ok := s.V[id]; !ok {
				return nil, fmt.Errorf("bucket %d lists %d, not an item", i, id)
			}
			if seen[id] {
				return nil, fmt.Errorf("item %d is in the tree twice", id)
			}
			seen[id] = true
			out = append(out, id)
		}
		c.Count("buckets", 1)
		return out, nil
	}
	var kids [2][]TIX
	for sd := 0; sd < 2; sd++ {
		k := n.kid(sd)
		if uint64(k) >= uint64(fo.N) {
			return nil, fmt.Errorf("child %d of node %d is outside the file of %d nodes", k, i, fo.N)
		}
		x, err := fo.walk(c, s, int(k), false, own, seen, depth+1)
		if err != nil {
			return nil, err
		}
		kids[sd] = x
	}
	tot := len(kids[0]) + len(kids[1])
	want := n.Desc
	if isRoot {
		want = fo.M
		if n.Desc != fo.M {
			return nil, fmt.Errorf("root %d has %d descendants, not %d", i, n.Desc, fo.M)
		}
	} else if tot != want {
		return nil, fmt.Errorf("node %d claims %d descendants, %d are below it", i, want, tot)
	}
	if tot >= 3 { // of two or three items one side always has more than half
		f := float64(max(len(kids[0]), len(kids[1]))) / float64(tot)
		if f > 0.99+1e-9 {
			return nil, fmt.Errorf("split %d puts %d and %d items on its sides", i, len(kids[0]), len(kids[1]))
		}
	} else if len(kids[0]) == 0 || len(kids[1]) == 0 {
		return nil, fmt.Errorf("split %d has an empty side", i)
	}
	zero := true
	norm := 0.0
	for _, x := range n.Vec {
		if x != 0 {
			zero = false
		}
		norm += float64(x) * float64(x)
	}
	if zero {
		c.Count("random splits", 1)
	} else {
		norm = math.Sqrt(norm)
		for sd := 0; sd < 2; sd++ {
			for _, id := range kids[sd] {
				v := s.V[id]
				mg, _, nv := dot64(n.Vec, v)
				tol := 2 * float64(fo.F+16) * (eps[TV]() + 0x1p-53) * norm * math.Sqrt(nv)
				if (sd == 1 && mg < -tol) || (sd == 0 && mg > tol) {
					return nil, fmt.Errorf("item %d is on side %d of node %d but its margin is %v", id, sd, i, mg)
				}
				if math.Abs(mg) > tol {
					c.Count("item sides judged", 1)
				}
			}
		}
		c.Count("plane splits", 1)
	}
	c.Max("depth", int64(depth))
	return append(kids[0], kids[1]...), nil
}

// Hashes gives the numbering-free hash of every tree, sorted.
func (fo *Forest[TV, TIX]) Hashes() []uint64 {
	var out []uint64
	for _, ci := range fo.Copies {
		out = append(out, fo.hash(ci, true))
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (fo *Forest[TV, TIX]) hash(i int, isRoot bool) uint64 {
	h := fnv.New64a()
	if i < fo.M {
		fmt.Fprintf(h, "item%d", i)
		return h.Sum64()
	}
	n := fo.nd(i)
	cnt := -1
	if isRoot && fo.rootIsBucket() {
		cnt = len(fo.present)
	} else if !isRoot && n.Desc <= fo.Cap {
		cnt = n.Desc
	}
	if cnt >= 0 {
		var ids []uint64
		for k := 0; k < cnt; k++ {
			ids = append(ids, uint64(n.kid(k)))
		}
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		fmt.Fprintf(h, "bucket%v", ids)
		return h.Sum64()
	}
	fmt.Fprintf(h, "split%x/%x", fo.hash(int(n.kid(0)), false), fo.hash(int(n.kid(1)), false))
	for _, x := range n.Vec {
		fmt.Fprintf(h, "%x,", math.Float64bits(float64(x)))
	}
	return h.Sum64()
}

// unit is a bucket or item as the search meets it: its candidates and the smallest signed margin
// on its path.
type unit[TIX IT] struct {
	ids  []TIX
	cnt  int // candidates counted against the budget
	prio float64
	tol  float64
	tree int
}

// Units lists the units of the forest for a query.
func (fo *Forest[TV, TIX]) Units(q []TV) []unit[TIX] {
	var out []unit[TIX]
	_, _, qn := dot64(q, q)
	qn = math.Sqrt(qn)
	var rec func(t, i int, isRoot bool, p, tol float64)
	rec = func(t, i int, isRoot bool, p, tol float64) {
		if i < fo.M {
			out = append(out, unit[TIX]{[]TIX{TIX(i)}, 1, p, tol, t})
			return
		}
		n := fo.nd(i)
		cnt := -1
		if isRoot && fo.rootIsBucket() {
			cnt = len(fo.present)
		} else if !isRoot && n.Desc <= fo.Cap {
			cnt = n.Desc
		}
		if cnt >= 0 {
			u := unit[TIX]{nil, cnt, p, tol, t}
			for k := 0; k < cnt; k++ {
				u.ids = append(u.ids, n.kid(k))
			}
			out = append(out, u)
			return
		}
		mg, nn, _ := dot64(n.Vec, q)
		mt := 2 * float64(fo.F+16) * (eps[TV]() + 0x1p-53) * math.Sqrt(nn) * qn
		rec(t, int(n.kid(1)), false, math.Min(p, mg), math.Max(tol, mt))
		rec(t, int(n.kid(0)), false, math.Min(p, -mg), math.Max(tol, mt))
	}
	for t, ci := range fo.Copies {
		rec(t, ci, true, math.Inf(1), 0)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].prio > out[j].prio })
	return out
}

// trees finds the number of trees of a single worker's file.
func (fo *Forest[TV, TIX]) trees() int {
	if fo.rootIsBucket() {
		return (fo.N - fo.M) / 2
	}
	run := 0
	for i := fo.N - 1; i >= fo.M && fo.nd(i).Desc == fo.M; i-- {
		run++
	}
	if run == fo.N-fo.M { // every tree is a single split
		return run / 2
	}
	return run - 1
}

// lastTree is the number of nodes of the last tree of a single worker, after Check.
func (fo *Forest[TV, TIX]) lastTree(t int) int {
	rs := append([]int(nil), fo.Roots...)
	sort.Ints(rs)
	if t == 1 {
		return rs[0] - fo.M + 1
	}
	return rs[t-1] - rs[t-2]
}
