package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
)

func init() {
	reg := func(id string, n int, f func(k Combo) caseFn) {
		checks[id] = func(e *Env) {
			e.Loop(n, func(c *Case) {
				k := ComboOf(c.I)
				f(k)(c, k)
			})
		}
	}
	reg("C13", 1600, func(k Combo) caseFn {
		return pick(k, c13[float32, uint32], c13[float32, uint64], c13[float64, uint32], c13[float64, uint64])
	})
	reg("C14", 1600, func(k Combo) caseFn {
		return pick(k, c14[float32, uint32], c14[float32, uint64], c14[float64, uint32], c14[float64, uint64])
	})
	reg("C15", 1600, func(k Combo) caseFn {
		return pick(k, c15[float32, uint32], c15[float32, uint64], c15[float64, uint32], c15[float64, uint64])
	})
	reg("C16", 1600, func(k Combo) caseFn {
		return pick(k, c16[float32, uint32], c16[float32, uint64], c16[float64, uint32], c16[float64, uint64])
	})
	helpers["nobody"] = helperNobody
	helpers["filer"] = helperFiler
}

var lifeStates = []string{"empty", "filled", "built", "saved", "loaded", "closed", "reopened"}

// reach brings a new index into a state. It is empty of items in "empty" and "closed".
func (w *world[TV, TIX]) reach(c *Case, sp Spec[TV, TIX], state, path string) interfaces.AnnoyIndex[TV, TIX] {
	idx := sp.New()
	ok := func(err error) { c.Check(err == nil, "reaching state %s: %v", state, err) }
	switch state {
	case "empty":
	case "filled":
		w.S.AddTo(idx)
	case "built":
		w.S.AddTo(idx)
		idx.Build(w.T, 1)
	case "saved":
		w.S.AddTo(idx)
		idx.Build(w.T, 1)
		ok(idx.Save(path))
	case "loaded":
		x := w.Build(w.Spec())
		ok(x.Save(path))
		ok(x.Close())
		ok(idx.Load(path))
	case "closed":
		w.S.AddTo(idx)
		idx.Build(w.T, 1)
		if c.R.IntN(2) == 0 {
			ok(idx.Save(path))
		}
		ok(idx.Close())
	case "reopened":
		w.S.AddTo(idx)
		idx.Build(w.T, 1)
		ok(idx.Save(path))
		ok(idx.Close())
		ok(idx.Load(path))
	default:
		panic(state)
	}
	return idx
}

func (w *world[TV, TIX]) anySpec(c *Case) Spec[TV, TIX] {
	sp := w.Spec()
	if c.R.IntN(2) == 0 {
		sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	}
	if c.R.IntN(3) == 0 {
		sp.Policy = policy.MultiWorker()
	}
	if c.R.IntN(4) == 0 {
		sp.Hint = TIX(1 + c.R.IntN(300))
	}
	return sp
}

func c13[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 120 {
		w.S = genSet[TV, TIX](c.R, 1+c.R.IntN(120), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	sp := w.anySpec(c)
	f := w.S.F
	state := lifeStates[(c.I/8)%len(lifeStates)]
	path, tpath := c.File("s.ann"), c.File("t.ann")
	idx := w.reach(c, sp, state, path)
	c.Note("state %s", state)
	has := state != "empty" && state != "closed"
	built := has && state != "filled"
	var fileBefore []byte
	if state == "saved" || state == "loaded" || state == "reopened" {
		fileBefore, _ = os.ReadFile(path)
	}
	var snap *snapshot[TV, TIX]
	if has {
		snap = w.snap(c, idx, 6)
	}
	nItems := TIX(0)
	if has {
		nItems = w.S.Max + 1
	}
	wrong := func() []TV {
		n := In(c.R, 0, f-1, f+1, f+1, f+3, 2*f, f+1000, 10*f+7)
		if n < 0 || n == f {
			n = f + 2
		}
		if n == 0 && c.R.IntN(2) == 0 {
			return nil
		}
		v := make([]TV, n)
		for i := range v {
			v[i] = TV(c.R.NormFloat64())
		}
		return v
	}
	outside := func() TIX {
		var big TIX
		big--
		return In(c.R, nItems, nItems+1, nItems+TIX(c.R.IntN(100)), big, big-1, big/2, TIX(1)<<31)
	}
	inside := func() TIX {
		if nItems == 0 {
			return 0
		}
		return TIX(c.R.IntN(int(nItems)))
	}
	good := func() []TV { return genVectors[TV](c.R, 1, f, "gauss")[0] }
	type abuse struct {
		name string
		when bool
		f    func()
	}
	var ctx interfaces.AnnoyIndexContext[TV, TIX] = idx.CreateContext()
	list := []abuse{
		{"AddItem on a built index", built, func() { idx.AddItem(In(c.R, inside(), nItems, nItems+5), good()) }},
		{"Build on a built index", built, func() { idx.Build(1+c.R.IntN(5), In(c.R, 0, 1, 2, -1)) }},
		{"AddItem with a wrong length", true, func() { idx.AddItem(In(c.R, inside(), nItems, nItems+7), wrong()) }},
		{"query of a wrong length", true, func() {
			idx.GetNnsByVector(wrong(), 1+c.R.IntN(5), In(c.R, -1, 0, 1, 100), ctx)
		}},
		{"GetItem outside", true, func() { idx.GetItem(outside()) }},
		{"GetDistance outside (first)", true, func() { idx.GetDistance(outside(), inside()) }},
		{"GetDistance outside (second)", has, func() { idx.GetDistance(inside(), outside()) }},
		{"GetNnsByItem outside", true, func() { idx.GetNnsByItem(outside(), 1+c.R.IntN(5), In(c.R, -1, 0, 1, 100), ctx) }},
	}
	// ids whose node can't be addressed
	{
		var big TIX
		big--
		size := uint64(newDist[TV, TIX](f, k.Dot).NodeSize())
		ids := []TIX{big}
		if unsafe.Sizeof(big) == 8 {
			for sh := 49; sh < 64; sh++ {
				// multiples of 2^64 bytes and their neighbours, and beyond the address space
				ids = append(ids, TIX(uint64(1)<<sh), TIX(uint64(1)<<sh)+nItems, TIX(uint64(1)<<sh)-1)
			}
			q := math.MaxUint64/size + 1
			ids = append(ids, big-1, big/2, TIX(q), TIX(q)+nItems, TIX(q)-1, TIX(math.MaxInt64/size), TIX(math.MaxInt64/size)+1)
		}
		id := ids[c.R.IntN(len(ids))]
		if c.R.IntN(4) == 0 {
			id = big
		}
		list = append(list, abuse{"AddItem of an id that can't be addressed", !built, func() { idx.AddItem(id, good()) }})
	}
	n := 0
	for round := 0; round < 3; round++ {
		for _, p := range c.R.Perm(len(list)) {
			a := list[p]
			if !a.when {
				continue
			}
			did, val := Panics(a.f)
			c.Check(did, "%s in state %s is not refused", a.name, state)
			c.Count("refused: "+a.name, 1)
			_ = val
			n++
			c.Eval(true, state, a.name, round, c.Name)
		}
	}
	if !built {
		dir := c.File("d")
		os.Mkdir(dir, 0o755)
		exists := c.R.IntN(2) == 0
		p := filepath.Join(dir, "new.ann")
		if exists {
			os.WriteFile(p, []byte("precious"), 0o644)
		}
		err := idx.Save(p)
		c.Check(err != nil, "Save in state %s gives no error", state)
		b, rerr := os.ReadFile(p)
		if exists {
			c.Check(rerr == nil && string(b) == "precious", "the refused Save changed the existing file to %d bytes (%v)", len(b), rerr)
		} else {
			c.Check(os.IsNotExist(rerr), "the refused Save created a file")
		}
		es, _ := os.ReadDir(dir)
		want := 0
		if exists {
			want = 1
		}
		c.Check(len(es) == want, "the refused Save left %v", es)
		c.Count("refused: Save of an unbuilt index", 1)
	}
	// nothing changed
	if snap != nil {
		snap.compare(c, "after the refused calls in state "+state, idx)
	}
	if fileBefore != nil {
		b, _ := os.ReadFile(path)
		c.Check(bytes.Equal(b, fileBefore), "the refused calls changed the file")
	}
	// and the life goes on as without them
	twin := w.reach(c, sp, state, tpath)
	if !has {
		w.S.AddTo(idx)
		w.S.AddTo(twin)
	}
	if !built {
		idx.Build(w.T, 1)
		twin.Build(w.T, 1)
	}
	e1, e2 := idx.Save(path), twin.Save(tpath)
	c.Check(e1 == nil && e2 == nil, "Save: %v %v", e1, e2)
	b1, _ := os.ReadFile(path)
	b2, _ := os.ReadFile(tpath)
	c.Check(bytes.Equal(b1, b2), "state %s: after refused calls the saved index differs from that without them", state)
	idx.Close()
	twin.Close()
	c.Clean()
	c.Count("state "+state, 1)
	c.Sample("%v state %s: %d refused calls, index unchanged and its later file equal to a twin's", w.S, state, n)
}

// fdsAndMaps lists descriptors and mappings that point below dir.
func fdsAndMaps(dir string) (fds, maps int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, dir+"/") {
			fds++
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, dir+"/") {
			maps++
		}
	}
	return
}

func openFds() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

func c14[TV VT, TIX IT](c *Case, k Combo) {
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 120 {
		w.S = genSet[TV, TIX](c.R, 1+c.R.IntN(120), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	c.Dir()
	runtime.GC() // no finalizer shall do the work
	sp := w.anySpec(c)
	var mv *movingAlloc
	if c.R.IntN(2) == 0 {
		defer debugFault()()
		mv = &movingAlloc{flushEnd: true}
		defer mv.release()
		sp.Alloc = mv
	}
	if c.I%20 == 13 {
		c14cycles(c, w, sp)
		return
	}
	good := c.File("good.ann")
	ref := w.Build(w.Spec())
	qs := w.queries(c, 6)
	want := askAll(ref, qs)
	c.Check(ref.Save(good) == nil, "Save failed")
	refB, _ := os.ReadFile(good)
	c.Check(ref.Close() == nil, "Close failed")

	state := lifeStates[(c.I/8)%len(lifeStates)]
	idx := w.reach(c, sp, state, c.File("s.ann"))
	c.Note("state %s", state)
	closeIt := func() {
		n := 1 + c.R.IntN(3)
		for i := 0; i < n; i++ {
			err := idx.Close()
			c.Check(err == nil, "Close #%d in state %s: %v", i+1, state, err)
		}
		f, m := fdsAndMaps(c.Dir())
		c.Check(f == 0 && m == 0, "after Close in state %s: %d descriptors and %d mappings remain", state, f, m)
		if mv != nil {
			c.Check(mv.cur == nil, "after Close in state %s the build memory is not returned", state)
			c.Count("build memory returned", 1)
		}
		// finds nothing
		for _, b := range []int{-1, 0, 1, 1000} {
			ids, ds := idx.GetNnsByVector(w.query(c.R), 1+c.R.IntN(10), b, idx.CreateContext())
			c.Check(len(ids) == 0 && len(ds) == 0, "closed index answers %v", ids)
		}
		p := c.File("keep.ann")
		os.WriteFile(p, []byte("precious"), 0o644)
		c.Check(idx.Save(p) != nil, "Save of a closed index gives no error")
		b, _ := os.ReadFile(p)
		c.Check(string(b) == "precious", "Save of a closed index changed a file to %d bytes", len(b))
		os.Remove(p)
		c.Check(idx.Save(p) != nil, "Save of a closed index gives no error")
		_, err := os.Stat(p)
		c.Check(os.IsNotExist(err), "Save of a closed index created a file")
		c.Check(idx.VectorLength() == TIX(w.S.F), "vector length of a closed index")
		c.Count("closes judged", 1)
	}
	for life := 0; life < 3; life++ {
		closeIt()
		how := In(c.R, "rebuild", "load", "fill", "load bad")
		switch how {
		case "rebuild":
			w.S.AddTo(idx)
			idx.Build(w.T, 1)
			sameAnswers(c, "rebuilt after Close", qs, want, askAll(idx, qs))
			p := c.File("again.ann")
			c.Check(idx.Save(p) == nil, "Save failed")
			b, _ := os.ReadFile(p)
			c.Check(bytes.Equal(b, refB), "state %s: the index rebuilt after Close differs from a new one", state)
			sameAnswers(c, "rebuilt after Close and saved", qs, want, askAll(idx, qs))
		case "load":
			err := idx.Load(good)
			c.Check(err == nil, "Load after Close: %v", err)
			sameAnswers(c, "loaded after Close", qs, want, askAll(idx, qs))
			if did, _ := Panics(func() { idx.AddItem(0, make([]TV, w.S.F)) }); !did {
				c.Fail("AddItem on a loaded index is not refused")
			}
		case "fill":
			o := genSet[TV, TIX](c.R, 1+c.R.IntN(40), w.S.F, "gauss", "dense", k.Dot)
			o.AddTo(idx)
			if c.R.IntN(2) == 0 {
				idx.Build(2, 1)
				q := w.query(c.R)
				ids, ds := idx.GetNnsByVector(q, 3, 1<<30, idx.CreateContext())
				exact(c, o, q, ids, ds, 3)
			}
		case "load bad":
			c.Check(idx.Load(c.File("none.ann")) != nil, "Load of a missing file gives no error")
		}
		c.Note("then %s", how)
		state += " " + how
		c.Eval(true, state, sp.Policy != nil, sp.IdxAlloc != nil, k)
	}
	closeIt()
	c.Clean()
	c.Sample("%v: %s, closed in between", w.S, state)
}

// c14cycles looks for leaks over many cycles.
func c14cycles[TV VT, TIX IT](c *Case, w *world[TV, TIX], sp Spec[TV, TIX]) {
	a, b := c.File("a.ann"), c.File("b.ann")
	for _, p := range []string{a, b} {
		x := w.Build(w.Spec())
		c.Check(x.Save(p) == nil, "Save failed")
		x.Close()
	}
	idx := sp.New()
	fd0 := openFds()
	g0 := runtime.NumGoroutine()
	kind := c.R.IntN(4)
	for i := 0; i < 120; i++ {
		switch kind {
		case 0: // load, close
			c.Check(idx.Load(a) == nil, "Load failed")
			c.Check(idx.Close() == nil, "Close failed")
		case 1: // load over load
			c.Check(idx.Load([]string{a, b}[i%2]) == nil, "Load failed")
		case 2: // save over and over
			if i == 0 {
				w.S.AddTo(idx)
				idx.Build(w.T, 1)
			}
			c.Check(idx.Save([]string{a, b}[i%2]) == nil, "Save failed")
		case 3: // everything
			w.S.AddTo(idx)
			idx.Build(w.T, 1)
			c.Check(idx.Save(a) == nil, "Save failed")
			c.Check(idx.Load(b) == nil, "Load failed")
			idx.Load(c.File("missing"))
			idx.Close()
		}
		f, m := fdsAndMaps(c.Dir())
		c.Check(f <= 1 && m <= 1, "cycle %d of kind %d: %d descriptors and %d mappings of index files", i, kind, f, m)
	}
	c.Check(idx.Close() == nil, "Close failed")
	f, m := fdsAndMaps(c.Dir())
	c.Check(f == 0 && m == 0, "after the cycles of kind %d: %d descriptors and %d mappings remain", kind, f, m)
	c.Check(openFds() <= fd0, "%d descriptors before the cycles of kind %d, %d after", fd0, kind, openFds())
	c.Check(runtime.NumGoroutine() <= g0+2, "%d goroutines before, %d after", g0, runtime.NumGoroutine())
	c.Clean()
	c.Count("leak cycles", 120)
	c.Eval(true, c.Name, kind)
}

func c15[TV VT, TIX IT](c *Case, k Combo) {
	if c.I%41 == 9 {
		c15faults(c, k)
		return
	}
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 100 {
		w.S = genSet[TV, TIX](c.R, 1+c.R.IntN(100), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	dir := c.Dir()
	runtime.GC()
	good := c.File("good.ann")
	x := w.Build(w.Spec())
	qs := w.queries(c, 6)
	want := askAll(x, qs)
	c.Check(x.Save(good) == nil, "Save failed")
	x.Close()
	g, _ := os.ReadFile(good)
	size := int(newDist[TV, TIX](w.S.F, k.Dot).NodeSize())
	file := func(name string, b []byte) string {
		p := c.File(name)
		infra("write", os.WriteFile(p, b, 0o644))
		return p
	}
	os.Symlink("loop", c.File("loop"))
	os.Symlink(c.File("nothing"), c.File("dangling"))
	os.Symlink(dir, c.File("dirlink"))
	os.Mkdir(c.File("sub"), 0o755)
	cut := 1 + c.R.IntN(size-1)
	kinds := []struct{ name, path string }{
		{"missing file", c.File("missing")},
		{"empty path", ""},
		{"empty file", file("empty", nil)},
		{"directory", dir},
		{"empty directory", c.File("sub")},
		{"link to a directory", c.File("dirlink")},
		{"file as directory", good + "/x"},
		{"missing directory", c.File("no/such/file")},
		{"link loop", c.File("loop")},
		{"dangling link", c.File("dangling")},
		{"name too long", c.File(strings.Repeat("n", 300))},
		{"NUL in the name", good + "\x00x"},
		{"device", "/dev/null"},
		{"terminal device", "/dev/tty"},
		{"one byte", file("one", []byte{1})},
		{"cut within the last node", file("cut", g[:len(g)-cut])},
		{"cut within the first node", file("cut1", g[:cut])},
		{"one byte too long", file("long", append(append([]byte(nil), g...), 0))},
		{"some bytes too long", file("long2", append(append([]byte(nil), g...), make([]byte, cut)...))},
	}
	idx := w.reach(c, w.anySpec(c), lifeStates[c.R.IntN(len(lifeStates))], c.File("s.ann"))
	fd0 := -1
	for round := 0; round < 6; round++ {
		kd := kinds[c.R.IntN(len(kinds))]
		if round == 0 {
			kd = kinds[(c.I/8)%len(kinds)]
		}
		c.Note("load %s", kd.name)
		var err error
		did, val := Panics(func() { err = idx.Load(kd.path) })
		c.Check(!did, "Load of a bad path (%s) panicked: %v", kd.name, val)
		c.Check(err != nil, "Load of a bad path (%s) gives no error", kd.name)
		f, m := fdsAndMaps(dir)
		c.Check(f == 0 && m == 0, "after the failed Load (%s) %d descriptors and %d mappings remain", kd.name, f, m)
		if fd0 < 0 {
			fd0 = openFds()
		} else {
			c.Check(openFds() <= fd0, "descriptors grew from %d to %d at %s", fd0, openFds(), kd.name)
		}
		// closed: finds nothing
		ids, _ := idx.GetNnsByVector(w.query(c.R), 3, -1, idx.CreateContext())
		c.Check(len(ids) == 0, "after the failed Load (%s) the index answers %v", kd.name, ids)
		c.Check(idx.Save(c.File("no.ann")) != nil, "after the failed Load (%s) Save gives no error", kd.name)
		for _, id := range w.S.Ids()[:1] {
			did, _ := Panics(func() { idx.GetItem(id) })
			c.Check(did, "after the failed Load (%s) item %d is still there", kd.name, id)
		}
		c.Count("bad loads: "+kd.name, 1)
		c.Eval(true, kd.name, round, c.Name)
		// and usable
		switch c.R.IntN(4) {
		case 0:
			err = idx.Load(good)
			c.Check(err == nil, "Load of the good file after %s: %v", kd.name, err)
			sameAnswers(c, "good file after "+kd.name, qs, want, askAll(idx, qs))
		case 1:
			w.S.AddTo(idx)
			idx.Build(w.T, 1)
			sameAnswers(c, "built after "+kd.name, qs, want, askAll(idx, qs))
			p := c.File("again.ann")
			c.Check(idx.Save(p) == nil, "Save failed")
			b, _ := os.ReadFile(p)
			c.Check(bytes.Equal(b, g), "the index built after the failed Load (%s) differs from a new one", kd.name)
		case 2:
			c.Check(idx.Close() == nil, "Close after the failed Load (%s) fails", kd.name)
		case 3: // filled, not built, as the next one is loaded
			w.S.AddTo(idx)
		}
	}
	err := idx.Load(good)
	c.Check(err == nil, "Load of the good file: %v", err)
	sameAnswers(c, "good file at the end", qs, want, askAll(idx, qs))
	idx.Close()
	if c.I%100 == 7 {
		// a file nobody may read
		p := c.File("secret.ann")
		infra("write", os.WriteFile(p, g, 0o600))
		for _, heap := range []string{"mmap", "heap"} {
			o, ran := asNobody(c, "load", heap, p, fmt.Sprint(w.S.F), c.Dir())
			if ran {
				c.Check(o["panic"] == "" && o["err"] != "", "Load (%s) of an unreadable file: panic %q error %q", heap, o["panic"], o["err"])
				c.Count("bad loads: unreadable file", 1)
			}
		}
	}
	c.Clean()
	c.Sample("%v: six bad loads, each an error, each followed by normal use", w.S)
}

// asNobody runs a helper as an unprivileged user; ran is false when that cannot be done here.
func asNobody(c *Case, args ...string) (map[string]string, bool) {
	return asHelper(c, "nobody", args...)
}

func asHelper(c *Case, helper string, args ...string) (map[string]string, bool) {
	bin := os.Getenv("MON_BIN")
	if bin == "" {
		bin, _ = os.Executable()
	}
	cmd := exec.Command(bin, append([]string{"-helper", helper}, args...)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
	cmd.Dir = "/"
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/"}
	out, err := cmd.Output()
	m := map[string]string{}
	if json.Unmarshal(out, &m) != nil || err != nil {
		c.Count("helper runs not possible", 1)
		return nil, false
	}
	return m, true
}

func helperNobody(args []string) {
	m := map[string]string{"panic": "", "err": ""}
	defer func() { json.NewEncoder(os.Stdout).Encode(m) }()
	defer func() {
		if r := recover(); r != nil {
			m["panic"] = fmt.Sprint(r)
		}
	}()
	var al interfaces.IndexAllocator = memory.MmapIndexAllocator()
	if args[1] == "heap" {
		al = memory.FileIndexMemoryAllocator()
	}
	var f int
	fmt.Sscan(args[3], &f)
	switch args[0] {
	case "load":
		idx := Spec[float32, uint32]{F: f, IdxAlloc: al}.New()
		if err := idx.Load(args[2]); err != nil {
			m["err"] = err.Error()
		}
		idx.Close()
	case "save": // into a directory that is not ours
		idx := Spec[float32, uint32]{F: f, Seed: 5, IdxAlloc: al}.New()
		for i := 0; i < 50; i++ {
			v := make([]float32, f)
			for j := range v {
				v[j] = float32((i*7+j*3)%11) - 4.5
			}
			idx.AddItem(uint32(i), v)
		}
		idx.Build(3, 1)
		a1, _ := idx.GetNnsByItem(3, 10, 1000, idx.CreateContext())
		if err := idx.Save(args[2]); err != nil {
			m["err"] = err.Error()
		}
		a2, _ := idx.GetNnsByItem(3, 10, 1000, idx.CreateContext())
		if !sameSlice(a1, a2) || len(a1) != 10 {
			m["panic"] = fmt.Sprintf("answers %v before, %v after the failed Save", a1, a2)
		}
		idx.Close()
	}
}

func c16[TV VT, TIX IT](c *Case, k Combo) {
	if c.I%41 == 9 {
		c16faults(c, k)
		return
	}
	w := genWorld[TV, TIX](c, k)
	if w.S.N() > 150 {
		w.S = genSet[TV, TIX](c.R, 1+c.R.IntN(150), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	w2 := &world[TV, TIX]{K: k, Cap: w.Cap, T: 1 + c.R.IntN(6), Seed: w.Seed + 3}
	w2.S = genSet[TV, TIX](c.R, 1+c.R.IntN(150), w.S.F, "gauss", "dense", k.Dot)
	qs1, qs2 := w.queries(c, 6), w2.queries(c, 6)
	dir := c.File("d")
	os.Mkdir(dir, 0o755)
	path := filepath.Join(dir, "p.ann")
	bystanders := map[string]string{} // files of others that must stay as they are
	if c.R.IntN(2) == 0 {
		for _, n := range []string{"p.ann.tmp", "p.ann~", "p.ann.bak", "p.ann.old", "p.ann.new", "p.ann.part", "p.ann.temp", "p.ann.save", "p.ann.1", "p.ann.lock",
			".p.ann.tmp", ".p.ann", ".p.ann.swp", "#p.ann#", "p.tmp", "p.bak", "p", "tmp", ".tmp", "temp", "q.ann.tmp", "fine.ann.tmp", "p.ann.", "~p.ann", "_p.ann", "tmp.p.ann", "index.tmp"} {
			bystanders[n] = fmt.Sprintf("%s of another %d", n, c.R.Uint64())
			infra("bystander", os.WriteFile(filepath.Join(dir, n), []byte(bystanders[n]), 0o644))
		}
	}
	ls := func() string {
		for name, want := range bystanders {
			b, err := os.ReadFile(filepath.Join(dir, name))
			c.Check(err == nil && string(b) == want, "the file %s, which no Save was told to write, had %q and now has %.60q (%v)", name, want, b, err)
			c.Count("files beside the saved one judged", 1)
		}
		es, _ := os.ReadDir(dir)
		var n []string
		for _, e := range es {
			if _, ok := bystanders[e.Name()]; !ok {
				n = append(n, e.Name())
			}
		}
		return strings.Join(n, " ")
	}
	save := func(x interfaces.AnnoyIndex[TV, TIX], p string) {
		err := x.Save(p)
		c.Check(err == nil, "Save: %v", err)
	}
	spA := w.anySpec(c)
	a := w.Build(spA)
	wantA := askAll(a, qs1)
	save(a, path)
	bytesA, _ := os.ReadFile(path)
	if c.R.IntN(2) == 0 {
		a.Close()
		c.Check(a.Load(path) == nil, "Load failed")
	}
	spB := w2.anySpec(c)
	if c.R.IntN(3) == 0 {
		spB.IdxAlloc = spA.IdxAlloc // the same index allocator
	}
	b := w2.Build(spB)
	wantB := askAll(b, qs2)
	itemsA := func(when string) {
		for _, id := range w.S.Ids() {
			c.Check(sameBits(a.GetItem(id), w.S.V[id]), "%s: item %d of the other index reads %v", when, id, a.GetItem(id))
		}
	}
	kind := c.R.IntN(7)
	switch kind {
	case 6: // over a link, and with permissions of its own
		mode := In(c.R, os.FileMode(0o600), 0o640, 0o644, 0o664, 0o666, 0o755, 0o400)
		infra("chmod", os.Chmod(path, mode))
		os.Mkdir(filepath.Join(dir, "sub"), 0o755)
		link, chain := filepath.Join(dir, "sub", "link"), filepath.Join(dir, "chain")
		infra("link", os.Symlink("../p.ann", link))
		infra("link", os.Symlink(link, chain))
		t := In(c.R, path, link, chain)
		save(b, t)
		sameAnswers(c, "the index saved over a link", qs2, wantB, askAll(b, qs2))
		sameAnswers(c, "the index whose file was replaced", qs1, wantA, askAll(a, qs1))
		for _, l := range []string{link, chain} {
			st, err := os.Lstat(l)
			c.Check(err == nil && st.Mode()&os.ModeSymlink != 0, "saved to %s: the link %s is no more", t, l)
		}
		st, err := os.Stat(path)
		c.Check(err == nil && st.Mode() == mode, "saved to %s: the file's mode was %v, is %v", t, mode, st.Mode())
		c.Check(ls() == "chain p.ann sub", "files after Save: %s", ls())
		b.Close()
		c.Check(b.Load(path) == nil, "Load failed")
		sameAnswers(c, "the index saved over a link and loaded", qs2, wantB, askAll(b, qs2))
		c.Count("saves over links and modes", 1)
	case 0, 1: // over a file that another index has loaded
		save(b, path)
		sameAnswers(c, "the index whose file was replaced", qs1, wantA, askAll(a, qs1))
		itemsA("file replaced")
		sameAnswers(c, "the index that replaced the file", qs2, wantB, askAll(b, qs2))
		c.Check(ls() == "p.ann", "files after Save: %s", ls())
		x := w2.Spec().New()
		c.Check(x.Load(path) == nil, "Load failed")
		sameAnswers(c, "the new file loaded", qs2, wantB, askAll(x, qs2))
		x.Close()
		// the old one writes itself back
		if kind == 1 {
			save(a, path)
			b2, _ := os.ReadFile(path)
			c.Check(bytes.Equal(b2, bytesA), "the old index saved itself back differently")
			sameAnswers(c, "the index saved back", qs1, wantA, askAll(a, qs1))
			sameAnswers(c, "the index that had replaced the file", qs2, wantB, askAll(b, qs2))
		}
		c.Count("saves over a loaded file", 1)
	case 2: // over its own file
		for i := 0; i < 3; i++ {
			save(a, path)
			bb, _ := os.ReadFile(path)
			c.Check(bytes.Equal(bb, bytesA), "saved over its own file: %d bytes differ", len(bb))
			sameAnswers(c, "saved over its own file", qs1, wantA, askAll(a, qs1))
			itemsA("saved over its own file")
		}
		c.Check(ls() == "p.ann", "files after Save: %s", ls())
		c.Count("saves over the own file", 3)
	case 3, 4: // no space (a limit on the file size), with and without a good file at the path
		target, had := path, true
		if c.R.IntN(3) == 0 {
			target, had = filepath.Join(dir, "q.ann"), false
		}
		before := ls()
		size := 0
		{
			p := c.File("size.ann")
			y := w2.Build(w2.Spec())
			save(y, p)
			st, _ := os.Stat(p)
			size = int(st.Size())
			y.Close()
		}
		limit := In(c.R, 0, 1, size/2, size-1, c.R.IntN(size))
		var old syscall.Rlimit
		infra("getrlimit", syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		nl := old
		nl.Cur = uint64(limit)
		infra("setrlimit", syscall.Setrlimit(syscall.RLIMIT_FSIZE, &nl))
		var err error
		did, val := Panics(func() { err = b.Save(target) })
		infra("setrlimit", syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		c.Check(!did, "Save without space panicked: %v", val)
		c.Check(err != nil, "Save of %d bytes with room for %d gives no error", size, limit)
		if had {
			bb, rerr := os.ReadFile(path)
			c.Check(rerr == nil && bytes.Equal(bb, bytesA), "the failed Save changed the good file: %d of %d bytes (%v)", len(bb), len(bytesA), rerr)
		} else {
			_, serr := os.Stat(target)
			c.Check(os.IsNotExist(serr), "the failed Save left a file at the new path")
		}
		c.Check(ls() == before, "the failed Save left files: %s, before %s", ls(), before)
		sameAnswers(c, "the index after its failed Save", qs2, wantB, askAll(b, qs2))
		sameAnswers(c, "another index after the failed Save", qs1, wantA, askAll(a, qs1))
		save(b, target)
		sameAnswers(c, "the index after the repeated Save", qs2, wantB, askAll(b, qs2))
		c.Count("saves without space", 1)
	case 5: // impossible targets
		os.Mkdir(filepath.Join(dir, "busy"), 0o755)
		os.WriteFile(filepath.Join(dir, "busy", "x"), []byte("x"), 0o644)
		os.Mkdir(filepath.Join(dir, "vacant"), 0o755)
		before := ls()
		for _, t := range []string{filepath.Join(dir, "busy"), filepath.Join(dir, "vacant"), filepath.Join(dir, "no", "x.ann"),
			path + "/x.ann", "", filepath.Join(dir, strings.Repeat("n", 300)), dir} {
			var err error
			did, val := Panics(func() { err = b.Save(t) })
			c.Check(!did, "Save to %q panicked: %v", t, val)
			c.Check(err != nil, "Save to %q gives no error", t)
			c.Check(ls() == before, "the failed Save to %q left files: %s, before %s", t, ls(), before)
			sameAnswers(c, "the index after its failed Save", qs2, wantB, askAll(b, qs2))
			c.Count("saves to impossible targets", 1)
		}
		bb, rerr := os.ReadFile(path)
		c.Check(rerr == nil && bytes.Equal(bb, bytesA), "the failed Saves changed the good file")
		bx, _ := os.ReadFile(filepath.Join(dir, "busy", "x"))
		c.Check(string(bx) == "x", "the directory in the way was changed")
		save(b, filepath.Join(dir, "fine.ann"))
		sameAnswers(c, "the index after its Save", qs2, wantB, askAll(b, qs2))
		if c.I%30 == 5 {
			os.Chmod(dir, 0o755)
			o, ran := asNobody(c, "save", "mmap", path, fmt.Sprint(w.S.F), "")
			if ran {
				c.Check(o["panic"] == "" && o["err"] != "", "Save into an unwritable directory: %v", o)
				bb, _ := os.ReadFile(path)
				c.Check(bytes.Equal(bb, bytesA), "Save into an unwritable directory changed the file")
				c.Count("saves into an unwritable directory", 1)
			}
		}
	}
	a.Close()
	b.Close()
	ls()
	c.Clean()
	c.Eval(true, c.Name, kind)
	c.Sample("%v / %v: kind %d", w.S, w2.S, kind)
}
