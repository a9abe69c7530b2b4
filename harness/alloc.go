package main

import (
	"fmt"
	"os"
	"sync"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

const page = 4096

func infra(what string, err error) {
	if err != nil {
		panic(fmt.Sprintf("HARNESS: %s: %v", what, err))
	}
}

// region is anonymous memory between two unmapped pages, flush with one of them.
type region struct {
	all  []byte // with the guards
	base unsafe.Pointer
	n    int
	live bool
}

func newRegion(n int, flushEnd bool) *region {
	body := (n + page - 1) / page * page
	if body == 0 {
		body = page
	}
	all, err := syscall.Mmap(-1, 0, body+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	infra("mmap", err)
	infra("mprotect", syscall.Mprotect(all[:page], syscall.PROT_NONE))
	infra("mprotect", syscall.Mprotect(all[page+body:], syscall.PROT_NONE))
	off := page
	if flushEnd {
		off = page + body - n
		off &^= 3
	}
	return &region{all: all, base: unsafe.Pointer(&all[off]), n: n, live: true}
}

func (r *region) has(p unsafe.Pointer) bool {
	a := uintptr(unsafe.Pointer(&r.all[0]))
	return uintptr(p) >= a && uintptr(p) < a+uintptr(len(r.all))
}

func (r *region) revoke() {
	r.live = false
	infra("mprotect", syscall.Mprotect(r.all, syscall.PROT_NONE))
}

// movingAlloc is a build allocator that moves on every call, ends flush with an unmapped page, and
// revokes all access to the memory it replaced.
type movingAlloc struct {
	mu       sync.Mutex
	cur      *region
	old      []*region
	flushEnd bool
	calls    int
	frees    int
	before   func(n int)
	between  func() // between copying and handing out
	sizes    []int
}

func (a *movingAlloc) Reallocate(n int) unsafe.Pointer {
	if a.before != nil {
		a.before(n)
	}
	if n < 0 || n > 1<<33 {
		panic(fmt.Sprintf("Reallocate(%d)", n))
	}
	a.mu.Lock()
	a.calls++
	a.sizes = append(a.sizes, n)
	nr := newRegion(n, a.flushEnd)
	if a.cur != nil {
		m := min(n, a.cur.n)
		copy(unsafe.Slice((*byte)(nr.base), n)[:m], unsafe.Slice((*byte)(a.cur.base), a.cur.n)[:m])
	}
	a.mu.Unlock()
	if a.between != nil {
		a.between()
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.cur != nil {
		a.cur.revoke()
		a.old = append(a.old, a.cur)
	}
	a.cur = nr
	return nr.base
}

func (a *movingAlloc) Free() {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.frees++
	if a.cur != nil {
		a.cur.revoke()
		a.old = append(a.old, a.cur)
		a.cur = nil
	}
}

// state tells about an address: 0 not ours, 1 live, 2 replaced or freed.
func (a *movingAlloc) state(p unsafe.Pointer) int {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.cur != nil && a.cur.has(p) {
		return 1
	}
	for _, r := range a.old {
		if r.has(p) {
			return 2
		}
	}
	return 0
}

// release gives all memory back to the system.
func (a *movingAlloc) release() {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, r := range a.old {
		syscall.Munmap(r.all)
	}
	a.old = nil
	if a.cur != nil {
		syscall.Munmap(a.cur.all)
		a.cur = nil
	}
}

// guardIndexAlloc opens index files into guarded read-only memory.
type guardIndexAlloc struct {
	mu       sync.Mutex
	flushEnd bool
	opens    int
	closes   int
	live     map[string]*guardIndex
	all      []*region
}

type guardIndex struct {
	a      *guardIndexAlloc
	r      *region
	path   string
	closed bool
}

func (a *guardIndexAlloc) Open(path string) (interfaces.AllocatedIndex, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 {
		return nil, fmt.Errorf("empty")
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	a.opens++
	r := newRegion(len(b), a.flushEnd)
	copy(unsafe.Slice((*byte)(r.base), len(b)), b)
	infra("mprotect", syscall.Mprotect(r.all[page:len(r.all)-page], syscall.PROT_READ))
	g := &guardIndex{a: a, r: r, path: path}
	if a.live == nil {
		a.live = map[string]*guardIndex{}
	}
	a.live[path] = g
	a.all = append(a.all, r)
	return g, nil
}

func (a *guardIndexAlloc) Get(path string) (interfaces.AllocatedIndex, bool) {
	a.mu.Lock()
	defer a.mu.Unlock()
	g, ok := a.live[path]
	if !ok {
		return nil, false
	}
	return g, true
}

func (g *guardIndex) Ptr() unsafe.Pointer { return g.r.base }
func (g *guardIndex) Size() int64         { return int64(g.r.n) }
func (g *guardIndex) Close() error {
	g.a.mu.Lock()
	defer g.a.mu.Unlock()
	if g.closed {
		return nil
	}
	g.closed = true
	g.a.closes++
	if g.a.live[g.path] == g {
		delete(g.a.live, g.path)
	}
	g.r.revoke()
	return nil
}

func (a *guardIndexAlloc) release() {
	for _, r := range a.all {
		syscall.Munmap(r.all)
	}
	a.all = nil
}
