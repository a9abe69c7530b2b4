package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"syscall"
	"time"

	"github.com/mariotoffia/goannoy/index/memory"
)

// A helper process runs its main goroutine on the main thread, whose system calls a tracer (this
// process) sees one by one. Between two marks it can kill the process before, within or after a
// call, make the call fail without executing it, or shorten a write.

const markCall = 0x6d6f6e

func init() {
	if len(os.Args) > 1 && os.Args[1] == "-helper" {
		runtime.LockOSThread()
	}
}

func mark(n uintptr) { syscall.Syscall(syscall.SYS_PRCTL, markCall, n, 0) }

// callNames are the calls that touch files.
var callNames = map[uint64]string{
	syscall.SYS_OPEN: "open", syscall.SYS_OPENAT: "openat", syscall.SYS_CREAT: "creat",
	syscall.SYS_READ: "read", syscall.SYS_PREAD64: "pread", syscall.SYS_READV: "readv",
	syscall.SYS_WRITE: "write", syscall.SYS_PWRITE64: "pwrite", syscall.SYS_WRITEV: "writev",
	syscall.SYS_FTRUNCATE: "ftruncate", syscall.SYS_TRUNCATE: "truncate", syscall.SYS_FALLOCATE: "fallocate",
	syscall.SYS_RENAME: "rename", syscall.SYS_RENAMEAT: "renameat", 316: "renameat2",
	syscall.SYS_UNLINK: "unlink", syscall.SYS_UNLINKAT: "unlinkat",
	syscall.SYS_LINK: "link", syscall.SYS_LINKAT: "linkat", syscall.SYS_SYMLINK: "symlink", syscall.SYS_SYMLINKAT: "symlinkat",
	syscall.SYS_CHMOD: "chmod", syscall.SYS_FCHMOD: "fchmod", syscall.SYS_FCHMODAT: "fchmodat",
	syscall.SYS_FSYNC: "fsync", syscall.SYS_FDATASYNC: "fdatasync", syscall.SYS_MSYNC: "msync",
	326: "copy_file_range", syscall.SYS_SENDFILE: "sendfile",
	syscall.SYS_MMAP: "mmap", syscall.SYS_CLOSE: "close",
	syscall.SYS_STAT: "stat", syscall.SYS_FSTAT: "fstat", syscall.SYS_LSTAT: "lstat", syscall.SYS_NEWFSTATAT: "fstatat",
	syscall.SYS_LSEEK: "lseek", syscall.SYS_MKDIR: "mkdir", syscall.SYS_MKDIRAT: "mkdirat",
}

// writers are the calls that change files or directories.
var writers = map[string]bool{"creat": true, "write": true, "pwrite": true, "writev": true, "ftruncate": true, "truncate": true,
	"fallocate": true, "rename": true, "renameat": true, "renameat2": true, "link": true, "linkat": true, "fsync": true,
	"fdatasync": true, "msync": true, "copy_file_range": true, "sendfile": true}

type fileCall struct {
	Name  string
	Alter bool // changes a file or a directory, or closes a file that was written
}

type fault struct {
	At    int // number of the file call between the marks
	Kill  string
	Errno syscall.Errno
}

func (f fault) String() string {
	if f.Kill != "" {
		return fmt.Sprintf("killed %s file call %d", f.Kill, f.At)
	}
	return fmt.Sprintf("%v in file call %d", f.Errno, f.At)
}

// traced runs a helper with a fault and tells about the file calls between the marks and the result;
// ran is false when processes cannot be traced here.
func traced(c *Case, ft fault, args ...string) (calls []fileCall, res map[string]string, killed, ran bool) {
	bin := os.Getenv("MON_BIN")
	if bin == "" {
		bin, _ = os.Executable()
	}
	out := c.File("traced.json")
	os.Remove(out)
	type result struct {
		calls       []fileCall
		killed, ran bool
	}
	ch := make(chan result)
	go func() {
		runtime.LockOSThread() // never unlocked: the thread ends with the goroutine
		var r result
		defer func() { ch <- r }()
		cmd := exec.Command(bin, append([]string{"-helper", args[0], out}, args[1:]...)...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		if err := cmd.Start(); err != nil {
			return
		}
		pid := cmd.Process.Pid
		defer cmd.Process.Release()
		var ws syscall.WaitStatus
		if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
			syscall.Kill(pid, syscall.SIGKILL)
			return
		}
		if syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|0x100000 /* EXITKILL */) != nil {
			syscall.Kill(pid, syscall.SIGKILL)
			syscall.Wait4(pid, &ws, syscall.WALL, nil)
			return
		}
		dog := time.AfterFunc(100*time.Second, func() { syscall.Kill(pid, syscall.SIGKILL) })
		defer dog.Stop()
		r.ran = true
		on, entry := false, true
		written := map[uint64]bool{}
		var fail syscall.Errno
		var opened bool
		end := func() {
			r.killed = true
			syscall.Kill(pid, syscall.SIGKILL)
		}
		killNow := false
		sig := 0
		for {
			if err := syscall.PtraceSyscall(pid, sig); err != nil && err != syscall.ESRCH {
				panic(fmt.Sprintf("HARNESS: ptrace: %v", err))
			}
			sig = 0
			if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil {
				panic(fmt.Sprintf("HARNESS: wait4: %v", err))
			}
			if ws.Exited() || ws.Signaled() {
				return
			}
			if !ws.Stopped() {
				continue
			}
			if ws.StopSignal() != syscall.SIGTRAP|0x80 {
				if ws.StopSignal() != syscall.SIGTRAP {
					sig = int(ws.StopSignal())
				}
				continue
			}
			var g syscall.PtraceRegs
			if syscall.PtraceGetRegs(pid, &g) != nil {
				continue
			}
			if !entry { // leaving a call
				entry = true
				if fail != 0 {
					g.Rax = uint64(-int64(fail))
					syscall.PtraceSetRegs(pid, &g)
					fail = 0
				} else if opened && int64(g.Rax) >= 0 {
					written[g.Rax] = true
				}
				opened = false
				if killNow {
					end()
				}
				continue
			}
			entry = false
			if g.Orig_rax == syscall.SYS_PRCTL && g.Rdi == markCall {
				on = g.Rsi == 1
				continue
			}
			name := callNames[g.Orig_rax]
			if !on || name == "" || name == "mmap" && int32(g.R8) < 0 {
				continue
			}
			fc := fileCall{Name: name, Alter: writers[name]}
			if name == "openat" && g.Rdx&(syscall.O_CREAT|syscall.O_TRUNC) != 0 || name == "open" && g.Rsi&(syscall.O_CREAT|syscall.O_TRUNC) != 0 || name == "creat" {
				fc.Alter, opened = true, true
			}
			if name == "close" {
				fc.Alter = written[g.Rdi]
				delete(written, g.Rdi)
			}
			n := len(r.calls)
			r.calls = append(r.calls, fc)
			if n != ft.At {
				continue
			}
			switch {
			case ft.Kill == "before":
				end()
			case ft.Kill == "after":
				killNow = true
			case ft.Kill == "within":
				killNow = true
				if name == "write" || name == "pwrite" {
					g.Rdx /= 2
					syscall.PtraceSetRegs(pid, &g)
				}
			case ft.Errno != 0:
				fail = ft.Errno
				g.Orig_rax = ^uint64(0)
				syscall.PtraceSetRegs(pid, &g)
			}
		}
	}()
	r := <-ch
	if !r.ran {
		c.Count("traced runs not possible", 1)
		return
	}
	b, err := os.ReadFile(out)
	if err == nil {
		res = map[string]string{}
		infra("result of "+args[0], json.Unmarshal(b, &res))
	}
	return r.calls, res, r.killed, true
}

// filer is the helper whose file operations are traced. args: out, op, heap|mmap, source, target,
// vector length, "dot" or "angular".
//   - save: load the source, save it to the target
//   - build: fill a new index with the items of the source, build and save it to the target
//   - load: load the source
func helperFiler(args []string) {
	out, op, al, src, target := args[0], args[1], args[2], args[3], args[4]
	m := map[string]string{"panic": "", "err": ""}
	defer func() {
		b, _ := json.Marshal(m)
		os.WriteFile(out, b, 0o644)
	}()
	defer func() {
		if r := recover(); r != nil {
			m["panic"] = fmt.Sprint(r)
		}
	}()
	var f int
	fmt.Sscan(args[5], &f)
	sp := Spec[float32, uint32]{F: f, Dot: args[6] == "dot", Seed: 7}
	if al == "heap" {
		sp.IdxAlloc = memory.FileIndexMemoryAllocator()
	}
	idx := sp.New()
	var n uint32
	digest := func() string {
		s := ""
		if n == 0 {
			return "none"
		}
		ctx := idx.CreateContext()
		for i := 0; i < 8; i++ {
			id := uint32(i) * n / 8
			ids, ds := idx.GetNnsByItem(id, 1+i*3, In2(i, -1, 1, 50, 100000), ctx)
			s += fmt.Sprint(id, idx.GetItem(id), ids, ds, ";")
		}
		return s
	}
	count := func() {
		for n = 0; ; n++ {
			if did, _ := Panics(func() { idx.GetItem(n) }); did {
				return
			}
		}
	}
	try := func(f func() error) {
		mark(1)
		err := f()
		mark(2)
		if err != nil {
			m["err"] = err.Error()
		}
	}
	switch op {
	case "load":
		try(func() error { return idx.Load(src) })
		if m["err"] == "" {
			count()
			m["after"] = digest()
		} else {
			ids, _ := idx.GetNnsByVector(make([]float32, f), 5, 100, idx.CreateContext())
			m["found"] = fmt.Sprint(len(ids))
			f, m2 := fdsAndMaps(filepath.Dir(src))
			m["fds"] = fmt.Sprint(f + m2)
		}
		if err := idx.Load(src); err != nil {
			m["err2"] = err.Error()
			return
		}
		count()
		m["again"] = digest()
	case "save", "build":
		if err := idx.Load(src); err != nil {
			m["panic"] = "load: " + err.Error()
			return
		}
		if op == "build" {
			count()
			x := sp.New()
			for i := uint32(0); i < n; i++ {
				x.AddItem(i, append([]float32(nil), idx.GetItem(i)...))
			}
			idx.Close()
			idx = x
			idx.Build(3, 1)
		}
		count()
		m["before"] = digest()
		try(func() error { return idx.Save(target) })
		m["after"] = digest()
		if err := idx.Save(target + ".second"); err != nil {
			m["err2"] = err.Error()
		}
		m["again"] = digest()
	}
}

// In2 is the i-th of the values, round and round.
func In2[T any](i int, xs ...T) T { return xs[i%len(xs)] }

// errnos are plausible failures of a file call.
func errnos(name string) []syscall.Errno {
	switch name {
	case "open", "openat", "creat":
		return []syscall.Errno{syscall.EMFILE, syscall.EACCES, syscall.ENOSPC, syscall.EIO}
	case "read", "pread", "readv", "stat", "fstat", "lstat", "fstatat", "lseek":
		return []syscall.Errno{syscall.EIO}
	case "mmap":
		return []syscall.Errno{syscall.ENOMEM, syscall.ENODEV, syscall.EACCES}
	case "rename", "renameat", "renameat2", "link", "linkat":
		return []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EIO, syscall.EXDEV}
	case "unlink", "unlinkat", "chmod", "fchmod", "fchmodat", "close":
		return []syscall.Errno{syscall.EIO}
	}
	return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
}

// c16faults kills a saving process at every file call, and makes every file call fail.
func c16faults(c *Case, k Combo) {
	w := genWorld[float32, uint32](c, k)
	if w.S.N() > 300 {
		w.S = genSet[float32, uint32](c.R, 1+c.R.IntN(300), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	large := c.I%5 == 3
	if large { // a file of several MiB
		f := In(c.R, 16, 50, 100)
		size := In(c.R, 1, 2, 3, 5)<<20 + c.R.IntN(1<<20)
		if c.I%25 == 8 {
			size = 17<<20 + c.R.IntN(1<<20)
		}
		w.S = genSet[float32, uint32](c.R, size/(4*f+12), f, "gauss", "dense", k.Dot)
		w.T = 1
		w.Cap = capacity[float32, uint32](f, k.Dot)
		c.Note("large: %v", w.S)
		c.Count("large files under failing calls", 1)
	}
	w2 := &world[float32, uint32]{K: k, Cap: w.Cap, T: 1 + c.R.IntN(4), Seed: 3}
	w2.S = genSet[float32, uint32](c.R, 1+c.R.IntN(200), w.S.F, "gauss", "dense", k.Dot)
	dir := c.File("d")
	infra("mkdir", os.Mkdir(dir, 0o755))
	target, src := filepath.Join(dir, "p.ann"), c.File("src.ann")
	x := w.Build(w.Spec())
	c.Check(x.Save(src) == nil, "Save failed")
	x.Close()
	a := w2.Build(w2.Spec())
	c.Check(a.Save(c.File("old.ann")) == nil, "Save failed")
	qs := w2.queries(c, 4)
	want := askAll(a, qs)
	old, _ := os.ReadFile(c.File("old.ann"))
	op, al := In(c.R, "save", "build"), In(c.R, "mmap", "heap")
	had := c.R.IntN(4) > 0
	if large {
		op, had = "save", true
	}
	metric := "angular"
	if k.Dot {
		metric = "dot"
	}
	run := func(ft fault) (calls []fileCall, res map[string]string, killed, ran bool) {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.RemoveAll(filepath.Join(dir, e.Name()))
		}
		if had {
			infra("write", os.WriteFile(target, old, 0o644))
			c.Check(a.Load(target) == nil, "Load failed")
		}
		infra("write", os.WriteFile(filepath.Join(dir, "other"), []byte("other"), 0o644))
		return traced(c, ft, "filer", op, al, src, target, fmt.Sprint(w.S.F), metric)
	}
	calls, res, _, ran := run(fault{At: -1})
	if !ran {
		return
	}
	c.Check(res != nil && res["panic"] == "" && res["err"] == "" && res["err2"] == "", "Save in a process of its own: %v", res)
	c.Check(res["before"] == res["after"] && res["before"] == res["again"], "Save changes the answers")
	goodAns := res["before"]
	neu, _ := os.ReadFile(target)
	c.Check(len(neu) > 0 && !bytes.Equal(neu, old), "nothing was saved")
	// judge tells what is at the target
	judge := func(ft fault, what string) (isNew bool) {
		b, err := os.ReadFile(target)
		switch {
		case err == nil && bytes.Equal(b, neu):
			isNew = true
		case had && err == nil && bytes.Equal(b, old), !had && os.IsNotExist(err):
		default:
			c.Fail("%s %s over %s file, %v (%s): afterwards there are %d bytes (%v); the old file has %d, the new one %d", op, al, map[bool]string{true: "a good", false: "no"}[had], ft, what, len(b), err, len(old), len(neu))
		}
		ob, _ := os.ReadFile(filepath.Join(dir, "other"))
		c.Check(string(ob) == "other", "%v (%s): another file in the directory has changed", ft, what)
		if had {
			sameAnswers(c, "the index whose file is replaced by a failing process", qs, want, askAll(a, qs))
		}
		return
	}
	sawNew := false
	// of a large file only some of the writes are judged
	some := func(i int) bool {
		if !large {
			return true
		}
		if calls[i].Name == "rename" || calls[i].Name == "renameat" || calls[i].Name == "renameat2" || i+1 == len(calls) {
			return true
		}
		if !calls[i].Alter || calls[i].Name == "openat" {
			return false
		}
		at, n := 0, 0
		for j, fc := range calls {
			if fc.Name == calls[i].Name {
				if j < i {
					at++
				}
				n++
			}
		}
		return at < 2 || n-at < 4 || h64(c.Seed, c.Name, i)%uint64(n) < 3
	}
	for i, fc := range calls {
		if !some(i) {
			continue
		}
		if !fc.Alter && fc.Name != "close" && i+1 < len(calls) && c.R.IntN(3) > 0 {
			continue // nothing happens there
		}
		kinds := []string{"before"}
		if fc.Name == "write" || fc.Name == "pwrite" {
			kinds = append(kinds, "within")
		}
		if i+1 == len(calls) {
			kinds = append(kinds, "after")
		}
		for _, kd := range kinds {
			ft := fault{At: i, Kill: kd}
			_, res, killed, _ := run(ft)
			c.Check(killed && res == nil, "HARNESS: %v: not killed", ft)
			if judge(ft, fc.Name) {
				sawNew = true
			}
			c.Count("crash points judged", 1)
			c.Eval(true, c.Name, ft)
		}
	}
	c.Check(sawNew, "killed after the last of %v: the new file is not there", calls)
	for i, fc := range calls {
		if !some(i) {
			continue
		}
		for ei, e := range errnos(fc.Name) {
			if large && ei > 0 {
				break
			}
			if !fc.Alter && c.R.IntN(2) == 0 {
				continue
			}
			ft := fault{At: i, Errno: e}
			_, res, _, _ := run(ft)
			c.Check(res != nil, "%s %s, %v (%s): the process died", op, al, ft, fc.Name)
			c.Check(res["panic"] == "", "%s %s, %v (%s): panic %s", op, al, ft, fc.Name, res["panic"])
			isNew := judge(ft, fc.Name)
			if fc.Alter {
				c.Check(res["err"] != "", "%s %s, %v (%s): Save gives no error", op, al, ft, fc.Name)
			}
			c.Check(isNew || res["err"] != "", "%s %s, %v (%s): Save gives no error and the file is the old one", op, al, ft, fc.Name)
			c.Check(res["after"] == goodAns, "%s %s, %v (%s), Save gave %q: the index answers %.200s, before %.200s", op, al, ft, fc.Name, res["err"], res["after"], goodAns)
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				n := e.Name()
				c.Check(n == "p.ann" || n == "other" || n == "p.ann.second", "%s %s, %v (%s): Save gave %q and left the file %s", op, al, ft, fc.Name, res["err"], n)
			}
			c.Check(res["err2"] == "" && res["again"] == goodAns, "%s %s, %v (%s): the next Save gives %q and answers change", op, al, ft, fc.Name, res["err2"])
			b2, _ := os.ReadFile(target + ".second")
			c.Check(bytes.Equal(b2, neu), "%s %s, %v (%s): the next Save writes %d other bytes", op, al, ft, fc.Name, len(b2))
			c.Count("failing file calls of Save judged", 1)
			c.Eval(true, c.Name, ft)
		}
	}
	a.Close()
	c.Clean()
	var names []string
	for _, fc := range calls {
		names = append(names, fc.Name)
	}
	c.Sample("%v: %s %s killed at and failing in each of %v", w.S, op, al, names)
}

// c15faults makes every file call of a load fail.
func c15faults(c *Case, k Combo) {
	w := genWorld[float32, uint32](c, k)
	if w.S.N() > 300 {
		w.S = genSet[float32, uint32](c.R, 1+c.R.IntN(300), w.S.F, w.S.Fam, w.S.Lay, k.Dot)
		c.Note("resized: %v", w.S)
	}
	src := c.File("src.ann")
	x := w.Build(w.Spec())
	c.Check(x.Save(src) == nil, "Save failed")
	x.Close()
	al, metric := In(c.R, "mmap", "heap"), "angular"
	if k.Dot {
		metric = "dot"
	}
	run := func(ft fault) (calls []fileCall, res map[string]string, ran bool) {
		calls, res, _, ran = traced(c, ft, "filer", "load", al, src, "-", fmt.Sprint(w.S.F), metric)
		return
	}
	calls, res, ran := run(fault{At: -1})
	if !ran {
		return
	}
	good := res["after"]
	c.Check(res["panic"] == "" && res["err"] == "" && res["err2"] == "" && good != "" && res["again"] == good, "Load in a process of its own: %v", res)
	for i, fc := range calls {
		for _, e := range errnos(fc.Name) {
			ft := fault{At: i, Errno: e}
			_, res, _ := run(ft)
			c.Check(res != nil, "Load %s, %v (%s): the process died", al, ft, fc.Name)
			c.Check(res["panic"] == "", "Load %s, %v (%s): panic %s", al, ft, fc.Name, res["panic"])
			if res["err"] == "" {
				c.Check(res["after"] == good, "Load %s, %v (%s) gives no error and the answers differ", al, ft, fc.Name)
			} else {
				c.Check(res["found"] == "0", "Load %s, %v (%s): the closed index finds %s items", al, ft, fc.Name, res["found"])
				if fc.Name != "close" {
					c.Check(res["fds"] == "0", "Load %s, %v (%s): %s descriptors and mappings remain", al, ft, fc.Name, res["fds"])
				}
			}
			c.Check(res["err2"] == "" && res["again"] == good, "Load %s, %v (%s): the next Load gives %q and the answers differ", al, ft, fc.Name, res["err2"])
			c.Count("failing file calls of Load judged", 1)
			c.Eval(true, c.Name, ft)
		}
	}
	c.Clean()
	c.Sample("%v: Load %s with a failure in each of %v", w.S, al, calls)
}
