// Command stdoverlay writes simulator seams into copies of a few Go standard library files and
// prints the matching "go build -overlay" replacements.
//
//	stdoverlay GOROOT OUTDIR  ->  OUTDIR/std.json  {"<goroot file>": "<patched copy>", ...}
//
// Nothing here changes what a program does until a hook is installed: every seam is a nil check.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type edit struct{ old, new string }

var edits = map[string][]edit{
	"os/stat_unix.go": {
		{"syscall.Stat(name, &fs.sys)", "syscall.Stat(simPath(name), &fs.sys)"},
		{"syscall.Lstat(name, &fs.sys)", "syscall.Lstat(simPath(name), &fs.sys)"},
	},
	"runtime/runtime2.go": {
		{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simtask unsafe.Pointer // simulator task (zsim.go)\n"},
		{"	waitReasonSyncCondWait:          true,\n", "	waitReasonSyncCondWait:          true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncWaitGroupWait:     true,\n"},
	},
	"runtime/proc.go": {
		{"func newproc(fn *funcval) {\n	gp := getg()\n	pc := sys.GetCallerPC()\n", "func newproc(fn *funcval) {\n	gp := getg()\n	pc := sys.GetCallerPC()\n	var simchild unsafe.Pointer\n	if gp.simtask != nil && SimNewproc != nil && !stringslite.HasPrefix(funcname(findfunc(fn.fn)), \"runtime.\") {\n		f := unsafe.Pointer(fn)\n		simchild, f = SimNewproc(gp.simtask, f)\n		fn = (*funcval)(f)\n	}\n"},
		{"		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n\n		pp := getg().m.p.ptr()\n", "		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n		newg.simtask = simchild\n\n		pp := getg().m.p.ptr()\n"},
		{"const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
		{"	gp.labels = nil\n	gp.timer = nil\n", "	gp.labels = nil\n	gp.simtask = nil\n	gp.timer = nil\n"},
	},
	"runtime/rand.go": {
		{"	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	if true {\n		// Simulator: one fixed start-up seed, so that hash keys are the same in every process.\n		for i := range seed {\n			seed[i] = byte(i*37 + 11)\n		}\n	} else if len(startupRand) >= 16 &&"},
		{"	mp := getg().m\n	c := &mp.chacha8\n", "	if t := getg().simtask; t != nil {\n		return simrand(t)\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
	},
	"runtime/select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		j := simcheaprandn(uint32(norder + 1))\n"},
	},
	// Maps of up to eight entries iterate in any permutation, not just a rotation.
	"internal/runtime/maps/table.go": {
		{"			k := uintptr(it.entryIdx+it.entryOffset) % abi.SwissMapGroupSlots\n\n			if (it.group", "			k := simperm(it.entryOffset, it.entryIdx)\n\n			if (it.group"},
	},
	"sync/mutex.go": {
		{"func (m *Mutex) Lock() {\n	m.mu.Lock()\n}", "func (m *Mutex) Lock() {\n	if SimLock != nil && SimLock(func() bool { return m.mu.TryLock() }) {\n		return\n	}\n	m.mu.Lock()\n}"},
		{"func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n}", "func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	if SimUnlock != nil {\n		SimUnlock()\n	}\n}"},
	},
	"sync/rwmutex.go": {
		{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	if SimLock != nil && SimLock(rw.TryRLock) {\n		return\n	}\n"},
		{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	if SimUnlock != nil {\n		defer SimUnlock()\n	}\n"},
		{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	if SimLock != nil && SimLock(rw.TryLock) {\n		return\n	}\n"},
		{"	rw.w.Lock()\n	// Announce", "	rw.w.mu.Lock()\n	// Announce"},
		{"		rw.w.Unlock()\n		if race.Enabled {\n			race.Enable()\n		}\n		return false", "		rw.w.mu.Unlock()\n		if race.Enabled {\n			race.Enable()\n		}\n		return false"},
		{"	// Allow other writers to proceed.\n	rw.w.Unlock()\n", "	// Allow other writers to proceed.\n	rw.w.mu.Unlock()\n	if SimUnlock != nil {\n		defer SimUnlock()\n	}\n"},
	},
	// A simulated pool is one last-in first-out list that starts empty in every run.
	"sync/pool.go": {
		{"	New func() any\n}\n", "	New func() any\n\n	simMu    Mutex\n	simEpoch uint64\n	simList  []any\n}\n"},
		{"	if x == nil {\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4)", "	if x == nil {\n		return\n	}\n	if SimPool != nil {\n		if epoch := SimPool(); epoch != 0 {\n			p.simPut(epoch, x)\n			return\n		}\n	}\n	if race.Enabled {\n		if runtime_randn(4)"},
		{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n	if SimPool != nil {\n		if epoch := SimPool(); epoch != 0 {\n			return p.simGet(epoch)\n		}\n	}\n"},
	},
	"time/time.go": {
		{"	sec, nsec, mono := runtimeNow()\n	if mono == 0 {\n		return Time{uint64(nsec), sec + unixToInternal, Local}\n", "	sec, nsec, mono := runtimeNow()\n	if SimNow != nil {\n		var m int64\n		if sec, nsec, m = SimNow(sec, nsec); m > 0 {\n			mono = startNano + m\n		}\n	}\n	if mono == 0 {\n		return Time{uint64(nsec), sec + unixToInternal, Local}\n"},
	},
	"os/file.go": {
		{"syscall.Mkdir(longName, syscallMode(perm))", "syscall.Mkdir(simPath(longName), syscallMode(perm))"},
		{"	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n", "	if SimFS != nil {\n		m, e := SimFS(\"read\", f.name, int64(len(b)))\n		if e == io.EOF {\n			return 0, e\n		}\n		if e != nil {\n			return 0, &PathError{Op: \"read\", Path: f.name, Err: e}\n		}\n		b = b[:m]\n	}\n	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n"},
		{"	n, handled, e := f.readFrom(r)\n	if !handled {", "	if SimFS != nil {\n		return genericReadFrom(f, r)\n	}\n	n, handled, e := f.readFrom(r)\n	if !handled {"},
		{"	n, handled, e := f.writeTo(w)\n", "	if SimFS != nil {\n		return genericWriteTo(f, w)\n	}\n	n, handled, e := f.writeTo(w)\n"},
		{"	n, e := f.write(b)\n	if n < 0 {", "	if SimFS != nil {\n		m, e := SimFS(\"write\", f.name, int64(len(b)))\n		if e != nil {\n			if m > 0 {\n				m2, _ := f.write(b[:m])\n				m = int64(m2)\n			}\n			return int(m), &PathError{Op: \"write\", Path: f.name, Err: e}\n		}\n	}\n	n, e := f.write(b)\n	if n < 0 {"},
		{"	if off < 0 {\n		return 0, &PathError{Op: \"writeat\", Path: f.name, Err: errors.New(\"negative offset\")}\n	}\n", "	if off < 0 {\n		return 0, &PathError{Op: \"writeat\", Path: f.name, Err: errors.New(\"negative offset\")}\n	}\n	if SimFS != nil {\n		m, e := SimFS(\"write\", f.name, int64(len(b)))\n		if e != nil {\n			if m > 0 {\n				m2, _ := f.pwrite(b[:m], off)\n				m = int64(m2)\n			}\n			return int(m), &PathError{Op: \"write\", Path: f.name, Err: e}\n		}\n	}\n"},
		{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	testlog.Open(name)\n", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	if SimFS != nil {\n		op := \"open\"\n		if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {\n			op = \"create\"\n		}\n		if _, e := SimFS(op, name, int64(flag)); e != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: e}\n		}\n	}\n	testlog.Open(name)\n"},
		{"func openDir(name string) (*File, error) {\n", "func openDir(name string) (*File, error) {\n	if SimFS != nil {\n		if _, e := SimFS(\"opendir\", name, 0); e != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: e}\n		}\n	}\n"},
		{"func Rename(oldpath, newpath string) error {\n", "func Rename(oldpath, newpath string) error {\n	if SimFS != nil {\n		if _, e := SimFS(\"rename\", oldpath+\"\\x00\"+newpath, 0); e != nil {\n			return &LinkError{\"rename\", oldpath, newpath, e}\n		}\n	}\n"},
		{"func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n	if SimFS != nil {\n		if _, e := SimFS(\"mkdir\", name, 0); e != nil {\n			return &PathError{Op: \"mkdir\", Path: name, Err: e}\n		}\n	}\n"},
	},
	"os/file_posix.go": {
		{"syscall.Chmod(longName, syscallMode(mode))", "syscall.Chmod(simPath(longName), syscallMode(mode))"},
		{"	return f.file.close()\n}", "	if SimFS != nil {\n		name := f.name\n		_, e := SimFS(\"close\", name, 0)\n		err := f.file.close()\n		if err == nil && e != nil {\n			err = &PathError{Op: \"close\", Path: name, Err: e}\n		}\n		return err\n	}\n	return f.file.close()\n}"},
		{"func (f *File) Truncate(size int64) error {\n	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n", "func (f *File) Truncate(size int64) error {\n	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n	if SimFS != nil {\n		if _, e := SimFS(\"truncate\", f.name, size); e != nil {\n			return &PathError{Op: \"truncate\", Path: f.name, Err: e}\n		}\n	}\n"},
		{"func (f *File) Sync() error {\n	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n", "func (f *File) Sync() error {\n	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n	if SimFS != nil {\n		if _, e := SimFS(\"sync\", f.name, 0); e != nil {\n			return &PathError{Op: \"sync\", Path: f.name, Err: e}\n		}\n	}\n"},
	},
	"os/file_unix.go": {
		{"open(name, flag|syscall.O_CLOEXEC, syscallMode(perm))", "open(simPath(name), flag|syscall.O_CLOEXEC, syscallMode(perm))"},
		{"open(name, O_RDONLY|syscall.O_CLOEXEC|syscall.O_DIRECTORY, 0)", "open(simPath(name), O_RDONLY|syscall.O_CLOEXEC|syscall.O_DIRECTORY, 0)"},
		{"syscall.Truncate(name, size)", "syscall.Truncate(simPath(name), size)"},
		{"syscall.Unlink(name)", "syscall.Unlink(simPath(name))"},
		{"syscall.Rmdir(name)", "syscall.Rmdir(simPath(name))"},
		{"syscall.Rename(oldname, newname)", "syscall.Rename(simPath(oldname), simPath(newname))"},
		{"syscall.Readlink(name, b)", "syscall.Readlink(simPath(name), b)"},
		{"func Truncate(name string, size int64) error {\n", "func Truncate(name string, size int64) error {\n	if SimFS != nil {\n		if _, e := SimFS(\"truncate\", name, size); e != nil {\n			return &PathError{Op: \"truncate\", Path: name, Err: e}\n		}\n	}\n"},
		{"func Remove(name string) error {\n", "func Remove(name string) error {\n	if SimFS != nil {\n		if _, e := SimFS(\"remove\", name, 0); e != nil {\n			return &PathError{Op: \"remove\", Path: name, Err: e}\n		}\n	}\n"},
	},
	"os/path.go": {
		{"func RemoveAll(path string) error {\n", "func RemoveAll(path string) error {\n	if SimFS != nil {\n		if _, e := SimFS(\"remove\", path, 0); e != nil {\n			return &PathError{Op: \"unlinkat\", Path: path, Err: e}\n		}\n	}\n"},
	},
	"os/proc.go": {
		{"func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
	},
	"os/pipe2_unix.go": {
		{"func Pipe() (r *File, w *File, err error) {\n", "func Pipe() (r *File, w *File, err error) {\n	if SimPipe != nil {\n		return SimPipe()\n	}\n"},
	},
	"os/getwd.go": {
		{"func Getwd() (dir string, err error) {\n", "func Getwd() (dir string, err error) {\n	if SimWd != \"\" {\n		return SimWd, nil\n	}\n"},
	},
	"os/exec/exec.go": {
		{"func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n	if SimExec != nil {\n		if done, err := SimExec(c); done {\n			return err\n		}\n	}\n"},
		{"func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n	if SimWait != nil {\n		if done, err := SimWait(c); done {\n			return err\n		}\n	}\n"},
	},
	"os/exec_posix.go": {
		{"func startProcess(name string, argv []string, attr *ProcAttr) (p *Process, err error) {\n", "func startProcess(name string, argv []string, attr *ProcAttr) (p *Process, err error) {\n	if SimFS != nil {\n		if _, e := SimFS(\"exec\", name, 0); e != nil {\n			return nil, &PathError{Op: \"fork/exec\", Path: name, Err: e}\n		}\n	}\n"},
	},
	"os/stat.go": {
		{"func Stat(name string) (FileInfo, error) {\n", "func Stat(name string) (FileInfo, error) {\n	if SimFS != nil {\n		if _, e := SimFS(\"stat\", name, 0); e != nil {\n			return nil, &PathError{Op: \"stat\", Path: name, Err: e}\n		}\n	}\n"},
		{"func Lstat(name string) (FileInfo, error) {\n", "func Lstat(name string) (FileInfo, error) {\n	if SimFS != nil {\n		if _, e := SimFS(\"stat\", name, 0); e != nil {\n			return nil, &PathError{Op: \"lstat\", Path: name, Err: e}\n		}\n	}\n"},
	},
}

var added = map[string]string{
	"runtime/zsim.go": `package runtime

import "unsafe"

// SimNewproc, if set, is called by a simulator task that starts a goroutine. fn is the function
// value to run. It returns the task to attach to the new goroutine and the function value to run
// instead.
var SimNewproc func(parent, fn unsafe.Pointer) (task, newfn unsafe.Pointer)

// SimTask returns the simulator task attached to the calling goroutine, or nil.
func SimTask() unsafe.Pointer { return getg().simtask }

// SimSetTask attaches a task to the calling goroutine. The first word of *p is the state of the
// random source that replaces the runtime's own for this goroutine.
func SimSetTask(p unsafe.Pointer) { getg().simtask = p }

//go:nosplit
func simrand(t unsafe.Pointer) uint64 {
	s := (*uint64)(t)
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simcheaprandn(n uint32) uint32 {
	if t := getg().simtask; t != nil {
		return uint32((uint64(uint32(simrand(t))) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

// SimBubbleRun and SimBubbleWait are internal/synctest.Run and Wait.
func SimBubbleRun(f func()) { synctestRun(f) }
func SimBubbleWait()        { synctestWait() }

// SimUsleep really sleeps, whatever the bubble's clock says.
func SimUsleep(us uint32) { usleep(us) }
`,
	"internal/runtime/maps/zsim.go": `package maps

import "internal/abi"

// simperm returns element i of the permutation of the slots of a group that r selects.
func simperm(r, i uint64) uintptr {
	var p [abi.SwissMapGroupSlots]uint8
	for j := range p {
		p[j] = uint8(j)
	}
	for j := uint64(len(p) - 1); j > 0; j-- {
		k := r % (j + 1)
		r /= j + 1
		p[j], p[k] = p[k], p[j]
	}
	return uintptr(p[i])
}
`,
	"sync/zsim.go": `package sync

import "internal/race"

// SimLock, if set, is asked to take a lock by calling try until it succeeds. It reports false when
// the caller is not simulated and has to take the lock itself.
var SimLock func(try func() bool) bool

// SimUnlock, if set, is called after every unlock.
var SimUnlock func()

// SimPool, if set, returns the number of the simulated run the caller belongs to, or 0.
var SimPool func() uint64

func (p *Pool) simPut(epoch uint64, x any) {
	if race.Enabled {
		race.ReleaseMerge(poolRaceAddr(x))
		race.Disable()
	}
	p.simMu.mu.Lock()
	if p.simEpoch != epoch {
		p.simEpoch, p.simList = epoch, nil
	}
	p.simList = append(p.simList, x)
	p.simMu.mu.Unlock()
	if race.Enabled {
		race.Enable()
	}
}

func (p *Pool) simGet(epoch uint64) any {
	if race.Enabled {
		race.Disable()
	}
	var x any
	p.simMu.mu.Lock()
	if p.simEpoch == epoch && len(p.simList) > 0 {
		x = p.simList[len(p.simList)-1]
		p.simList = p.simList[:len(p.simList)-1]
	}
	p.simMu.mu.Unlock()
	if race.Enabled {
		race.Enable()
		if x != nil {
			race.Acquire(poolRaceAddr(x))
		}
	}
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
`,
	"time/zsim.go": `package time

// SimNow, if set, maps the wall clock reading that Now would return to the simulated one, and says
// what the monotonic clock shows (0: nothing).
var SimNow func(sec int64, nsec int32) (int64, int32, int64)

// SimRawNow is the wall clock in nanoseconds without SimNow.
func SimRawNow() int64 {
	sec, nsec, _ := runtimeNow()
	return sec*1e9 + int64(nsec)
}
`,
	"os/exec/zsim.go": `package exec

// SimExec and SimWait, if set, may take the place of Start and Wait.
var SimExec, SimWait func(c *Cmd) (done bool, err error)
`,
	"os/zsim.go": `package os

// SimFS, if set, is told of every file operation before it happens. It returns how many of n bytes
// a read or write may transfer and the error to report, if any.
var SimFS func(op, path string, n int64) (int64, error)

// SimPrefix, if set, is a directory name that stands for the directory SimReal, so that programs
// see the same paths in every process.
var SimPrefix, SimReal string

// SimWd, if set, is the working directory.
var SimWd string

// SimPipe, if set, takes the place of Pipe.
var SimPipe func() (r, w *File, err error)

// SimExit, if set, is called by Exit.
var SimExit func(code int)

func simPath(p string) string {
	if SimWd != "" && len(p) > 0 && p[0] != '/' {
		p = SimWd + "/" + p
	}
	if n := len(SimPrefix); n > 0 && len(p) >= n && p[:n] == SimPrefix && (len(p) == n || p[n] == '/') {
		return SimReal + p[n:]
	}
	return p
}
`,
}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: stdoverlay GOROOT OUTDIR")
		os.Exit(2)
	}
	src, out := filepath.Join(os.Args[1], "src"), os.Args[2]
	replace := map[string]string{}
	put := func(name, text string) {
		dst := filepath.Join(out, strings.ReplaceAll(name, "/", "__"))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			fatal(err)
		}
		replace[filepath.Join(src, name)] = dst
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	for name, es := range edits {
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			fatal(err)
		}
		text := string(b)
		for _, e := range es {
			if n := strings.Count(text, e.old); n != 1 {
				fatal(fmt.Errorf("%s: %d matches for %q", name, n, e.old))
			}
			text = strings.Replace(text, e.old, e.new, 1)
		}
		put(name, text)
	}
	for name, text := range added {
		put(name, text)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "std.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "stdoverlay:", err)
	os.Exit(2)
}
