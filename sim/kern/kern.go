// Package kern is the simulated machine under a node: a file system, a
// terminal, a source of randomness and a scheduler behind the system-call
// boundary of the Go standard library.
package kern

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"verif/sim/wire"
	"verif/sim/yield"
)

const (
	fdBase   = 1000
	oRead    = 1
	oWrite   = 2
	baseCost = 1000 // simulated ns per call
)

type inode struct {
	id         int
	typ        string
	mode       uint32
	data       []byte
	virt       int64 // zeros: its size
	sink       *sink // its contents are digested only
	kids       map[string]*inode
	chunks     []int
	chunkIdx   int
	inChunk    int
	everPublic bool
	nlink      int
	mtime      int64
	touched    int            // changes of owner or times
	locks      map[*ofile]int // flock: 1 shared, 2 exclusive
	// durability
	durable []byte
	split   bool // data no longer shares memory with durable
	isNew   bool
	dirty   bool
}

type ofile struct {
	ino    *inode
	path   string
	off    int64
	flags  int
	append bool
	wrote  bool
	tty    bool
	out    *[]byte
	dirOff int
}

type metaOp struct{ undo func() }

// Kernel is the whole machine.
type Kernel struct {
	mu     sync.Mutex
	req    *wire.Req
	root   *inode
	inoN   int
	fds    map[int]*ofile
	hugeFd int
	hugeF  *ofile
	umask  uint32
	cwd    string

	events   map[[2]int][]wire.Event
	count    map[int]int
	diskFree int64 // <0: unlimited
	pending  map[*ofile]wire.Event

	meta []metaOp

	steps    int
	now      int64
	hash     uint64
	switches int

	Resp   *wire.Resp
	OpOf   map[int]int // current op per task
	lastCl map[int]int // index+1 into Resp.Classes

	// scheduler
	multi   bool
	shared  bool // several tasks ran
	base    int  // goroutines before a single task started its own
	cur     int
	waiting []yieldReq
	moves   int
	seq     int

	// statements
	stmts   map[int]*yield.State
	stmtEvs map[[2]int][]wire.Event // by task and site, in order of visits

	// terminal
	termios  [60]byte
	termOrig [60]byte
	tty      [][]byte
	ttyIdx   int
	ttyEOFs  int
	ttyOff   int

	entropyN map[int]int
	goids    map[int]uint64
	rtRand   map[int]uint32
	sleeping int64 // asked for at the next crossing
	Finish   func(status, detail string, code int)
	watchSec bool
}

// New builds the machine from a request.
func New(req *wire.Req) *Kernel {
	k := &Kernel{req: req, fds: map[int]*ofile{}, umask: req.Umask, cwd: req.Cwd, diskFree: -1,
		events: map[[2]int][]wire.Event{}, count: map[int]int{}, OpOf: map[int]int{}, lastCl: map[int]int{},
		entropyN: map[int]int{}, goids: map[int]uint64{}, rtRand: map[int]uint32{}, pending: map[*ofile]wire.Event{}, hash: 14695981039346656037,
		Resp: &wire.Resp{Calls: map[string]int{}, Threaded: map[int]bool{}}}
	k.stmts, k.stmtEvs = map[int]*yield.State{}, map[[2]int][]wire.Event{}
	for _, e := range req.Events {
		if e.Kind == "stmt" {
			key := [2]int{e.Task, e.Site & (yield.Max - 1)}
			k.stmtEvs[key] = append(k.stmtEvs[key], e)
			continue
		}
		key := [2]int{e.Task, e.N}
		k.events[key] = append(k.events[key], e)
	}
	for _, l := range k.stmtEvs {
		sort.SliceStable(l, func(i, j int) bool { return l[i].N < l[j].N })
	}
	yield.Hook = k.stmt
	yield.Limit = req.StmtLimit
	yield.Over = func() {
		k.mu.Lock()
		k.Finish("steplimit", fmt.Sprintf("%d statements", yield.Total), 0)
	}
	k.root = k.newInode("dir", 0755)
	if k.cwd == "" {
		k.cwd = "/"
	}
	k.mkdirAll(k.cwd)
	img := append([]wire.File(nil), req.Image...)
	sort.SliceStable(img, func(i, j int) bool { return img[i].Path < img[j].Path })
	for _, f := range img {
		if f.Type == "dir" {
			d := k.mkdirAll(f.Path)
			d.mode = f.Mode
			continue
		}
		i := strings.LastIndex(f.Path, "/")
		d := k.mkdirAll(f.Path[:i+1])
		n := k.newInode(f.Type, f.Mode)
		n.isNew = false
		n.mtime += k.age(f.Path)
		n.data = append([]byte(nil), f.Data...)
		n.virt = f.Virt
		n.durable = n.data
		left := len(f.Data) // the pieces always make up the data
		for _, c := range f.Chunks {
			if c > left {
				c = left
			}
			if c > 0 {
				n.chunks = append(n.chunks, c)
				left -= c
			}
		}
		if f.Type == "fifo" && left > 0 {
			n.chunks = append(n.chunks, left)
		}
		n.nlink = 1
		d.kids[f.Path[i+1:]] = n
	}
	for _, r := range []struct {
		p, t string
	}{{"/dev/null", "null"}, {"/dev/zero", "zero"}, {"/dev/urandom", "urandom"}, {"/dev/random", "urandom"}, {"/dev/tty", "tty"}, {"/dev/stdin", "tty"}, {"/dev/stdout", "stdout"}} {
		d := k.mkdirAll("/dev")
		n := k.newInode(r.t, 0666)
		d.kids[r.p[5:]] = n
	}
	k.mkdirAll("/tmp").mode = 01777
	k.fds[0] = &ofile{path: "<stdin>", flags: oRead, tty: true}
	k.fds[1] = &ofile{path: "<stdout>", flags: oWrite, out: &k.Resp.Stdout}
	k.fds[2] = &ofile{path: "<stderr>", flags: oWrite, out: &k.Resp.Stderr}
	// a plausible cooked terminal: ECHO|ICANON|ISIG|IEXTEN, ICRNL
	k.termios[0] = 0x00
	k.termios[1] = 0x05
	k.termios[4] = 0x05
	k.termios[8] = 0xbf
	k.termios[12] = 0x3b
	k.termios[13] = 0x8a
	k.termOrig = k.termios
	k.tty = req.TTY
	return k
}

func (k *Kernel) newInode(t string, mode uint32) *inode {
	k.inoN++
	n := &inode{id: k.inoN, typ: t, mode: mode, nlink: 1, mtime: k.clock()}
	if t == "dir" {
		n.kids = map[string]*inode{}
	}
	if mode&077 != 0 {
		n.everPublic = true
	}
	return n
}

func (k *Kernel) mkdirAll(p string) *inode {
	d := k.root
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		n := d.kids[c]
		if n == nil {
			n = k.newInode("dir", 0755)
			d.kids[c] = n
		}
		d = n
	}
	return d
}

// clock is the time of a file's change: it advances in ticks of 4 ms.
func (k *Kernel) clock() int64 { return k.now / 4000000 * 4000000 }

// CopyFile makes file to hold what file from holds, in the place of the user:
// overwritten in place, or (flag 1) renamed over; perhaps (flag 2) with the
// time of the old one. Anything but regular files is left alone.
func (k *Kernel) CopyFile(task int, from, to string, flag int) {
	k.mu.Lock()
	defer k.mu.Unlock()
	src, _, _, e := k.resolve(k.abs(from), true)
	n, d, name, e2 := k.resolve(k.abs(to), true)
	if e != 0 || e2 != 0 || src == nil || n == nil || n == src || src.typ != "" && src.typ != "proc" || n.typ != "" && n.typ != "proc" {
		return
	}
	if flag&1 != 0 {
		old := n
		n = k.newInode(old.typ, old.mode)
		n.mtime = old.mtime
		d.kids[name] = n
	}
	n.data = append([]byte(nil), src.data...)
	n.durable, n.split, n.dirty = append([]byte(nil), src.data...), true, false
	if flag&2 == 0 {
		n.mtime = k.clock()
	}
	k.note(task, "fscopy", to, int64(len(n.data)))
}

// Image returns the disk as it is now.
func (k *Kernel) Image() []wire.File {
	var out []wire.File
	var walk func(p string, d *inode)
	walk = func(p string, d *inode) {
		names := make([]string, 0, len(d.kids))
		for n := range d.kids {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c := d.kids[n]
			cp := p + "/" + n
			if c.typ == "dir" {
				if cp != "/dev" {
					out = append(out, wire.File{Path: cp, Type: "dir", Mode: c.mode})
					walk(cp, c)
				}
				continue
			}
			data := c.data
			if c.typ == "fifo" && c.chunkIdx+c.inChunk > 0 {
				continue // a consumed pipe is gone
			}
			out = append(out, wire.File{Path: cp, Type: c.typ, Mode: c.mode, Data: append([]byte(nil), data...), Chunks: c.chunks, Virt: c.virt, Sink: c.sink.summary()})
		}
	}
	walk("", k.root)
	return out
}

// Lookup returns a snapshot of one file, or nil.
func (k *Kernel) Lookup(path string) *wire.File {
	n, _, _, e := k.resolve(k.abs(path), true)
	if e != 0 || n == nil || n.typ == "dir" {
		return nil
	}
	return &wire.File{Path: k.abs(path), Type: n.typ, Mode: n.mode, Data: append([]byte(nil), n.data...), Virt: n.virt, Sink: n.sink.summary()}
}

// Prints gives a cheap fingerprint of every file.
func (k *Kernel) Prints() map[string]uint64 {
	m := map[string]uint64{}
	if dev := k.root.kids["dev"]; dev != nil {
		for n, c := range dev.kids {
			m["/dev/"+n] = fnv(14695981039346656037, []byte(c.typ))
		}
	}
	for _, f := range k.imageRefs() {
		h := uint64(14695981039346656037)
		h = fnv(h, []byte(f.Type))
		h = fnv(h, []byte{byte(f.Mode), byte(f.Mode >> 8), byte(f.Touched)})
		h = fnv(h, f.Data)
		m[f.Path] = h
	}
	return m
}

func (k *Kernel) imageRefs() []wire.File {
	var out []wire.File
	var walk func(p string, d *inode)
	walk = func(p string, d *inode) {
		for n, c := range d.kids {
			cp := p + "/" + n
			if c.typ == "dir" {
				if cp != "/dev" {
					out = append(out, wire.File{Path: cp, Type: "dir", Mode: c.mode})
					walk(cp, c)
				}
				continue
			}
			f := wire.File{Path: cp, Type: c.typ, Mode: c.mode, Data: c.data, Virt: c.virt, Touched: c.touched}
			if c.sink != nil {
				f.Data = []byte{byte(c.sink.Size), byte(c.sink.Size >> 8)}
			}
			out = append(out, f)
		}
	}
	walk("", k.root)
	return out
}

// Abs resolves a path against the working directory.
func (k *Kernel) Abs(p string) string { return k.abs(p) }

func (k *Kernel) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = k.cwd + "/" + p
	}
	var parts []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, c)
		}
	}
	return "/" + strings.Join(parts, "/")
}

// resolve returns the inode (nil if only the last component is missing), its
// parent and its name.
func (k *Kernel) resolve(p string, follow bool) (n, parent *inode, name string, e syscall.Errno) {
	for depth := 0; depth < 10; depth++ {
		parts := strings.Split(strings.Trim(p, "/"), "/")
		d := k.root
		if p == "/" || p == "" {
			return d, nil, "", 0
		}
		restart := ""
		for i, c := range parts {
			if len(c) > 255 {
				return nil, nil, "", syscall.ENAMETOOLONG
			}
			if d.typ != "dir" {
				return nil, nil, "", syscall.ENOTDIR
			}
			x := d.kids[c]
			last := i == len(parts)-1
			if x != nil && x.typ == "link" && (!last || follow) {
				t := string(x.data)
				if !strings.HasPrefix(t, "/") {
					t = "/" + strings.Join(parts[:i], "/") + "/" + t
				}
				if !last {
					t += "/" + strings.Join(parts[i+1:], "/")
				}
				restart = k.abs(t)
				break
			}
			if last {
				return x, d, c, 0
			}
			if x == nil {
				return nil, nil, "", syscall.ENOENT
			}
			d = x
		}
		if restart == "" {
			return nil, nil, "", syscall.ENOENT
		}
		p = restart
	}
	return nil, nil, "", syscall.ELOOP
}

func fnv(h uint64, b []byte) uint64 {
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func (k *Kernel) note(task int, class, path string, r int64) {
	b := [9]byte{byte(task)}
	for i := uint(0); i < 8; i++ {
		b[1+i] = byte(r >> (8 * i))
	}
	h := fnv(k.hash, []byte(class))
	h = fnv(h, []byte(path))
	k.hash = fnv(h, b[:])
}

// ---- seam crossings ----

type yieldReq struct {
	task int
	at   int64
	seq  int
	ch   chan struct{}
}

// me is the task of the running goroutine, which may be one that the program
// started itself.
func (k *Kernel) me() int {
	t := runtime.SimTask() - 1
	if t < 0 || !k.multi {
		return k.cur
	}
	if t != k.cur {
		k.cur = t
		yield.Cur = k.stmtState(t)
	}
	return t
}

// Cross is one seam crossing of the current task: it applies delays, hands
// control to the scheduler, and returns the other events placed here.
func (k *Kernel) cross(class, path string, length int) (int, []wire.Event) {
	task := k.me()
	if g := runtime.SimGoid(); k.goids[task] == 0 {
		k.goids[task] = g
	} else if k.goids[task] != g {
		k.Resp.Threaded[task] = true
	}
	n := k.count[task]
	k.count[task] = n + 1
	k.steps++
	if !k.req.Quiet {
		op := k.OpOf[task]
		if li := k.lastCl[task]; li > 0 {
			c := &k.Resp.Classes[li-1]
			if c.Name == class && c.Op == op && c.Path == path {
				c.Count++
				if length > c.Len {
					c.Len = length
				}
				goto counted
			}
		}
		k.Resp.Classes = append(k.Resp.Classes, wire.Class{Task: task, Op: op, Name: class, Path: path, Count: 1, Len: length})
		k.lastCl[task] = len(k.Resp.Classes)
	}
counted:
	k.Resp.Calls[class]++
	if k.steps > k.req.StepLimit {
		k.Finish("steplimit", class+" "+path, 0)
	}
	cost := int64(baseCost) + k.sleeping
	delayed := k.sleeping
	k.sleeping = 0
	var evs []wire.Event
	if len(k.events) > 0 {
		for _, e := range k.events[[2]int{task, n}] {
			if e.Kind == "delay" {
				cost += e.Arg
				delayed += e.Arg
				k.fired(e, task, class, path)
				continue
			}
			evs = append(evs, e)
		}
	}
	if !k.multi {
		k.now += cost
		if k.threaded() {
			k.Resp.Threaded[task] = true
			if delayed > 0 {
				k.letOthers(delayed)
			}
		}
		return task, evs
	}
	k.seq++
	y := yieldReq{task: task, at: k.now + cost, seq: k.seq}
	best := k.earliest()
	if best < 0 || y.at < k.waiting[best].at { // still first (an equal time was asked for earlier)
		if y.at > k.now {
			k.now = y.at
		}
		return task, evs
	}
	y.ch = wakePool.Get().(chan struct{})
	k.waiting = append(k.waiting, y)
	k.dispatch(best)
	k.mu.Unlock()
	<-y.ch
	k.mu.Lock()
	wakePool.Put(y.ch)
	return task, evs
}

// threaded tells whether the only task runs goroutines of its own.
func (k *Kernel) threaded() bool {
	return k.base > 0 && runtime.NumGoroutine() > k.base
}

// letOthers gives the processor to the other goroutines of a single task, for
// a number of turns that depends on the delay.  The kernel is locked.
func (k *Kernel) letOthers(delay int64) {
	k.mu.Unlock()
	for i := delay % 61; i >= 0; i-- {
		runtime.Gosched()
	}
	k.mu.Lock()
}

// Settle lets goroutines that the program left behind finish what they do.
func (k *Kernel) Settle() {
	for i := 0; i < 2000 && k.threaded(); i++ {
		k.letOthers(0)
	}
}

// RuntimeRand stands in for the runtime's randomness (names of temporary
// files, math/rand).
func (k *Kernel) RuntimeRand() uint64 {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.me()
	k.rtRand[k.cur]++
	h := fnv(fnv(14695981039346656037, k.req.Entropy), []byte{byte(k.cur), byte(k.rtRand[k.cur]), byte(k.rtRand[k.cur] >> 8)})
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

// age is how far the time of a file that was there before lies from now: it may
// come from a machine with another clock, or this clock may have been set back.
func (k *Kernel) age(path string) int64 {
	h := fnv(fnv(14695981039346656037, k.req.Entropy), []byte(path))
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	span := []int64{0, 0, 1, -1, 3600, -3600, 2 * 365 * 86400, -2 * 365 * 86400}[h%8]
	return span * 1e9
}

// Now is the simulated clock; where it starts differs from run to run.
func (k *Kernel) Now() int64 {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.epoch() + k.now
}

func (k *Kernel) epoch() int64 {
	return int64(fnv(14695981039346656037, k.req.Entropy)%(60*365*86400)) * 1e9
}

// Sleep lets simulated time pass.
func (k *Kernel) Sleep(ns int64) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if ns < 0 {
		ns = 0
	}
	k.sleeping = ns
	task, _ := k.cross("sleep", "", 0)
	k.note(task, "sleep", "", ns)
}

// stmtState is the statement counter of a task, armed with its next events.
func (k *Kernel) stmtState(task int) *yield.State {
	s := k.stmts[task]
	if s == nil {
		s = &yield.State{}
		k.stmts[task] = s
		for key, l := range k.stmtEvs {
			if key[0] == task {
				s.Trig[key[1]] = uint32(l[0].N)
			}
		}
	}
	return s
}

// stmt is a preemption before a statement.
func (k *Kernel) stmt(site int) {
	k.mu.Lock()
	task := k.cur
	key := [2]int{task, site}
	l := k.stmtEvs[key]
	s := k.stmts[task]
	if len(l) == 0 || s == nil {
		k.mu.Unlock()
		return
	}
	e := l[0]
	for len(l) > 0 && l[0].N <= int(s.N[site]) {
		l = l[1:]
	}
	k.stmtEvs[key] = l
	s.Trig[site] = 0
	if len(l) > 0 {
		s.Trig[site] = uint32(l[0].N)
	}
	if !k.multi {
		if k.threaded() {
			k.fired(e, task, "stmt", "")
			k.note(task, "stmt", "", int64(site))
			k.letOthers(e.Arg)
		}
		k.mu.Unlock()
		return
	}
	k.fired(e, task, "stmt", "")
	k.note(task, "stmt", "", int64(site))
	k.seq++
	y := yieldReq{task: k.me(), at: k.now + e.Arg, seq: k.seq}
	best := k.earliest()
	if best < 0 || y.at < k.waiting[best].at {
		if y.at > k.now {
			k.now = y.at
		}
		k.mu.Unlock()
		return
	}
	y.ch = wakePool.Get().(chan struct{})
	k.waiting = append(k.waiting, y)
	k.dispatch(best)
	k.mu.Unlock()
	<-y.ch
	wakePool.Put(y.ch)
}

var wakePool = sync.Pool{New: func() interface{} { return make(chan struct{}, 1) }}

// earliest is the waiting call that completes first, or -1.
func (k *Kernel) earliest() int {
	best := -1
	for i := range k.waiting {
		y := &k.waiting[i]
		if best < 0 || y.at < k.waiting[best].at || (y.at == k.waiting[best].at && y.seq < k.waiting[best].seq) {
			best = i
		}
	}
	return best
}

// dispatch completes the waiting call i: its task runs from here on.
func (k *Kernel) dispatch(i int) {
	y := k.waiting[i]
	k.waiting = append(k.waiting[:i], k.waiting[i+1:]...)
	if y.at > k.now {
		k.now = y.at
	}
	if y.task != k.cur {
		k.switches++
	}
	k.cur = y.task
	yield.Cur = k.stmtState(y.task)
	k.moves++
	y.ch <- struct{}{}
}

func (k *Kernel) fired(e wire.Event, task int, class, path string) {
	k.Resp.Fired = append(k.Resp.Fired, wire.Fired{Event: e, Op: k.OpOf[task], Class: class, Path: path})
}

// RunTasks runs task bodies under the scheduler: exactly one task runs at a
// time; the pending call with the earliest completion time is completed next.
func (k *Kernel) RunTasks(ids []int, body func(id int)) {
	if len(ids) == 0 {
		return
	}
	if len(ids) == 1 {
		k.cur = ids[0]
		yield.Cur = k.stmtState(ids[0])
		onBigStack(func() {
			k.base = runtime.NumGoroutine()
			runtime.SimReset()
			body(ids[0])
			k.base = 0
		})
		return
	}
	k.mu.Lock()
	k.multi, k.shared = true, true
	runtime.SimReset()
	done := make(chan struct{})
	left := len(ids)
	for _, id := range ids {
		// every task first waits to be scheduled
		id := id
		y := yieldReq{task: id, at: k.now + int64(id), seq: id, ch: make(chan struct{}, 1)}
		k.waiting = append(k.waiting, y)
		go func() {
			runtime.SimSetTask(id + 1)
			<-y.ch
			onBigStack(func() { body(id) })
			k.mu.Lock()
			left--
			if i := k.earliest(); i >= 0 {
				k.dispatch(i)
			}
			over := left == 0
			k.mu.Unlock()
			if over {
				close(done)
			}
		}()
	}
	k.seq = len(ids) + 1
	k.dispatch(k.earliest())
	k.mu.Unlock()
	// When the running task waits for another one in a way that is not a
	// call (a lock, a channel), nothing moves any more: let the next one run.
	last, idle := -1, 0
	for {
		select {
		case <-done:
			k.mu.Lock()
			k.multi = false
			k.mu.Unlock()
			return
		default:
		}
		runtime.Gosched()
		k.mu.Lock()
		if now := k.steps + k.moves + int(yield.Total); now != last {
			last, idle = now, 0
		} else if idle++; idle > 20000 {
			idle = 0
			if i := k.earliest(); i >= 0 {
				k.dispatch(i)
			}
		}
		k.mu.Unlock()
	}
}

// onBigStack runs f with a stack that was grown beforehand, so that it does
// not move under pointers that were passed as integers.
func onBigStack(f func()) {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		grow(200)
		f()
	}()
	<-ch
}

//go:noinline
func grow(n int) byte {
	var b [4096]byte
	if n > 0 {
		b[n] = grow(n - 1)
	}
	return b[n/2]
}

// Stats fills the summary fields of the response.
func (k *Kernel) Stats() {
	k.Resp.Hash = k.hash
	k.Resp.Steps = k.steps
	k.Resp.SimNs = k.now
	k.Resp.Switches = k.switches
	k.Resp.TTYDirty = k.termios != k.termOrig
	n := 0
	for _, c := range k.entropyN {
		n += c
	}
	k.Resp.EntropyN = n
	k.Resp.Stmts = yield.Total
	if (k.shared || len(k.Resp.Threaded) > 0) && !k.req.Quiet {
		for t, s := range k.stmts {
			for i, n := range s.N {
				if n > 0 {
					k.Resp.Sites = append(k.Resp.Sites, wire.Site{Task: t, Site: i, Count: int(n)})
				}
			}
		}
		sort.Slice(k.Resp.Sites, func(i, j int) bool {
			a, b := k.Resp.Sites[i], k.Resp.Sites[j]
			return a.Task < b.Task || a.Task == b.Task && a.Site < b.Site
		})
	}
}

// OpenFiles lists the open descriptors.
func (k *Kernel) OpenFiles() map[int]string {
	m := map[int]string{}
	for fd, f := range k.fds {
		m[fd] = f.path
	}
	return m
}

// Steps so far.
func (k *Kernel) Steps() int { return k.steps }

// Cur is the running task.
func (k *Kernel) Cur() int { return k.cur }

// Lock and Unlock protect the kernel for code outside the hook.
func (k *Kernel) Lock() { k.mu.Lock() }

// Unlock see Lock.
func (k *Kernel) Unlock() { k.mu.Unlock() }

// TTYState tells whether the settings differ from the initial ones.
func (k *Kernel) TTYDirty() bool { return k.termios != k.termOrig }

// SetTTY installs a terminal input script.
func (k *Kernel) SetTTY(s [][]byte) { k.tty, k.ttyIdx, k.ttyOff, k.ttyEOFs = s, 0, 0, 0 }

// UserPoint is a seam crossing outside the system-call boundary (prompts,
// stream arguments).  It returns the events placed there.
func (k *Kernel) UserPoint(class, what string, length int) []wire.Event {
	k.mu.Lock()
	defer k.mu.Unlock()
	task, evs := k.cross(class, what, length)
	for _, e := range evs {
		if e.Kind == "crash" || e.Kind == "power" {
			k.fired(e, task, class, what)
			k.crash(e)
		}
	}
	k.note(task, class, what, int64(length))
	return evs
}

// Fire records that a user-point event took effect.
func (k *Kernel) Fire(e wire.Event, class, what string) {
	k.mu.Lock()
	k.me()
	k.fired(e, k.cur, class, what)
	k.note(k.cur, "!"+e.Kind, what, e.Arg)
	k.mu.Unlock()
}

func (k *Kernel) crash(e wire.Event) {
	if e.Kind == "power" {
		k.powerLoss(uint64(e.Arg2))
	}
	k.Finish("crash", "", 0)
}

// powerLoss discards unsynced state: the latest metadata operations may be
// undone, and the unsynced content of each file is kept, lost, cut or zeroed.
func (k *Kernel) powerLoss(seed uint64) {
	r := seed*2862933555777941757 + 3037000493
	next := func(n int) int {
		r = r*6364136223846793005 + 1442695040888963407
		return int((r >> 33) % uint64(n))
	}
	if len(k.meta) > 0 {
		keep := next(len(k.meta) + 1)
		for i := len(k.meta) - 1; i >= keep; i-- {
			k.meta[i].undo()
		}
	}
	var walk func(d *inode)
	walk = func(d *inode) {
		names := make([]string, 0, len(d.kids))
		for n := range d.kids {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c := d.kids[n]
			if c.typ == "dir" {
				walk(c)
				continue
			}
			if c.typ != "" || !c.dirty {
				continue
			}
			switch next(5) {
			case 0:
			case 1:
				c.data = append([]byte(nil), c.durable...)
			case 2:
				c.data = nil
			case 3:
				if len(c.data) > 0 {
					c.data = c.data[:next(len(c.data))]
				}
			case 4: // size reached the disk, a tail of the data did not
				if len(c.data) > 0 {
					at := next(len(c.data))
					d := append([]byte(nil), c.data...)
					for i := at; i < len(d); i++ {
						d[i] = 0
					}
					c.data = d
				}
			}
		}
	}
	walk(k.root)
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	var b []byte
	for i := uintptr(0); ; i++ {
		c := *(*byte)(ptr(p + i))
		if c == 0 {
			return string(b)
		}
		b = append(b, c)
	}
}

func ptr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }

func mem(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return (*[1 << 40]byte)(ptr(p))[:n:n]
}
