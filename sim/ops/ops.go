// Package ops drives the real psignify packages inside a node process.
package ops

import (
	"bufio"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"

	"verif/sim/kern"
	"verif/sim/wire"
)

type slot struct {
	priv *signify.Private
	pub  *signify.Public
}

type opState struct {
	answers []wire.Answer
	handed  [][]byte
	res     *wire.Result
}

type node struct {
	k      *kern.Kernel
	req    *wire.Req
	slots  map[int]*slot
	states map[int]*opState
	prompt func(bool) ([]byte, error)
	realIn io.Reader
}

// Boot runs one incarnation if this process was started as a node; otherwise
// it does nothing.
func Boot(main func()) {
	if os.Getenv("VERIF_SIM_NODE") != "1" {
		return
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	var req wire.Req
	if err := gob.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16)).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, "node: bad request:", err)
		syscall.Exit(97)
	}
	k := kern.New(&req)
	n := &node{k: k, req: &req, slots: map[int]*slot{}, states: map[int]*opState{}, prompt: signify.PassphrasePrompt}
	k.Finish = n.finish
	os.Clearenv()
	syscall.SimReader = kern.Rand{K: k}.Read
	syscall.SimExit = func(code int) { k.Lock(); n.finish("exit", "", code) }
	syscall.SimFatal = func(msg string) { k.Lock(); n.finish("fatal", msg, 2) }
	syscall.SimRand, syscall.SimNow, syscall.SimSleep = k.RuntimeRand, k.Now, k.Sleep
	if req.CLI != nil {
		for _, e := range req.CLI.Env {
			if i := strings.IndexByte(e, '='); i > 0 {
				os.Setenv(e[:i], e[i+1:])
			}
		}
		os.Args = append([]string{"psignify"}, req.CLI.Args...)
		syscall.SimHook = k.Hook
		k.OpOf[0] = 0
		k.RunTasks([]int{0}, func(int) {
			defer func() {
				if r := recover(); r != nil {
					k.Lock()
					n.finish("panic", fmt.Sprint(r)+"\n"+string(debug.Stack()), 2)
				}
			}()
			main()
		})
		k.Lock()
		n.finish("exit", "", 0)
	}
	signify.PassphrasePrompt = n.answer
	syscall.SimHook = k.Hook
	if len(req.Prologue) > 0 {
		k.RunTasks([]int{0}, func(int) { n.runOps(0, req.Prologue, true, true) })
	}
	var ids []int
	for _, t := range req.Tasks {
		ids = append(ids, t.ID)
	}
	byID := map[int]wire.Task{}
	for _, t := range req.Tasks {
		byID[t.ID] = t
	}
	k.RunTasks(ids, func(id int) { n.runOps(id, byID[id].Ops, false, len(ids) == 1) })
	k.Lock()
	n.finish("done", "", 0)
}

// finish ends the incarnation; it is called with the kernel locked and does
// not return.
func (n *node) finish(status, detail string, code int) {
	// From here on only this goroutine may call the real system; others that
	// the program still runs are held at their next call.
	me := runtime.SimGoid()
	syscall.SimHook = func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno, handled bool) {
		if runtime.SimGoid() != me {
			select {}
		}
		return 0, 0, 0, false
	}
	syscall.SimRand, syscall.SimNow, syscall.SimSleep = nil, nil, nil
	k := n.k
	k.Resp.Status, k.Resp.Detail, k.Resp.Code = status, detail, code
	k.Stats()
	k.Resp.Image = k.Image()
	for fd, p := range k.OpenFiles() {
		if fd > 2 {
			k.Resp.OpenEnd = append(k.Resp.OpenEnd, p)
		}
	}
	sort.Strings(k.Resp.OpenEnd)
	w := bufio.NewWriterSize(os.NewFile(1, "out"), 1<<16)
	if err := gob.NewEncoder(w).Encode(k.Resp); err != nil {
		fmt.Fprintln(os.Stderr, "node:", err)
		syscall.Exit(98)
	}
	w.Flush()
	syscall.Exit(0)
}

// answer is the scripted passphrase prompt.
func (n *node) answer(confirm bool) ([]byte, error) {
	st := n.states[n.k.Cur()]
	evs := n.k.UserPoint("prompt", "", 0)
	if st == nil {
		return nil, errors.New("sim: prompt outside an operation")
	}
	st.res.Prompts++
	st.res.Confirms = append(st.res.Confirms, confirm)
	for _, e := range evs {
		if e.Kind == "err" {
			n.k.Fire(e, "prompt", "")
			return nil, errors.New("sim: prompt failed")
		}
	}
	if len(st.answers) == 0 {
		return nil, errors.New("sim: no answer")
	}
	a := st.answers[0]
	st.answers = st.answers[1:]
	if a.Err != "" {
		return nil, errors.New(a.Err)
	}
	b := append(make([]byte, 0, len(a.Pass)+8), a.Pass...)
	st.handed = append(st.handed, b)
	return b, nil
}

func watch(o wire.Op) []string {
	switch o.Kind {
	case "gen":
		return []string{o.A + ".sec", o.A + ".pub"}
	case "sign", "verify":
		if o.C == "" {
			return []string{o.A, o.B, o.B + ".sig"}
		}
	case "seal":
		if o.C == "" {
			return []string{o.A, o.B, o.B + ".enc"}
		}
	}
	return []string{o.A, o.B, o.C}
}

func (n *node) snap(o wire.Op) []wire.File {
	if !n.req.Snapshots {
		return nil
	}
	var out []wire.File
	for _, p := range watch(o) {
		if p == "" {
			continue
		}
		if f := n.k.Lookup(p); f != nil {
			out = append(out, *f)
		}
	}
	return out
}

func (n *node) runOps(task int, ops []wire.Op, prologue, alone bool) {
	k := n.k
	for i, o := range ops {
		idx := i
		if prologue {
			idx = -1 - i
		}
		k.Lock()
		k.OpOf[task] = idx
		k.Resp.Results = append(k.Resp.Results, wire.Result{Task: task, Op: idx, Started: true, Before: n.snap(o)})
		ri := len(k.Resp.Results) - 1
		res := &wire.Result{Task: task, Op: idx, Started: true, Done: true, Before: k.Resp.Results[ri].Before}
		var before map[string]uint64
		if alone && n.req.Snapshots {
			before = k.Prints()
		}
		fds := k.OpenFiles()
		steps := k.Steps()
		k.Unlock()
		st := &opState{answers: o.Prompt, res: res}
		n.states[task] = st
		err := n.call(o, res)
		if err != nil {
			res.Failed = true
			res.Err = err.Error()
		}
		k.Lock()
		res.Steps = k.Steps() - steps
		res.Wiped = true
		for _, h := range st.handed {
			for _, c := range h {
				if c != 0 {
					res.Wiped = false
				}
			}
		}
		if alone {
			if before != nil {
				after := k.Prints()
				for p, h := range after {
					if b, ok := before[p]; !ok {
						res.Appeared = append(res.Appeared, p)
					} else if b != h {
						res.Changed = append(res.Changed, p)
					}
				}
				for p := range before {
					if _, ok := after[p]; !ok {
						res.Changed = append(res.Changed, p)
					}
				}
				sort.Strings(res.Changed)
				sort.Strings(res.Appeared)
			}
		}
		res.After = n.snap(o)
		if alone {
			k.Settle() // (a file is closed once the last call on it has returned)
			for fd, p := range k.OpenFiles() {
				if _, ok := fds[fd]; !ok {
					res.Leaked++
					res.LeakPaths = append(res.LeakPaths, p)
				}
			}
			for fd, p := range fds {
				if _, ok := k.OpenFiles()[fd]; !ok {
					res.Leaked++
					res.LeakPaths = append(res.LeakPaths, "closed:"+p)
				}
			}
			sort.Strings(res.LeakPaths)
		}
		k.Resp.Results[ri] = *res
		k.Unlock()
	}
}

func (n *node) call(o wire.Op, res *wire.Result) (err error) {
	defer func() {
		if r := recover(); r != nil {
			res.Panic = fmt.Sprint(r)
			if res.Panic == "" {
				res.Panic = "panic"
			}
			err = errors.New("panic: " + res.Panic)
		}
	}()
	k := n.k
	get := func() *slot {
		k.Lock()
		defer k.Unlock()
		s := n.slots[o.Slot]
		if s == nil {
			s = &slot{}
			n.slots[o.Slot] = s
		}
		return s
	}
	opts := func() *signify.GenerateOptions {
		if o.Rounds == 0 && o.Flag == 0 {
			return nil
		}
		return &signify.GenerateOptions{Rounds: o.Rounds}
	}
	switch o.Kind {
	case "sign":
		return signify.Sign(o.A, o.B, o.C)
	case "verify":
		return signify.Verify(o.A, o.B, o.C)
	case "seal":
		return crypto.Seal(o.A, o.B, o.C)
	case "open":
		return crypto.Open(o.A, o.B, o.C)
	case "gen":
		return signify.GenerateKey(o.A, append([]byte(nil), o.Pass...), opts())
	case "genpair":
		priv, pub, err := signify.GenerateKeypair(append([]byte(nil), o.Pass...), opts())
		s := get()
		s.priv, s.pub = priv, pub
		return err
	case "loadpriv":
		s := get()
		s.priv, err = signify.LoadPrivateKey(o.A)
		return err
	case "loadpub":
		s := get()
		s.pub, err = signify.LoadPublicKey(o.A)
		return err
	case "tobox":
		s := get()
		if s.priv == nil {
			return errors.New("sim: no key in slot")
		}
		b, err := s.priv.ToBox()
		if err == nil {
			if b == nil {
				return errors.New("sim: nil key without error")
			}
			res.Out = append([]byte(nil), b[:]...)
		}
		return err
	case "topub":
		s := get()
		if s.pub == nil {
			return errors.New("sim: no key in slot")
		}
		b, err := s.pub.ToBox()
		if err == nil {
			if b == nil {
				return errors.New("sim: nil key without error")
			}
			res.Out = append([]byte(nil), b[:]...)
		}
		return err
	case "check":
		s := get()
		if s.priv == nil {
			return errors.New("sim: no key in slot")
		}
		return s.priv.Check()
	case "isenc":
		s := get()
		if s.priv == nil {
			return errors.New("sim: no key in slot")
		}
		res.Bool = s.priv.IsEncrypted()
		return nil
	case "prompt":
		k.Lock()
		k.SetTTY(o.TTY)
		k.Resp.TTYEchoed = false
		k.Unlock()
		p, err := n.prompt(o.Flag&1 != 0)
		res.Out = append([]byte(nil), p...)
		k.Lock()
		res.TTYDirty = k.TTYDirty()
		res.TTYEchoed = k.Resp.TTYEchoed
		k.Unlock()
		return err
	case "enc":
		return n.encode(o, res)
	case "dec":
		return n.decode(o, res)
	case "fswrite":
		return os.WriteFile(o.A, o.Data, 0644)
	case "fsexcl":
		f, err := os.OpenFile(o.A, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil {
			return err
		}
		if _, err = f.Write(o.Data); err != nil {
			f.Close()
			return err
		}
		return f.Close()
	case "fsappend":
		f, err := os.OpenFile(o.A, os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			return err
		}
		_, err = f.Write(o.Data)
		f.Close()
		return err
	case "fstrunc":
		fi, err := os.Stat(o.A)
		if err != nil || fi.Size() <= int64(o.Rounds) {
			return err
		}
		return os.Truncate(o.A, int64(o.Rounds))
	case "fsreplace":
		t := o.A + ".new~"
		if err := os.WriteFile(t, o.Data, 0644); err != nil {
			return err
		}
		return os.Rename(t, o.A)
	case "fsremove":
		return os.Remove(o.A)
	case "fscopy":
		k.CopyFile(k.Cur(), o.A, o.B, o.Flag)
		return nil
	}
	return errors.New("sim: unknown op " + o.Kind)
}

var errSink = errors.New("sim: sink failed")
var errSource = errors.New("sim: source failed")

// streamErr is one of several errors a stream may end with.
func streamErr(e wire.Event, usual error) error {
	switch e.Arg2 {
	case 1:
		return io.ErrNoProgress
	case 2:
		return io.ErrClosedPipe
	case 3:
		return syscall.ENOSPC
	case 4:
		return syscall.EINTR
	}
	return usual
}

type sink struct {
	n    *node
	out  []byte
	call int
	res  *wire.Result
}

func (s *sink) Write(p []byte) (int, error) {
	for _, e := range s.n.k.UserPoint("swrite", "", len(p)) {
		if e.Kind == "err" {
			a := int(e.Arg)
			if a >= len(p) && a < 5 {
				a = len(p) - 1
			}
			if a >= 5 { // all of it was taken
				a = len(p)
			}
			if a < 0 {
				a = 0
			}
			s.out = append(s.out, p[:a]...)
			if s.res.FailCall == 0 {
				s.res.FailCall = s.call + 1
			}
			s.n.k.Fire(e, "swrite", "")
			return a, streamErr(e, errSink)
		}
	}
	s.out = append(s.out, p...)
	return len(p), nil
}

// pieces is a reader that delivers data in pieces.
type pieces struct {
	data  []byte
	sizes []int
	i     int
}

func (r *pieces) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// collect is a writer and nothing else.
type collect struct{ b *[]byte }

func (c collect) Write(p []byte) (int, error) {
	*c.b = append(*c.b, p...)
	return len(p), nil
}

func (n *node) encode(o wire.Op, res *wire.Result) error {
	s := &sink{n: n, res: res}
	w := base64.NewEncoder(s)
	data := o.Data
	var first error
	note := func(c int, err error) {
		res.Counts = append(res.Counts, c)
		m := ""
		if err != nil {
			m = err.Error()
			if first == nil {
				first = err
			}
		}
		res.Errs = append(res.Errs, m)
	}
	if o.Flag&2 != 0 { // by way of io.Copy
		c, err := io.Copy(w, &pieces{data: data, sizes: o.Sizes})
		note(int(c), err)
		s.call++
		data = nil
	}
	for i := 0; len(data) > 0; i++ {
		sz := len(data)
		if len(o.Sizes) > 0 {
			sz = o.Sizes[i%len(o.Sizes)]
		}
		if sz > len(data) {
			sz = len(data)
		}
		p := append([]byte(nil), data[:sz]...)
		write := w.Write
		if o.Flag&4 != 0 {
			write = func(p []byte) (int, error) { return io.WriteString(w, string(p)) }
		}
		c, err := write(p)
		for j := range p {
			if p[j] != data[j] {
				res.Panic = "encoder modified the caller's buffer"
			}
			p[j] = 0xAA // the buffer belongs to the caller again
		}
		note(c, err)
		s.call++
		if err != nil {
			break
		}
		data = data[sz:]
		if sz == 0 && i > 10000 {
			break
		}
	}
	c := w.Close()
	note(-1, c)
	res.Out = s.out
	return first
}

type source struct {
	n      *node
	data   []byte
	pieces []int
	i      int
	eof    bool // deliver EOF together with the last bytes
	calls  int
	failed error
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	evs := s.n.k.UserPoint("sread", "", len(p))
	if s.failed != nil {
		return 0, s.failed
	}
	limit := len(p)
	for _, e := range evs {
		switch e.Kind {
		case "err":
			s.failed = streamErr(e, errSource)
			s.n.k.Fire(e, "sread", "")
			return 0, s.failed
		case "errdata": // data together with the error
			if len(s.data) > 0 && limit > 0 {
				s.failed = streamErr(e, errSource)
				s.n.k.Fire(e, "sread", "")
				c := copy(p[:1], s.data)
				s.data = s.data[c:]
				return c, s.failed
			}
		case "zero":
			s.n.k.Fire(e, "sread", "")
			return 0, nil
		case "short":
			if int(e.Arg) < limit && e.Arg > 0 {
				limit = int(e.Arg)
				s.n.k.Fire(e, "sread", "")
			}
		}
	}
	if len(s.pieces) > 0 {
		if z := s.pieces[s.i%len(s.pieces)]; z < limit {
			limit = z
		}
		s.i++
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	c := copy(p[:limit], s.data)
	s.data = s.data[c:]
	if s.eof && len(s.data) == 0 {
		return c, io.EOF
	}
	return c, nil
}

func (n *node) decode(o wire.Op, res *wire.Result) error {
	s := &source{n: n, data: append([]byte(nil), o.Data...), pieces: o.Pieces, eof: o.Flag&1 != 0}
	r := base64.NewDecoder(s)
	idle := 0
	limit := 8*len(o.Data) + 400
	var last error
	if o.Flag&2 != 0 { // by way of io.Copy
		if _, last = io.Copy(collect{&res.Out}, r); last == nil {
			last = io.EOF
		}
	}
	for i := 0; last == nil; i++ {
		sz := 512
		if len(o.Sizes) > 0 {
			sz = o.Sizes[i%len(o.Sizes)]
		}
		p := make([]byte, sz+16)
		for j := range p {
			p[j] = 0x5A
		}
		c, err := r.Read(p[:sz:sz])
		for j := sz; j < len(p); j++ {
			if p[j] != 0x5A {
				res.Panic = "decoder wrote outside the caller's buffer"
			}
		}
		if c < 0 || c > sz {
			res.Panic = fmt.Sprintf("decoder returned n=%d for a buffer of %d", c, sz)
			return errors.New(res.Panic)
		}
		res.Out = append(res.Out, p[:c]...)
		for j := range p { // the buffer is the caller's
			p[j] = 0x77
		}
		if err != nil {
			last = err
			break
		}
		if c == 0 && sz > 0 {
			idle++
		} else if c > 0 {
			idle = 0
		}
		if idle > 100 || i > limit {
			last = errors.New("sim: stall")
			break
		}
	}
	if last == io.EOF {
		res.Bool = true
		for i := 0; i < 2; i++ { // end of stream must persist
			p := make([]byte, 7)
			c, err := r.Read(p)
			if c != 0 || err != io.EOF {
				res.Errs = append(res.Errs, fmt.Sprintf("read after EOF: n=%d err=%v", c, err))
			}
		}
	}
	if err := r.Close(); err != nil {
		res.Errs = append(res.Errs, "close: "+err.Error())
	}
	if last == io.EOF {
		return nil
	}
	return last
}
