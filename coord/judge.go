package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"path"
	"sort"
	"strings"

	"golang.org/x/crypto/curve25519"

	"verif/sim/wire"
)

// Violation is one broken expectation.
type Violation struct {
	Group string
	Msg   string
	Phase int
}

// Judge holds what the history so far implies.
type Judge struct {
	sc               *Scenario
	V                []Violation
	phase            int
	cwd              string
	orig             map[string][][]byte // ephemeral key -> messages that may have been sealed under it
	secs             map[string][]byte   // public key -> secret key
	num              map[string][]byte   // public key -> key number
	epubs            map[string]string
	stream           map[string]string
	fields           []field
	passes           [][]byte // every passphrase used to protect a key
	seals            []sealDone
	gens             []genDone
	before           []wire.File // the disk the phase began with
	slots            map[int]*mslot
	checks           map[string]int // how often each expectation was evaluated
	goodOps, failOps int
}

type field struct {
	name string
	b    []byte
}

type sealDone struct {
	dead     bool // overwritten later
	path     string
	pub      []byte
	msg      [][]byte
	mutating bool
	least    int
}

type genDone struct {
	path string
	pass []byte
}

type mslot struct {
	gen      bool   // generated in memory, never stored
	pass     []byte // of a generated key
	sec      *Sec
	key      []byte
	pub      []byte
	unlocked bool
	known    bool
	first    []byte
}

func newJudge(sc *Scenario) *Judge {
	j := &Judge{sc: sc, orig: map[string][][]byte{}, secs: map[string][]byte{}, num: map[string][]byte{}, epubs: map[string]string{}, stream: map[string]string{}, slots: map[int]*mslot{}, checks: map[string]int{}}
	for i := range sc.Keys {
		k := &sc.Keys[i]
		j.addKey(k.ed(), k.Num[:])
		if k.Rounds > 0 {
			j.passes = append(j.passes, k.Pass)
		}
	}
	var reg func(c *Content)
	reg = func(c *Content) {
		if c == nil {
			return
		}
		if c.Kind == "enc" {
			var e [32]byte
			curve25519.ScalarBaseMult(&e, c.epriv())
			j.orig[string(e[:])] = append(j.orig[string(e[:])], c.Msg.build(sc.Keys))
		}
		for _, m := range append(append([]Mut(nil), c.Bin...), c.Text...) {
			reg(m.C)
		}
	}
	for _, f := range sc.Files {
		reg(f.C)
	}
	for _, p := range sc.Phases {
		for _, f := range p.Fs {
			reg(f.Set)
			for _, m := range f.Muts {
				reg(m.C)
			}
		}
	}
	return j
}

func (j *Judge) addKey(priv []byte, num []byte) {
	j.secs[string(priv[32:])] = append([]byte(nil), priv...)
	j.num[string(priv[32:])] = append([]byte(nil), num...)
}

func (j *Judge) bad(group, format string, a ...interface{}) {
	j.V = append(j.V, Violation{group, fmt.Sprintf(format, a...), j.phase})
}

func (j *Judge) did(group string) { j.checks[group]++ }

// find follows symbolic links.
func find(fs []wire.File, p string) *wire.File {
	for depth := 0; depth < 10; depth++ {
		var f *wire.File
		for i := range fs {
			if fs[i].Path == p {
				f = &fs[i]
			}
		}
		if f == nil || f.Type != "link" {
			return f
		}
		if p = string(f.Data); !strings.HasPrefix(p, "/") {
			p = path.Dir(f.Path) + "/" + p
		}
		p = path.Clean(p)
	}
	return nil
}

func data(f *wire.File) []byte {
	if f == nil {
		return nil
	}
	return f.Data
}

// content is what a file holds, also one that is all zeros.
func content(f *wire.File) []byte {
	if f != nil && f.Type == "zeros" {
		return zeroBytes(f.Virt)
	}
	return data(f)
}

func same(a, b *wire.File) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Type == b.Type && a.Mode == b.Mode && bytes.Equal(a.Data, b.Data)
}

// stuck tells whether a file could not be removed.
func stuck(resp *wire.Resp, p string) bool {
	for _, f := range resp.Fired {
		if f.Kind == "err" && f.Path == p && (f.Class == "unlink" || f.Class == "rename") {
			return true
		}
	}
	return false
}

func hardFired(resp *wire.Resp, task, op int) bool {
	for _, f := range resp.Fired {
		if f.Task != task || f.Op != op {
			continue
		}
		switch f.Kind {
		case "err", "enospc", "closeerr", "crash", "power", "errdata":
			return true
		case "eintr":
			if f.Class == "ttyread" || f.Class == "ioctl" || f.Class == "close" {
				return true
			}
		}
	}
	return false
}

func imgMap(img []wire.File) map[string]*wire.File {
	m := map[string]*wire.File{}
	for i := range img {
		m[img[i].Path] = &img[i]
	}
	return m
}

func desc(o *wire.Op) string {
	switch o.Kind {
	case "sign", "verify", "seal", "open":
		return fmt.Sprintf("%s(%q, %q, %q)", o.Kind, o.A, o.B, o.C)
	case "gen":
		return fmt.Sprintf("GenerateKey(%q)", o.A)
	}
	return o.Kind
}

// dirThere tells whether the directory of p existed when the phase began.
func (j *Judge) dirThere(p string) bool {
	d := path.Dir(p)
	if d == "/" || d == "/tmp" || strings.HasPrefix(j.cwd+"/", d+"/") {
		return true
	}
	for _, f := range j.before {
		if f.Path == d || strings.HasPrefix(f.Path, d+"/") {
			return true
		}
	}
	return false
}

// Phase judges one incarnation.  before is the disk it started from.
func (j *Judge) Phase(i int, ph *Phase, before []wire.File, resp *wire.Resp) {
	j.phase = i
	j.cwd = cwdOr(j.sc.Cwd)
	if ph.Cwd != "" {
		j.cwd = ph.Cwd
	}
	j.before = before
	j.slots = map[int]*mslot{}
	switch resp.Status {
	case "panic":
		j.bad("panic", "the program panicked: %s", firstLines(resp.Detail, 3))
	case "hang":
		j.bad("hang", "%s", resp.Detail)
	case "steplimit":
		j.bad("hang", "not finished after %d steps (last: %s)", resp.Steps, resp.Detail)
	case "exit":
		if ph.Kind == "ops" {
			j.bad("panic", "a library call ended the process with status %d", resp.Code)
		}
	}
	if ph.Kind == "cli" {
		j.cli(ph, before, resp)
	} else {
		j.ops(ph, before, resp)
	}
	if len(resp.Exposed) > 0 {
		j.bad("expose", "file %s held secret key material while it was, or after it had been, accessible to others", strings.Join(resp.Exposed, ", "))
	}
	j.did("expose")
	j.rand(resp)
	j.written(resp)
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (j *Judge) ops(ph *Phase, before []wire.File, resp *wire.Resp) {
	type key struct{ t, o int }
	byID := map[key]*wire.Op{}
	for i := range ph.Prologue {
		byID[key{0, -1 - i}] = &ph.Prologue[i]
	}
	desig := map[string]bool{}
	for ti := range ph.Tasks {
		for i := range ph.Tasks[ti].Ops {
			byID[key{ph.Tasks[ti].ID, i}] = &ph.Tasks[ti].Ops[i]
		}
	}
	for k, o := range byID {
		_ = k
		for _, t := range targets(o) {
			desig[absPath(j.cwd, t)] = true
			if f := find(before, absPath(j.cwd, t)); f != nil && o.Kind == "fscopy" {
				desig[f.Path] = true
			}
		}
	}
	img := imgMap(resp.Image)
	for ri := range resp.Results {
		r := &resp.Results[ri]
		o := byID[key{r.Task, r.Op}]
		if o == nil {
			continue
		}
		if !r.Done {
			// in progress when the machine stopped: what it left is on the disk
			r.After = nil
			for _, f := range resp.Image {
				r.After = append(r.After, f)
			}
		}
		hard := hardFired(resp, r.Task, r.Op)
		alone := len(ph.Tasks) <= 1 || r.Op < 0
		j.op(o, r, hard, alone, ph.Race, resp)
	}
	// phase-level: nothing but designated outputs changed
	j.did("touch")
	bm := imgMap(before)
	for p, b := range bm {
		if b.Type != "" && b.Type != "link" && b.Type != "dir" || desig[p] {
			continue
		}
		a := img[p]
		if a == nil {
			j.bad("touch", "%s vanished", p)
		} else if !same(a, b) {
			j.bad("touch", "%s was changed (mode %o, %d bytes; before: mode %o, %d bytes)", p, a.Mode, len(a.Data), b.Mode, len(b.Data))
		}
	}
	if ph.Race == "gen" {
		j.genRace(ph, before, resp)
	}
	if resp.Status == "done" && len(resp.OpenEnd) > 0 {
		j.bad("leak", "still open when all operations had returned: %s", strings.Join(resp.OpenEnd, ", "))
	}
	// a stopped or failed generation never leaves a mismatched pair that loads
	for _, o := range byID {
		base := keyBase(j.cwd, o.A)
		if o.Kind == "gen" && !stuck(resp, base+".sec") && !stuck(resp, base+".pub") {
			j.pairs(keyBase(j.cwd, o.A), [][]byte{o.Pass}, resp.Image, before)
		}
	}
}

// pairs checks that if both halves of a pair load, they belong together.
func (j *Judge) pairs(base string, passes [][]byte, img, before []wire.File) {
	sec, pub := find(img, base+".sec"), find(img, base+".pub")
	if sec == nil || pub == nil {
		return
	}
	if same(sec, find(before, base+".sec")) && same(pub, find(before, base+".pub")) {
		return
	}
	s := lenientSecs(sec.Data)
	p := lenientPubs(pub.Data)
	if len(s) == 0 || len(p) == 0 {
		return
	}
	j.did("gen.crash")
	for _, x := range s {
		if !bytes.Equal(x.Num, p[0][2:10]) {
			j.bad("gen.crash", "%s.sec and %s.pub both load but have different key numbers", base, base)
			return
		}
		for _, pw := range append(append([][]byte{nil}, passes...), j.passes...) {
			if k := x.unlock(pw); k != nil && !bytes.Equal(k[32:], p[0][10:]) {
				j.bad("gen.crash", "%s.sec and %s.pub both load but do not belong together", base, base)
				return
			}
		}
	}
}

func answers(o *wire.Op, n int) [][]byte {
	var out [][]byte
	for i, a := range o.Prompt {
		if i >= n {
			break
		}
		if a.Err == "" {
			out = append(out, a.Pass)
		}
	}
	return out
}

// keysFrom lists the secret keys the operation could legitimately have used.
func keysFrom(file []byte, ans [][]byte) (out [][]byte, nums [][]byte) {
	for _, s := range lenientSecs(file) {
		if s.Rounds == 0 {
			if k := s.unlock(nil); k != nil {
				out, nums = append(out, k), append(nums, s.Num)
			}
			continue
		}
		for _, a := range ans {
			if k := s.unlock(a); k != nil {
				out, nums = append(out, k), append(nums, s.Num)
			}
		}
	}
	return
}

// firstKey is the key an undisturbed operation must be able to use.
func firstKey(file []byte, o *wire.Op) ([]byte, *Sec) {
	s := strictSec(file)
	if s == nil {
		return nil, nil
	}
	if s.Rounds == 0 {
		return s.unlock(nil), s
	}
	if len(o.Prompt) == 0 || o.Prompt[0].Err != "" {
		return nil, s
	}
	return s.unlock(o.Prompt[0].Pass), s
}

func (j *Judge) op(o *wire.Op, r *wire.Result, hard, alone bool, race string, resp *wire.Resp) {
	if r.Panic != "" {
		g := "panic"
		j.bad(g, "%s panicked: %s", desc(o), firstLines(r.Panic, 1))
		return
	}
	a, b := absPath(j.cwd, o.A), absPath(j.cwd, o.B)
	fa, fb := find(r.Before, a), find(r.Before, b)
	ok := r.Done && !r.Failed
	if ok {
		j.goodOps++
	} else {
		j.failOps++
	}
	lib := true
	kind := o.Kind
	if t := targets(o); len(t) == 1 && strings.HasPrefix(t[0], "/dev/") {
		kind = "device" // whatever was written is gone
	}
	switch kind {
	case "device":
	case "sign":
		j.sign(o, r, fa, fb, ok, hard)
	case "verify":
		j.verify(o, r, fa, fb, ok, hard, race)
	case "seal":
		j.seal(o, r, fa, fb, ok, hard, race, resp)
	case "open":
		j.open(o, r, fa, fb, ok, hard, resp)
	case "gen":
		if race != "gen" {
			j.gen(o, r, ok, hard, resp)
		}
	case "enc":
		j.enc(o, r, hard)
		lib = false
	case "dec":
		j.dec(o, r, hard)
		lib = false
	case "prompt":
		j.prompt(o, r, hard, resp)
		lib = false
	case "loadpriv", "loadpub", "tobox", "topub", "check", "isenc", "genpair":
		j.slotOp(o, r, ok, hard)
	default:
		return
	}
	if !lib || !r.Done {
		return
	}
	if alone {
		j.did("leak")
		if r.Leaked > 0 {
			j.bad("leak", "%s left files open: %s", desc(o), strings.Join(r.LeakPaths, ", "))
		}
		des := map[string]bool{}
		for _, t := range targets(o) {
			des[absPath(j.cwd, t)] = true
		}
		j.did("touch")
		for _, p := range r.Changed {
			if !des[p] || strings.HasPrefix(p, "/dev/") {
				j.bad("touch", "%s changed or removed %s", desc(o), p)
			}
		}
		for _, p := range r.Appeared {
			if !des[p] && (ok || len(des) == 0) && !stuck(resp, p) {
				j.bad("touch", "%s created %s", desc(o), p)
			}
		}
	}
	if o.Kind == "sign" || o.Kind == "open" || o.Kind == "tobox" {
		if r.Prompts > 0 {
			j.did("wipe")
			if !r.Wiped {
				j.bad("wipe", "%s returned (%s) with the prompted passphrase still in memory", desc(o), outcome(r))
			}
		}
	}
}

func outcome(r *wire.Result) string {
	if r.Failed {
		return "error: " + firstLines(r.Err, 1)
	}
	return "success"
}

func (j *Judge) writable(r *wire.Result, p string) bool {
	f := find(r.Before, p)
	return f == nil && j.dirThere(p) || f != nil && f.Type == ""
}

// locked handles what follows when the key cannot be used: error, and
// nothing written.
func (j *Judge) locked(o *wire.Op, r *wire.Result, fa *wire.File, ok bool) {
	out := absPath(j.cwd, targets(o)[0])
	ks, _ := keysFrom(data(fa), answers(o, r.Prompts))
	if len(ks) > 0 || fa == nil {
		return
	}
	ss := lenientSecs(fa.Data)
	wrong := false // a sound protected key whose passphrase was asked for but not given
	for _, s := range ss {
		if r.Prompts > 0 && s.Rounds > 0 && s.Rounds <= maxRounds {
			for _, p := range j.passes {
				if s.unlock(p) != nil {
					wrong = true
				}
			}
		}
	}
	j.did("badkey.used")
	if ok {
		j.bad("badkey.used", "%s succeeded although no secret key with a valid checksum could be had from %s", desc(o), o.A)
	}
	before, after := find(r.Before, out), find(r.After, out)
	if !same(before, after) {
		if wrong {
			j.bad("nochange", "%s without the right passphrase (%s) changed %s: %s", desc(o), outcome(r), out, change(before, after))
		}
		if after != nil && len(after.Data) > 0 && !bytes.HasPrefix(data(before), after.Data) {
			j.bad("badkey.output", "%s with an unusable key produced output in %s", desc(o), out)
		}
	}
	if wrong {
		j.did("nochange")
		if len(r.Changed)+len(r.Appeared) > 0 {
			j.bad("nochange", "%s without the right passphrase (%s) changed %v %v", desc(o), outcome(r), r.Changed, r.Appeared)
		}
	}
}

func change(b, a *wire.File) string {
	d := func(f *wire.File) string {
		if f == nil {
			return "absent"
		}
		return fmt.Sprintf("%d bytes", len(f.Data))
	}
	return d(b) + " -> " + d(a)
}

func (j *Judge) sign(o *wire.Op, r *wire.Result, fa, fb *wire.File, ok, hard bool) {
	out := absPath(j.cwd, targets(o)[0])
	j.locked(o, r, fa, ok)
	if ok {
		j.did("sign.valid")
		if fb == nil || fa == nil {
			j.bad("sign.valid", "%s succeeded although an input does not exist", desc(o))
			return
		}
		ks, nums := keysFrom(fa.Data, answers(o, r.Prompts))
		if len(ks) == 0 {
			return // badkey.used
		}
		f := find(r.After, out)
		if f == nil {
			j.bad("sign.valid", "%s succeeded but %s does not exist", desc(o), out)
			return
		}
		comment, blob, good := strictText(f.Data)
		if !good || len(blob) != sigLen || string(blob[:2]) != "Ed" {
			j.bad("sign.valid", "%s succeeded but %s is not one well-formed signature: %s", desc(o), out, show(f.Data))
			return
		}
		for i, k := range ks {
			if bytes.Equal(blob[2:10], nums[i]) && ed25519.Verify(ed25519.PublicKey(k[32:]), content(fb), blob[10:]) {
				j.did("sig.comment")
				if name := path.Base(strings.TrimSuffix(absPath(j.cwd, o.A), ".sec") + ".pub"); !strings.ContainsAny(name, "\r\n") && comment != "verify with "+name {
					j.bad("sig.comment", "%s: the signature in %s says %q, not which key verifies it (%s)", desc(o), out, comment, name)
				}
				return
			}
		}
		j.bad("sign.valid", "%s succeeded but the signature in %s is not valid for the %d-byte message", desc(o), out, len(content(fb)))
		return
	}
	if r.Done && !hard && fb != nil && fb.Type != "dir" && fa != nil && j.writable(r, out) {
		if k, _ := firstKey(fa.Data, o); k != nil {
			j.did("sign.must")
			j.bad("sign.must", "%s failed on intact inputs: %s", desc(o), r.Err)
		}
	}
}

func show(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q... (%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func (j *Judge) verify(o *wire.Op, r *wire.Result, fa, fb *wire.File, ok, hard bool, race string) {
	if race != "" {
		return
	}
	c := o.C
	if c == "" {
		c = o.B + ".sig"
	}
	fc := find(r.Before, absPath(j.cwd, c))
	if ok {
		j.did("verify.sound")
		if fa == nil || fb == nil || fc == nil {
			j.bad("verify.sound", "%s succeeded although a file does not exist", desc(o))
		} else if !refVerify(fa.Data, content(fb), fc.Data) {
			j.bad("verify.sound", "%s accepted: signature file %s, public key %s, message of %d bytes", desc(o), show(fc.Data), show(fa.Data), len(content(fb)))
		}
		return
	}
	if r.Done && !hard && fa != nil && fb != nil && fc != nil && strictVerify(fa.Data, content(fb), fc.Data) {
		j.bad("verify.must", "%s rejected a genuine signature: %s", desc(o), r.Err)
	}
	j.did("verify.reject")
}

// sealHuge judges an encryption of very many chunks of zeros by its digest.
func (j *Judge) sealHuge(o *wire.Op, r *wire.Result, fa, fb, f *wire.File, ok bool) {
	if !ok {
		j.bad("seal.must", "%s failed on intact inputs (message of %d bytes): %s", desc(o), fb.Virt, r.Err)
		return
	}
	j.did("seal.ok")
	if f == nil || f.Sink == nil {
		j.bad("seal.recover", "%s of %d bytes succeeded but %s is missing or short", desc(o), fb.Virt, o.C)
		return
	}
	s := f.Sink
	if s.Odd == "not written in order" || s.Odd == "read back" {
		return // cannot be told
	}
	bad := func(format string, a ...interface{}) {
		m := fmt.Sprintf(format, a...)
		j.bad("seal.recover", "%s of %d bytes succeeded but the file cannot be decrypted: %s", desc(o), fb.Virt, m)
	}
	n := (fb.Virt + chunkSize - 1) / chunkSize
	j.did("stream")
	seen := map[string]int{}
	for i := 0; 32*i+32 <= len(s.Heads); i++ {
		ks := string(s.Heads[32*i+16 : 32*i+32])
		if p, dup := seen[ks]; dup {
			j.bad("stream", "%s: chunk %d is enciphered with the same keystream as chunk %d", desc(o), i, p)
			break
		}
		seen[ks] = i
	}
	j.did("seal.recover")
	if s.Odd != "" {
		bad("%s", s.Odd)
	}
	if want := 72 + fb.Virt + 16*n; s.Total != want {
		bad("%d bytes instead of %d", s.Total, want)
	}
	p := strictPub(data(fa))
	if len(s.Header) < 72 || p == nil || j.secs[string(p[10:])] == nil {
		return
	}
	sh := sharedKey(s.Header, boxSec(j.secs[string(p[10:])]))
	if err := headerOK(s.Header, sh); err != nil {
		bad("%v", err)
	}
	if c := binary.BigEndian.Uint64(s.Header); c != uint64(n) {
		bad("the header promises %d chunks instead of %d", c, n)
	}
	for i := 0; int64(i) < n; i++ {
		c, kept := s.Whole[i]
		if !kept {
			continue
		}
		m, ok := openChunk(c, i, sh)
		if !ok {
			bad("chunk %d is not authentic", i)
			break
		}
		for _, x := range m {
			if x != 0 {
				bad("chunk %d decrypts to something else", i)
				break
			}
		}
	}
}

func (j *Judge) seal(o *wire.Op, r *wire.Result, fa, fb *wire.File, ok, hard bool, race string, resp *wire.Resp) {
	out := absPath(j.cwd, targets(o)[0])
	f := find(r.After, out)
	for i := range j.seals { // what was there before is gone
		if j.seals[i].path == out {
			j.seals[i].dead = true
		}
	}
	if fb != nil && fb.Type == "zeros" {
		if r.Done {
			j.sealHuge(o, r, fa, fb, f, ok)
		}
		return
	}
	if fb != nil && f != nil && !same(f, find(r.Before, out)) {
		if bin, _ := encBin(f.Data, false); len(bin) >= 40 {
			e := string(bin[8:40])
			j.orig[e] = append(j.orig[e], fb.Data)
		}
	}
	if ok {
		j.did("seal.ok")
		j.noEntropy(o, r, resp)
		if fa == nil || fb == nil {
			j.bad("seal.recover", "%s succeeded although an input does not exist", desc(o))
			return
		}
		pubs := lenientPubs(fa.Data)
		if len(pubs) == 0 {
			j.bad("seal.badpub", "%s succeeded although %s holds no public key: %s", desc(o), o.A, show(fa.Data))
			return
		}
		if boxPub(pubs[0][10:]) == nil {
			j.bad("seal.badpub", "%s succeeded although %s is not a point of the curve", desc(o), o.A)
			return
		}
		if f == nil {
			j.bad("seal.recover", "%s succeeded but %s does not exist", desc(o), out)
			return
		}
		sd := sealDone{path: out, pub: pubs[0], msg: [][]byte{fb.Data}}
		if race == "mutate" {
			app, least := raceOps(j.sc, j.phase, o.B, len(fb.Data))
			sd.least = least
			for _, x := range app {
				sd.msg = append(sd.msg, append(append([]byte(nil), fb.Data...), x...))
			}
			sd.mutating = true
		}
		j.seals = append(j.seals, sd)
		j.sealFormat(o, r, fb, f, pubs, race, resp)
		return
	}
	if r.Done && !hard && fa != nil && fb != nil && fb.Type != "dir" && fb.Type != "sys" && j.writable(r, out) && race == "" {
		if p := strictPub(fa.Data); p != nil && boxPub(p[10:]) != nil {
			j.bad("seal.must", "%s failed on intact inputs (message of %d bytes): %s", desc(o), len(fb.Data), r.Err)
		}
	}
}

// raceOps says what is appended to a file while it is used, and how short it
// gets.
func raceOps(sc *Scenario, phase int, p string, n int) (out [][]byte, least int) {
	least = n
	for _, t := range sc.Phases[phase].Tasks {
		for _, o := range t.Ops {
			if o.Kind == "fsappend" && o.A == p {
				out = append(out, o.Data)
			}
			if o.Kind == "fstrunc" && o.A == p && o.Rounds < least {
				least = o.Rounds
			}
		}
	}
	return
}

func (j *Judge) sealFormat(o *wire.Op, r *wire.Result, fb, f *wire.File, pubs [][]byte, race string, resp *wire.Resp) {
	bin, err := encBin(f.Data, true)
	if err != nil {
		j.bad("seal.format", "%s succeeded but %s is not in the released format: %v", desc(o), f.Path, err)
		bin, _ = encBin(f.Data, false)
	}
	if len(bin) < 72 {
		return
	}
	// freshness
	where := fmt.Sprintf("phase %d task %d op %d", j.phase, r.Task, r.Op)
	e := string(bin[8:40])
	j.did("fresh")
	if w, dup := j.epubs[e]; dup {
		j.bad("fresh", "%s in %s uses the same ephemeral key as %s", desc(o), where, w)
	}
	j.epubs[e] = where
	j.fields = append(j.fields, field{"ephemeral public key of " + where, bin[8:40]})
	for _, s := range resp.RandLog { // a key filled only in part
		if s.Task == r.Task && s.Op == r.Op && len(s.Data) <= 26 { // (a byte more or less can be zero by chance)
			var k, p [32]byte
			copy(k[:], s.Data)
			curve25519.ScalarBaseMult(&p, &k)
			if string(p[:]) == e {
				j.bad("entropy", "%s: the ephemeral key has only %d random bytes", desc(o), len(s.Data))
			}
		}
	}
	{
		var k, p [32]byte
		curve25519.ScalarBaseMult(&p, &k)
		if string(p[:]) == e {
			j.bad("entropy", "%s: the ephemeral key is zero", desc(o))
		}
	}
	j.did("entropy")
	if race == "" {
		msg := fb.Data
		body := bin[72:]
		for i := 0; len(body) > 16; i++ {
			n := len(body)
			if n > sealedSize {
				n = sealedSize
			}
			pt := msg
			if len(pt) > n-16 {
				pt = pt[:n-16]
			}
			if len(pt) >= 16 {
				ks := make([]byte, 16)
				for x := range ks {
					ks[x] = body[16+x] ^ pt[x]
				}
				w := fmt.Sprintf("%s chunk %d", where, i)
				if prev, dup := j.stream[string(ks)]; dup {
					j.bad("stream", "%s: %s is enciphered with the same keystream as %s", desc(o), w, prev)
				}
				zero := true
				for _, c := range ks {
					zero = zero && c == 0
				}
				if zero {
					j.bad("stream", "%s: %s is stored in clear", desc(o), w)
				}
				j.stream[string(ks)] = w
			}
			msg = msg[len(pt):]
			body = body[n:]
		}
		j.did("stream")
	}
	sec := j.secs[string(pubs[0][10:])]
	if sec == nil {
		return
	}
	j.did("seal.format")
	m, rest, err := refOpenBin(bin, boxSec(sec))
	good := err == nil && rest == 0 && bytes.Equal(m, fb.Data)
	if race == "mutate" && err == nil && rest == 0 {
		app, least := raceOps(j.sc, j.phase, o.B, len(fb.Data))
		for _, x := range append(app, nil) {
			full := append(append([]byte(nil), fb.Data...), x...)
			good = good || len(m) >= least && bytes.HasPrefix(full, m)
		}
	}
	if !good {
		j.bad("seal.format", "%s succeeded but the released format's reader gets %d of %d bytes from %s (error: %v)", desc(o), len(m), len(fb.Data), f.Path, err)
	}
}

func (j *Judge) open(o *wire.Op, r *wire.Result, fa, fb *wire.File, ok, hard bool, resp *wire.Resp) {
	out := absPath(j.cwd, o.C)
	j.locked(o, r, fa, ok)
	before, after := find(r.Before, out), find(r.After, out)
	ks, _ := keysFrom(data(fa), answers(o, r.Prompts))
	bin, _ := encBin(data(fb), false)
	if ok {
		j.did("open.exact")
		if fa == nil || fb == nil {
			j.bad("open.exact", "%s succeeded although an input does not exist", desc(o))
			return
		}
		if len(ks) == 0 {
			return
		}
		if after == nil {
			j.bad("open.exact", "%s succeeded but %s does not exist", desc(o), out)
			return
		}
		var why string
		for _, k := range ks {
			m, _, err := refOpenBin(bin, boxSec(k))
			if err == nil && bytes.Equal(m, after.Data) {
				return
			}
			if err != nil {
				why = err.Error()
			} else {
				why = fmt.Sprintf("the message has %d bytes, the output %d%s", len(m), len(after.Data), firstDiff(m, after.Data))
			}
		}
		j.bad("open.exact", "%s succeeded but the output is not the sealed message: %s", desc(o), why)
		return
	}
	// whatever a failed or interrupted opening left is a prefix of the message
	if fa != nil && fb != nil && after != nil && !same(before, after) && len(after.Data) > 0 {
		j.did("open.prefix")
		good := false
		got := after.Data
		if resp.Status == "crash" {
			for _, f := range resp.Fired {
				if f.Kind == "power" { // unwritten tail
					got = bytes.TrimRight(got, "\x00")
				}
			}
		}
		if len(bin) >= 40 {
			for _, m := range j.orig[string(bin[8:40])] {
				good = good || bytes.HasPrefix(m, got)
			}
		}
		for _, k := range ks {
			m, _, _ := refOpenBin(bin, boxSec(k))
			good = good || bytes.HasPrefix(m, got)
		}
		if before != nil && bytes.HasPrefix(before.Data, got) {
			good = true
		}
		if !good {
			j.bad("open.prefix", "%s ended with %s and left %d bytes in %s that are not a prefix of the message", desc(o), outcome(r), len(after.Data), out)
		}
	}
	if r.Done && !hard && fa != nil && fb != nil && j.writable(r, out) && out != absPath(j.cwd, o.B) {
		if k, _ := firstKey(fa.Data, o); k != nil {
			if sb, err := encBin(fb.Data, true); err == nil {
				if m, rest, err := refOpenBin(sb, boxSec(k)); err == nil && rest == 0 {
					j.bad("open.must", "%s failed on an intact file holding %d bytes: %s", desc(o), len(m), r.Err)
				}
			}
		}
	}
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf(", first difference at %d", i)
		}
	}
	return ""
}

func (j *Judge) gen(o *wire.Op, r *wire.Result, ok, hard bool, resp *wire.Resp) {
	base := keyBase(j.cwd, o.A)
	bs, bp := find(r.Before, base+".sec"), find(r.Before, base+".pub")
	as, ap := find(r.After, base+".sec"), find(r.After, base+".pub")
	if bs != nil || bp != nil {
		j.did("gen.over")
		if ok {
			j.bad("gen.over", "%s succeeded although a key file of that name existed", desc(o))
		}
		if bs != nil && !same(bs, as) {
			j.bad("gen.over", "%s changed the existing %s.sec", desc(o), base)
		}
		if bp != nil && !same(bp, ap) {
			j.bad("gen.over", "%s changed the existing %s.pub", desc(o), base)
		}
		return
	}
	if len(o.Pass) > 0 {
		j.passes = append(j.passes, o.Pass)
	}
	if !ok {
		if len(o.Pass) > 0 && (o.Rounds == 0 && o.Flag == 1 || o.Rounds < 0 || int64(o.Rounds) > math.MaxUint32) {
			return // no such key: an error is right
		}
		if r.Done && !hard && j.dirThere(base) {
			j.bad("gen.must", "%s failed without cause: %s", desc(o), r.Err)
		}
		return
	}
	j.genPair(o, as, ap, fmt.Sprintf("phase %d task %d op %d", j.phase, r.Task, r.Op))
	j.noEntropy(o, r, resp)
}

// noEntropy is called for an operation that draws randomness and succeeded.
func (j *Judge) noEntropy(o *wire.Op, r *wire.Result, resp *wire.Resp) {
	for _, f := range resp.Fired {
		if f.Task == r.Task && f.Op == r.Op && f.Kind == "err" && f.Class == "rand" {
			j.bad("entropy", "%s succeeded although the randomness source failed", desc(o))
		}
	}
}

func (j *Judge) genPair(o *wire.Op, as, ap *wire.File, where string) {
	base := keyBase(j.cwd, o.A)
	j.did("gen.pair")
	if as == nil || ap == nil {
		j.bad("gen.pair", "%s succeeded but a key file is missing", desc(o))
		return
	}
	if as.Mode&077 != 0 {
		j.bad("expose", "%s left %s.sec with mode %o", desc(o), base, as.Mode)
	}
	ss, pp := lenientSecs(as.Data), lenientPubs(ap.Data)
	if len(ss) != 1 || len(pp) != 1 {
		j.bad("gen.pair", "%s succeeded but the key files are not complete: %s %s", desc(o), show(as.Data), show(ap.Data))
		return
	}
	if strictSec(as.Data) == nil || strictPub(ap.Data) == nil {
		j.bad("gen.format", "%s wrote key files that are not in the signify format: %s %s", desc(o), show(as.Data), show(ap.Data))
	}
	s, p := ss[0], pp[0]
	if !bytes.Equal(s.Num, p[2:10]) {
		j.bad("gen.pair", "%s: the two files carry different key numbers", desc(o))
		return
	}
	if len(o.Pass) > 0 && s.Rounds == 0 {
		j.bad("gen.pair", "%s with a passphrase stored the key unprotected", desc(o))
		j.bad("clear", "%s with a passphrase stored the secret key in clear", desc(o))
		return
	}
	if len(o.Pass) == 0 && s.Rounds != 0 {
		j.bad("gen.pair", "%s without a passphrase stored a protected key", desc(o))
		return
	}
	if s.Rounds > 0 {
		d := *s
		d.Rounds = 0
		if d.unlock(nil) != nil {
			j.bad("clear", "%s with a passphrase stored the secret key in clear", desc(o))
		}
	}
	k := s.unlock(o.Pass)
	if k == nil {
		j.bad("gen.pair", "%s: the secret key does not unlock with its passphrase", desc(o))
		return
	}
	if len(o.Pass) > 0 { // stretched as asked for, or sanely
		if o.Rounds == 0 && o.Flag == 0 {
			if s.Rounds < 16 {
				j.bad("gen.pair", "%s: the passphrase is stretched by only %d rounds", desc(o), s.Rounds)
			}
		} else if int64(s.Rounds) != int64(o.Rounds) {
			j.bad("gen.pair", "%s: the passphrase is stretched by %d rounds, not the %d asked for", desc(o), s.Rounds, o.Rounds)
		}
	}
	if !bytes.Equal(k[32:], p[10:]) || !bytes.Equal(ed25519.NewKeyFromSeed(k[:32]), k) {
		j.bad("gen.pair", "%s: secret and public key do not belong together", desc(o))
		return
	}
	j.addKey(k, s.Num)
	for i := 0; i+4 <= len(s.Num); i++ { // short as it is, none of it comes from elsewhere
		for _, x := range [][]byte{s.Salt, k[:32], k[32:], s.Sum} {
			if bytes.Contains(x, s.Num[i:i+4]) {
				j.bad("entropy", "the key number of %s shares bytes with the rest of the key: %x", where, s.Num)
			}
		}
	}
	j.gens = append(j.gens, genDone{base, o.Pass})
	j.fields = append(j.fields, field{"seed of " + where, k[:32]}, field{"salt of " + where, s.Salt}, field{"key number of " + where, s.Num})
}

func (j *Judge) genRace(ph *Phase, before []wire.File, resp *wire.Resp) {
	byName := map[string][]*wire.Op{}
	okOps := map[string][]*wire.Op{}
	for _, t := range ph.Tasks {
		for i := range t.Ops {
			o := &t.Ops[i]
			if o.Kind != "gen" {
				continue
			}
			n := keyBase(j.cwd, o.A)
			byName[n] = append(byName[n], o)
			for _, r := range resp.Results {
				if r.Task == t.ID && r.Op == i && r.Done && !r.Failed {
					okOps[n] = append(okOps[n], o)
				}
			}
		}
	}
	if resp.Status != "done" {
		return
	}
	for _, t := range ph.Tasks {
		for i := range t.Ops {
			o := &t.Ops[i]
			for _, r := range resp.Results {
				if o.Kind != "fsexcl" || r.Task != t.ID || r.Op != i || !r.Done || r.Failed {
					continue
				}
				// the other program's file was there from then on
				j.did("gen.over")
				p := absPath(j.cwd, o.A)
				if f := find(resp.Image, p); f == nil {
					j.bad("gen.over", "a generation removed %s, which another program had stored", p)
				} else if !bytes.Equal(f.Data, o.Data) {
					j.bad("gen.over", "a generation changed %s, which another program had stored", p)
				}
				if n := strings.TrimSuffix(strings.TrimSuffix(p, ".sec"), ".pub"); len(okOps[n]) > 0 {
					j.bad("gen.over", "a generation of %s succeeded although another program had stored %s", n, p)
				}
			}
		}
	}
	for n, ops := range byName {
		j.did("gen.race")
		hadS, hadP := find(before, n+".sec"), find(before, n+".pub")
		as, ap := find(resp.Image, n+".sec"), find(resp.Image, n+".pub")
		if hadS != nil && !same(hadS, as) || hadP != nil && !same(hadP, ap) {
			j.bad("gen.over", "racing generations changed an existing key file of %s", n)
		}
		if (hadS != nil || hadP != nil) && len(okOps[n]) > 0 {
			j.bad("gen.over", "a generation of %s succeeded although a key file existed", n)
			continue
		}
		if len(okOps[n]) > 1 {
			j.bad("gen.race", "%d of %d racing generations of %s reported success", len(okOps[n]), len(ops), n)
			continue
		}
		if len(okOps[n]) == 1 {
			// the pair on disk is the pair of the one that succeeded
			j.genPair(okOps[n][0], as, ap, fmt.Sprintf("phase %d race", j.phase))
		}
	}
}

func (j *Judge) rand(resp *wire.Resp) {
	seen := map[string]string{}
	for _, f := range j.fields {
		j.did("entropy")
		run, best := 0, 0
		for _, c := range f.b {
			if c == 0 {
				run++
				if run > best {
					best = run
				}
			} else {
				run = 0
			}
		}
		if best >= 5 {
			j.bad("entropy", "%s has %d zero bytes in a row: %x", f.name, best, f.b)
		}
		here := map[string]bool{}
		for i := 0; i+6 <= len(f.b); i++ {
			w := string(f.b[i : i+6])
			if here[w] {
				j.bad("entropy", "%s repeats itself: %x", f.name, f.b)
				break
			}
			here[w] = true
		}
		stop := false
		for w := range here {
			if p, dup := seen[w]; dup && p != f.name && !stop {
				j.bad("entropy", "%s and %s share bytes", f.name, p)
				stop = true
			}
		}
		for w := range here {
			seen[w] = f.name
		}
	}
}

// quoted is what %q makes of a passphrase, without the quotes.
func quoted(p []byte) string { q := fmt.Sprintf("%q", p); return q[1 : len(q)-1] }

// written searches everything that was written for secrets.
func (j *Judge) written(resp *wire.Resp) {
	var hay []byte
	if len(resp.Writes) > 0 {
		// join consecutive writes per file so that split secrets are found
		by := map[string][]byte{}
		var names []string
		for _, s := range resp.Writes {
			k := fmt.Sprintf("%s#%d", s.Path, s.Ino)
			if _, ok := by[k]; !ok {
				names = append(names, k)
			}
			by[k] = append(by[k], s.Data...)
		}
		for _, n := range names {
			hay = append(append(hay, by[n]...), 0xff)
		}
	}
	hay = append(append(hay, resp.Stdout...), resp.Stderr...)
	ph := &j.sc.Phases[j.phase]
	passes := append([][]byte(nil), j.passes...)
	passes = append(passes, ph.Lines...)
	for _, r := range resp.Results {
		hay = append(append(hay, r.Err...), 0xff)
	}
	for _, t := range ph.Tasks {
		for _, o := range t.Ops {
			for _, a := range o.Prompt {
				passes = append(passes, a.Pass)
			}
		}
	}
	if len(hay) == 0 {
		return
	}
	flat := append(append([]byte(nil), hay...), 0xff)
	flat = append(flat, bytes.ReplaceAll(hay, []byte("\n"), nil)...)
	hexed := bytes.ToLower(flat)
	j.did("clear")
	for _, p := range passes {
		if len(p) >= 7 && (b64contains(flat, p) || bytes.Contains(flat, []byte(quoted(p)))) {
			j.bad("clear", "a passphrase was written out")
			break
		}
	}
	for _, g := range j.gens {
		if len(g.pass) == 0 {
			continue
		}
		sec := find(resp.Image, g.path+".sec")
		for _, s := range lenientSecs(data(sec)) {
			if k := s.unlock(g.pass); k != nil {
				if b64contains(flat, k[:30]) || bytes.Contains(hexed, []byte(fmt.Sprintf("%x", k[:16]))) {
					j.bad("clear", "the protected secret key of %s was written in clear", g.path)
				}
			}
		}
	}
	// protected keys of the scenario used by sign/open
	for i := range j.sc.Keys {
		k := &j.sc.Keys[i]
		if k.Rounds > 0 && b64contains(flat, k.Seed[:30]) {
			j.bad("clear", "the protected secret key %d was written in clear", i)
		}
	}
	// plaintext through encryption
	plain := map[string]bool{}
	onlySeal := true
	for _, t := range ph.Tasks {
		for _, o := range t.Ops {
			if o.Kind == "seal" {
				plain[absPath(j.cwd, o.B)] = true
			} else if o.Kind != "sign" && o.Kind != "verify" && o.Kind != "gen" {
				onlySeal = false
			}
		}
	}
	if len(plain) > 0 && onlySeal && len(resp.Writes) > 0 {
		for p := range plain {
			for _, r := range resp.Results {
				f := find(r.Before, p)
				if f == nil || len(f.Data) < 24 {
					continue
				}
				j.did("plain")
				for _, at := range []int{0, len(f.Data) / 2, len(f.Data) - 24} {
					if at+24 > len(f.Data) {
						at = len(f.Data) - 24
					}
					if b64contains(flat, f.Data[at:at+24]) {
						j.bad("plain", "encryption wrote the message %s in clear (bytes %d..%d)", p, at, at+24)
					}
				}
			}
		}
	}
}

// ---- base64 streams ----

func encExpect(data []byte) string {
	t := base64.StdEncoding.EncodeToString(data)
	var b strings.Builder
	for len(t) > 72 {
		b.WriteString(t[:72] + "\n")
		t = t[72:]
	}
	b.WriteString(t)
	if len(t) > 0 {
		b.WriteString("\n")
	}
	return b.String()
}

func (j *Judge) enc(o *wire.Op, r *wire.Result, hard bool) {
	if !r.Done {
		return
	}
	j.did("enc")
	want := encExpect(o.Data)
	allNil := true
	left := len(o.Data)
	for i, c := range r.Counts {
		if r.Errs[i] != "" {
			allNil = false
			if !hard {
				j.bad("enc", "call %d failed although the sink did not: %s", i, r.Errs[i])
			}
			continue
		}
		if c < 0 {
			continue
		}
		sz := left
		if len(o.Sizes) > 0 {
			sz = o.Sizes[i%len(o.Sizes)]
		}
		if sz > left || o.Flag&2 != 0 {
			sz = left
		}
		left -= sz
		if c != sz {
			j.bad("enc", "Write of %d bytes returned n=%d and no error", sz, c)
		}
	}
	if r.FailCall > 0 && r.FailCall <= len(r.Errs) && r.Errs[r.FailCall-1] == "" {
		j.bad("enc", "the sink failed during call %d, which reported success", r.FailCall-1)
	}
	if allNil {
		got := string(r.Out)
		if got != want && got != want+"\n" {
			j.bad("enc", "%d bytes written in pieces %v came out as %s, want %s", len(o.Data), o.Sizes, show(r.Out), show([]byte(want)))
		}
	}
}

func (j *Judge) dec(o *wire.Op, r *wire.Result, hard bool) {
	if !r.Done {
		return
	}
	j.did("dec")
	flat := strings.ReplaceAll(strings.ReplaceAll(string(o.Data), "\r\n", ""), "\n", "")
	cr := strings.Contains(flat, "\r") // may be skipped or refused
	flat = strings.ReplaceAll(flat, "\r", "")
	var want []byte
	valid := len(flat)%4 == 0
	for i := 0; i+4 <= len(flat); i += 4 {
		b, err := base64.StdEncoding.DecodeString(flat[i : i+4])
		if err != nil {
			valid = false
			break
		}
		want = append(want, b...)
		if len(b) < 3 && i+4 < len(flat) {
			valid = false
			break
		}
	}
	how := fmt.Sprintf("(text of %d bytes, reads of %v, source pieces %v, events %v)", len(o.Data), o.Sizes, o.Pieces, hard)
	if !bytes.HasPrefix(want, r.Out) {
		j.bad("dec", "invented or reordered bytes: got %s, data is %s %s", show(r.Out), show(want), how)
		return
	}
	if strings.HasPrefix(r.Err, "sim: stall") {
		j.bad("dec", "the decoder stalls %s", how)
		return
	}
	eof := r.Bool
	if eof && len(r.Errs) > 0 {
		j.bad("dec", "%s %s", r.Errs[0], how)
	}
	switch {
	case cr && !hard:
		if eof && (!valid || len(r.Out) != len(want)) {
			j.bad("dec", "clean end after %d bytes %s", len(r.Out), how)
		}
	case hard:
		if eof {
			j.bad("dec", "the source failed but the decoder reported a clean end %s", how)
		}
	case valid:
		if !eof {
			j.bad("dec", "failed on valid input: %s %s", r.Err, how)
		} else if len(r.Out) != len(want) {
			j.bad("dec", "clean end after %d of %d bytes %s", len(r.Out), len(want), how)
		}
	default:
		if eof {
			j.bad("dec", "clean end on invalid input %s %s", show(o.Data), how)
		}
	}
}

// ---- prompt ----

func (j *Judge) prompt(o *wire.Op, r *wire.Result, hard bool, resp *wire.Resp) {
	ph := &j.sc.Phases[j.phase]
	var all []byte
	for _, c := range o.TTY {
		all = append(all, c...)
	}
	lines := bytes.Split(all, []byte("\n"))
	complete := len(lines) - 1
	need := 1
	if o.Flag&1 != 0 {
		need = 2
	}
	if !r.Done {
		if resp.Status == "ttywait" && complete >= need && !hard {
			j.bad("prompt", "the prompt waits for more than %d line(s)", need)
		}
		if resp.TTYEchoed && ph.HaveTTY {
			j.bad("prompt", "typed characters were read while the terminal echoed")
		}
		return
	}
	j.did("prompt")
	if ph.HaveTTY && r.TTYEchoed {
		j.bad("prompt", "typed characters were read while the terminal echoed")
	}
	ioctl := false
	for _, f := range resp.Fired {
		if f.Class == "ioctl" && f.Task == r.Task && f.Op <= r.Op {
			ioctl = true
		}
	}
	if r.TTYDirty && !ioctl {
		j.bad("prompt", "the terminal settings were not restored (%s)", outcome(r))
	}
	ok := !r.Failed
	switch {
	case ok && complete < need:
		j.bad("prompt", "success although input ended before %d line(s)", need)
	case ok && !bytes.Equal(r.Out, lines[0]):
		j.bad("prompt", "returned %q for the line %q", r.Out, lines[0])
	case ok && need == 2 && !bytes.Equal(lines[0], lines[1]):
		j.bad("prompt", "accepted two different entries %q and %q", lines[0], lines[1])
	case ok && hard && readFailed(resp, r):
		j.bad("prompt", "success although reading failed")
	case !ok && !hard && ph.HaveTTY && complete >= need && (need == 1 || bytes.Equal(lines[0], lines[1])):
		j.bad("prompt", "failed on the line %q: %s", lines[0], r.Err)
	}
}

func readFailed(resp *wire.Resp, r *wire.Result) bool {
	for _, f := range resp.Fired {
		if f.Task == r.Task && f.Op == r.Op && f.Class == "ttyread" && f.Kind == "err" {
			return true
		}
	}
	return false
}

// ---- loaded keys ----

func (j *Judge) slotOp(o *wire.Op, r *wire.Result, ok, hard bool) {
	s := j.slots[o.Slot]
	if s == nil {
		s = &mslot{}
		j.slots[o.Slot] = s
	}
	f := find(r.Before, absPath(j.cwd, o.A))
	switch o.Kind {
	case "loadpriv":
		*s = mslot{}
		if ok {
			ss := lenientSecs(data(f))
			if len(ss) == 0 {
				j.bad("badkey.used", "LoadPrivateKey accepted %s", show(data(f)))
				return
			}
			if st := strictSec(data(f)); st != nil {
				s.sec, s.known = st, true
				s.unlocked = st.Rounds == 0 && st.unlock(nil) != nil
				if s.unlocked {
					s.key = st.unlock(nil)
				}
			}
		} else if r.Done && !hard && f != nil && strictSec(f.Data) != nil && strictSec(f.Data).unlockable(j) {
			j.bad("unlock", "LoadPrivateKey failed on an intact key: %s", r.Err)
		}
	case "loadpub":
		*s = mslot{}
		if ok {
			pp := lenientPubs(data(f))
			if len(pp) == 0 {
				j.bad("badpub", "LoadPublicKey accepted %s", show(data(f)))
				return
			}
			s.pub = pp[0]
		} else if r.Done && !hard && f != nil && strictPub(f.Data) != nil {
			j.bad("loadpub", "LoadPublicKey failed on an intact key: %s", r.Err)
		}
	case "genpair":
		*s = mslot{}
		if ok {
			*s = mslot{gen: true, pass: o.Pass, unlocked: len(o.Pass) == 0}
		} else if r.Done && !hard {
			j.bad("unlock", "GenerateKeypair failed: %s", r.Err)
		}
	case "isenc":
		if r.Done && !r.Failed && (s.gen && r.Bool != (len(s.pass) > 0) || s.sec != nil && r.Bool != (s.sec.Rounds > 0)) {
			j.bad("unlock", "IsEncrypted says %v", r.Bool)
		}
	case "tobox":
		j.did("unlock")
		if s.gen {
			right := false
			for _, a := range answers(o, r.Prompts) {
				right = right || bytes.Equal(a, s.pass)
			}
			switch {
			case ok && !s.unlocked && !right:
				j.bad("unlock", "ToBox of a generated key succeeded without the right passphrase")
			case ok && s.key != nil && !bytes.Equal(s.key, r.Out):
				j.bad("unlock", "ToBox returned %x, then %x", s.key, r.Out)
			case ok:
				s.unlocked, s.key = true, r.Out
			case r.Done && !hard && (s.unlocked || len(o.Prompt) > 0 && o.Prompt[0].Err == "" && bytes.Equal(o.Prompt[0].Pass, s.pass)):
				j.bad("unlock", "ToBox failed on a generated key: %s", r.Err)
			}
			return
		}
		if s.sec == nil {
			return
		}
		if ok {
			k := s.key
			if !s.unlocked {
				for _, a := range answers(o, r.Prompts) {
					if x := s.sec.unlock(a); x != nil {
						k = x
					}
				}
				if k == nil {
					j.bad("badkey.used", "ToBox succeeded without the right passphrase")
					j.bad("unlock", "ToBox succeeded without the right passphrase")
					return
				}
			}
			s.unlocked, s.key = true, k
			want := boxSec(k)
			if !bytes.Equal(want[:], r.Out) {
				j.bad("unlock", "ToBox returned %x, the key is %x", r.Out, want[:])
			}
			return
		}
		if !r.Done || hard {
			return
		}
		if s.unlocked {
			j.bad("unlock", "ToBox failed on a usable key: %s", r.Err)
			return
		}
		if s.sec.Rounds > 0 && len(o.Prompt) > 0 && o.Prompt[0].Err == "" && s.sec.unlock(o.Prompt[0].Pass) != nil {
			j.bad("unlock", "ToBox failed with the right passphrase: %s", r.Err)
		}
	case "check":
		if s.sec == nil && !s.gen || !r.Done {
			return
		}
		j.did("unlock")
		if ok && !s.unlocked {
			j.bad("unlock", "Check passes before the key was unlocked")
		}
		if !ok && s.unlocked {
			j.bad("unlock", "Check fails on a usable key: %s", r.Err)
		}
	case "topub":
		if s.gen && ok && s.key != nil {
			var k, p [32]byte
			copy(k[:], s.key)
			curve25519.ScalarBaseMult(&p, &k)
			if !bytes.Equal(p[:], r.Out) {
				j.bad("unlock", "the halves of a generated pair do not belong together")
			}
		}
		if s.pub == nil || !r.Done {
			return
		}
		want := boxPub(s.pub[10:])
		if ok && want == nil {
			j.bad("badpub", "ToBox accepted a public key that is no curve point")
		}
		if ok && want != nil && !bytes.Equal(want[:], r.Out) {
			j.bad("loadpub", "public ToBox returned %x, want %x", r.Out, want[:])
		}
		if !ok && want != nil && !hard {
			j.bad("loadpub", "public ToBox failed: %s", r.Err)
		}
	}
}

func (s *Sec) unlockable(j *Judge) bool {
	if s.Rounds == 0 {
		return s.unlock(nil) != nil
	}
	for _, p := range j.passes {
		if s.unlock(p) != nil {
			return true
		}
	}
	return false
}

// ---- the command ----

func (j *Judge) cli(ph *Phase, before []wire.File, resp *wire.Resp) {
	exit0 := resp.Status == "exit" && resp.Code == 0
	ended := resp.Status == "exit" || resp.Status == "fatal"
	hard := false
	stdfail := false
	for _, f := range resp.Fired {
		switch f.Kind {
		case "err", "enospc", "closeerr", "crash", "power":
			hard = true
			if f.Class == "stdwrite" {
				stdfail = true
			}
		case "eintr":
			if f.Class == "ttyread" || f.Class == "ioctl" {
				hard = true
			}
		}
	}
	j.did("cli")
	if ended && !exit0 && len(resp.Stdout)+len(resp.Stderr) == 0 && !stdfail && resp.Status == "exit" {
		j.bad("cli", "psignify %q exits with %d and no diagnostic", ph.CLI.Args, resp.Code)
	}
	if ended && !exit0 && !stdfail && bytes.Contains(resp.Stdout, []byte(": OK\n")) {
		j.bad("cli", "psignify %q says OK and exits with %d", ph.CLI.Args, resp.Code)
	}
	if ph.Intent == nil {
		if exit0 {
			j.bad("cli", "psignify %q exits 0 although it requests no complete operation", ph.CLI.Args)
		}
		if resp.Status == "ttywait" {
			j.bad("cli", "psignify %q waits for input", ph.CLI.Args)
		}
		j.touched(before, resp.Image, nil)
		return
	}
	o := *ph.Intent
	for _, l := range ph.Lines {
		o.Prompt = append(o.Prompt, wire.Answer{Pass: l})
	}
	if o.Kind == "gen" && len(ph.Lines) > 0 {
		o.Pass = ph.Lines[0]
	}
	r := &wire.Result{Started: true, Done: ended, Failed: !exit0, Before: before, After: resp.Image, Prompts: len(ph.Lines), Wiped: true}
	if !exit0 {
		r.Err = fmt.Sprintf("exit status %d: %s", resp.Code, firstLines(strings.TrimSpace(string(resp.Stderr)+" "+string(resp.Stdout)), 1))
	}
	if resp.TTYReads == 0 {
		r.Prompts = 0
		if !ph.HaveTTY && !hard { // it had to ask, and nobody could answer
			r.Prompts = 1
		}
	}
	if !ph.HaveTTY {
		o.Prompt = nil
	}
	if resp.Status == "ttywait" && !hard && len(ph.Lines) > 0 {
		j.bad("cli", "psignify %q waits for more input than %d line(s)", ph.CLI.Args, len(ph.Lines))
	}
	n := len(j.V)
	confirmBad := o.Kind == "gen" && len(ph.Lines) >= 2 && !bytes.Equal(ph.Lines[0], ph.Lines[1])
	promptBad := ph.NoPass || o.Kind == "gen" && len(ph.Lines) > 0 && (len(ph.Lines) < 2 || !ph.HaveTTY)
	if confirmBad || promptBad {
		if exit0 {
			j.bad("cli", "psignify %q exits 0 although the passphrase was not confirmed", ph.CLI.Args)
		}
		hard = true // no success expected
	}
	if len(ph.Lines) > 0 && !ph.HaveTTY {
		hard = true
	}
	if resp.Status == "ttywait" {
		hard = true
	}
	j.op(&o, r, hard, false, "", resp)
	for i := n; i < len(j.V); i++ {
		j.V[i].Msg = fmt.Sprintf("psignify %q: %s", ph.CLI.Args, j.V[i].Msg)
	}
	j.touched(before, resp.Image, &o)
	if o.Kind == "gen" {
		j.pairs(keyBase(j.cwd, o.A), [][]byte{o.Pass}, resp.Image, before)
	}
	if resp.TTYEchoed && ph.HaveTTY {
		j.bad("prompt", "psignify %q read a passphrase while the terminal echoed", ph.CLI.Args)
	}
	if ended && resp.TTYDirty && !hard {
		j.bad("prompt", "psignify %q left the terminal settings changed", ph.CLI.Args)
	}
}

func (j *Judge) touched(before, after []wire.File, o *wire.Op) {
	des := map[string]bool{}
	if o != nil {
		for _, t := range targets(o) {
			des[absPath(j.cwd, t)] = true
		}
	}
	j.did("touch")
	am := imgMap(after)
	for i := range before {
		b := &before[i]
		if des[b.Path] || b.Type != "" && b.Type != "link" && b.Type != "dir" {
			continue
		}
		a := am[b.Path]
		if a == nil {
			j.bad("touch", "%s vanished", b.Path)
		} else if !same(a, b) {
			j.bad("touch", "%s was changed", b.Path)
		}
	}
}

func groupsOf(vs []Violation) []string {
	m := map[string]bool{}
	for _, v := range vs {
		m[v.Group] = true
	}
	var out []string
	for g := range m {
		out = append(out, g)
	}
	sort.Strings(out)
	return out
}

var _ = path.Base
var _ = binary.BigEndian
