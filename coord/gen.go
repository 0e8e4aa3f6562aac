package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
	"path"
	"strings"

	"verif/sim/wire"
)

// G builds one scenario.
type G struct {
	*rand.Rand
	sc       *Scenario
	n        int
	used     map[string]bool
	typed    bool // passphrases are typed at a terminal
	thorough bool
	locked   bool   // all keys that may be are protected
	damage   bool   // encrypted files are damaged
	kinds    []int  // of concurrent operations
	idx      uint64 // number of the scenario within the check
}

func (g *G) oneIn(n int) bool { return g.Intn(n) == 0 }

func (g *G) bytes(n int) []byte { b := make([]byte, n); g.Rand.Read(b); return b }

func (g *G) pass() []byte {
	if !g.typed && g.oneIn(6) { // not from a terminal
		tail := []string{"\x00", "\n", "\r", "\r\n", " ", "\t", "\xff", "\x00\x00", "é"}[g.Intn(9)]
		b := []byte(fmt.Sprintf("Pass %d", g.Intn(1e9)))
		if g.oneIn(3) {
			return append([]byte(tail), b...)
		}
		return append(b, tail...)
	}
	switch g.Intn(8) {
	case 0:
		return []byte(fmt.Sprintf("päss wörd %d ☃", g.Intn(1e6)))
	case 1:
		return bytes.Repeat([]byte(fmt.Sprintf("%07d", g.Intn(1e7))), 10+g.Intn(30))
	case 2:
		b := g.bytes(8 + g.Intn(24))
		for i := range b {
			b[i] = b[i]&0x7f | 0x20
			if b[i] == 0x7f {
				b[i] = 'x'
			}
		}
		return b
	}
	return []byte(fmt.Sprintf("pass-%d-phrase", g.Intn(1e9)))
}

// key adds a key; prot: -1 either, 0 unprotected, 1 protected.
func (g *G) key(prot int) int {
	var k Key
	g.Rand.Read(k.Seed[:])
	g.Rand.Read(k.Num[:])
	g.Rand.Read(k.Salt[:])
	if n := len(g.sc.Keys); n > 0 && g.oneIn(6) { // numbers and salts can be repeated; keys are told apart by the key
		if g.oneIn(2) {
			k.Num = g.sc.Keys[n-1].Num
		}
		if g.oneIn(2) {
			k.Salt = g.sc.Keys[n-1].Salt
		}
	}
	if prot == 1 || prot < 0 && (g.locked || g.oneIn(3)) {
		k.Pass = g.pass()
		k.Rounds = 1
		if g.oneIn(12) {
			k.Rounds = 2 + g.Intn(3)
		}
	}
	g.sc.Keys = append(g.sc.Keys, k)
	return len(g.sc.Keys) - 1
}

// names in full; each is used once at most
var wholeNames = []string{"-", "--", "~", "0", "...", "stdin", "*", "?", "#", "=", ".x", "nul", "a:b", "%s", "@", "\t", "-n"}

var nameParts = []string{"a", "msg", "key", "data.txt", "with space", "ünïcode", "x.sec", "x.pub", "v1.2", "-dash", "UPPER", "file.sec.bak", ".hidden", "a.enc", "b.sig", "comment: x", "100%s", "$HOME", "'q'", "new\nline", "cr\rlf\r\n", "two\n\nnew\nlines", "[a-z]", "a*b?", "~root", "back\\slash", "%2e%d", "${x}`y`"}

func (g *G) name() string {
	g.n++
	if g.oneIn(40) {
		return fmt.Sprintf("%s%d", strings.Repeat("n", 200), g.n)
	}
	if g.oneIn(40) {
		n := wholeNames[g.Intn(len(wholeNames))]
		if !g.used[n] {
			g.used[n] = true
			return n
		}
	}
	n := fmt.Sprintf("%s%d", nameParts[g.Intn(len(nameParts))], g.n)
	if g.oneIn(6) {
		n += []string{".enc", ".sig", ".sec", ".pub", ".txt", ".", " "}[g.Intn(7)]
	}
	return n
}

func (g *G) dir() string {
	switch g.Intn(4) {
	case 0:
		return "/w/"
	case 1:
		return ""
	case 2:
		return "/w/sub dir/"
	}
	return "/w/d/"
}

func (g *G) path() string {
	if g.oneIn(60) && !g.used["-"] {
		g.used["-"] = true
		return "-"
	}
	p := g.dir() + g.name()
	for _, other := range [][2]string{{"[a-z]", "q"}, {"a*b?", "a bx"}, {"~root", "/root"}, {"%2e%d", ".1"}} {
		if strings.Contains(p, other[0]) && g.oneIn(2) { // a name that it could be mistaken for
			o := strings.Replace(p, other[0], other[1], 1)
			g.sc.Files = append(g.sc.Files, SFile{Path: absPath(g.sc.Cwd, o), Mode: 0644, C: g.msg(g.small())})
		}
	}
	if strings.HasPrefix(p, "-") && p != "-" {
		p = "./" + p
	}
	return p
}

func (g *G) mode() uint32 { return []uint32{0644, 0600, 0640, 0400, 0666, 0755}[g.Intn(6)] }

func (g *G) put(p, typ string, mode uint32, c *Content) string {
	g.sc.Files = append(g.sc.Files, SFile{Path: absPath(g.sc.Cwd, p), Type: typ, Mode: mode, C: c})
	if typ == "fifo" {
		f := &g.sc.Files[len(g.sc.Files)-1]
		left := len(c.build(g.sc.Keys))
		for left > 0 {
			n := 1 + g.Intn(left)
			if g.oneIn(3) {
				n = 1 + g.Intn(min(left, 5))
			}
			if len(f.Chunks) > 40 {
				n = left
			}
			f.Chunks = append(f.Chunks, n)
			left -= n
		}
	}
	return p
}

// via makes the file at p reachable by another name sometimes.
func (g *G) via(p string) string {
	if !g.oneIn(14) {
		return p
	}
	to := absPath(g.sc.Cwd, p)
	l := g.path()
	if d := path.Dir(absPath(g.sc.Cwd, l)); g.oneIn(2) && d == path.Dir(to) {
		to = path.Base(to)
	}
	g.put(l, "link", 0777, &Content{Kind: "raw", Raw: []byte(to)})
	return l
}

var comments = []string{"", "signify secret key", "x", "verify with käse.pub", "untrusted comment: twice", "=", strings.Repeat("long ", 190), strings.Repeat("c", 1023), "a\tb", "AAAA", "QUFBQQ==", "caf\xe9 \xff\xfe", "\x00\x01", "\u2028", "dos\r", "\xef\xbb\xbf", " "}

func (g *G) comment() []byte { return []byte(comments[g.Intn(len(comments))]) }

// base returns a key base name; the files are written as <base>.sec/.pub.
func (g *G) keyFiles(k int) (sec, pub string) {
	b := g.path()
	sec, pub = b+".sec", b+".pub"
	if g.oneIn(8) { // names without the usual suffixes
		sec, pub = b+"-secret", b+"-public"
	}
	var c1, c2 []byte
	if g.oneIn(4) {
		c1, c2 = g.comment(), g.comment()
	}
	m1, m2 := uint32(0600), uint32(0644)
	if g.oneIn(4) {
		m1, m2 = g.mode()|0400, g.mode()|0400
	}
	g.put(sec, "", m1, &Content{Kind: "sec", Key: k, Comment: c1})
	g.put(pub, "", m2, &Content{Kind: "pub", Key: k, Comment: c2})
	return g.via(sec), g.via(pub)
}

var sizes = []int{0, 1, 2, 3, 4, 5, 17, 53, 54, 55, 108, 511, 512, 513, 4095, 4096, 4097, 16384, 16385, 16386, 32769, 32770, 32771, 49155}

func (g *G) size() int {
	switch g.Intn(10) {
	case 0, 1, 2, 3:
		return sizes[g.Intn(len(sizes))]
	case 4:
		return g.Intn(70000)
	case 5:
		return g.Intn(2000)
	}
	return g.Intn(200)
}

// large says whether this scenario has a message of megabytes.
func (g *G) large() bool { return g.idx%67 == 7 }

func (g *G) largeSize() int {
	n := 1 << uint(17+g.Intn(6))
	switch g.Intn(4) {
	case 0:
		n = 256 * chunkSize
	case 1:
		return n + g.Intn(n)
	}
	return n - 1 + g.Intn(3)
}

func (g *G) small() int {
	if g.oneIn(3) {
		return sizes[g.Intn(11)]
	}
	return g.Intn(300)
}

func (g *G) msg(n int) *Content {
	if n < 100 && g.oneIn(6) {
		return &Content{Kind: "raw", Raw: bytes.Repeat([]byte{0}, n)}
	}
	if g.oneIn(12) {
		return &Content{Kind: "raw", Raw: []byte("untrusted comment: not really\n" + strings.Repeat("text\n", g.Intn(20)))}
	}
	c := &Content{Kind: "rand", Len: n, Seed: g.Uint64() >> 1}
	if n >= 8 && g.oneIn(5) { // beginnings and ends that text tools care about
		if p := msgHeads[g.Intn(len(msgHeads))]; len(p) <= n && g.oneIn(2) {
			c.Text = append(c.Text, Mut{Kind: "put", A: 0, Raw: []byte(p)})
		} else if p := msgTails[g.Intn(len(msgTails))]; len(p) <= n {
			c.Text = append(c.Text, Mut{Kind: "put", A: int64(n - len(p)), Raw: []byte(p)})
		}
	}
	if n >= 8 && g.oneIn(12) { // sparse
		c.Text = append(c.Text, Mut{Kind: "zero", A: g.Int63n(int64(n))})
	}
	return c
}

var msgHeads = []string{"\xef\xbb\xbf", "\xff\xfe", "#!/bin/sh\n", "\n", "\r\n", " \t", "\x00", "untrusted comment: ", "-----BEGIN", "\x1f\x8b\x08", "RWQ", "\x00\x00\x00\x00\x00\x00\x00\x01"}
var msgTails = []string{"\n", "\n\n", "\r\n", "\r", " ", "\x00", "\x00\x00\x00", "\x1a", "\x04", "=", "==\n", "\t \n", "\xff"}

func (g *G) junk() *Content {
	switch g.Intn(5) {
	case 0:
		return &Content{Kind: "raw", Raw: []byte{}}
	case 1:
		return &Content{Kind: "rand", Len: 1 + g.Intn(40), Seed: g.Uint64() >> 1}
	case 2:
		return &Content{Kind: "rand", Len: 1 + g.Intn(90000), Seed: g.Uint64() >> 1}
	case 3:
		return &Content{Kind: "raw", Raw: []byte("untrusted comment: old\n" + strings.Repeat("QUFB", g.Intn(400)) + "\n" + strings.Repeat("tail\n", g.Intn(50)))}
	}
	return &Content{Kind: "raw", Raw: bytes.Repeat([]byte("old content "), 1+g.Intn(300))}
}

// message adds a message file and returns its path.
func (g *G) message(n int) string {
	typ := ""
	if g.oneIn(8) {
		typ = []string{"fifo", "proc", "sys"}[g.Intn(3)]
		if typ == "sys" && n > 4096 {
			typ = "proc"
		}
	}
	c := g.msg(n)
	return g.via(g.put(g.path(), typ, g.mode()|0400, c))
}

func (g *G) prompt(k int) []wire.Answer {
	key := &g.sc.Keys[k]
	if key.Rounds == 0 {
		return nil
	}
	return []wire.Answer{{Pass: key.Pass}}
}

// nearMisses are other passphrases that are easily taken for p.
func nearMisses(p []byte) [][]byte {
	add := func(t string) []byte { return append(append([]byte(nil), p...), t...) }
	all := [][]byte{add("\x00"), add("\n"), add("\r"), add(" "), add("\r\n"), append([]byte(" "), p...), append([]byte("x"), p...),
		bytes.ToUpper(p), bytes.ToLower(p), bytes.TrimSpace(p), bytes.Trim(p, "\x00\r\n\t \xff"), bytes.ToValidUTF8(p, []byte("?")), bytes.ToValidUTF8(p, nil), bytes.Replace(p, []byte{0}, nil, -1), add(string(p)), p[:len(p)-1], p[1:]}
	for _, n := range []int{8, 32, 55, 56, 64, 72, 128} {
		if len(p) > n {
			all = append(all, p[:n])
		}
	}
	var out [][]byte
	for _, m := range all {
		if len(m) > 0 && !bytes.Equal(m, p) {
			out = append(out, append([]byte(nil), m...))
		}
	}
	return out
}

// wrong makes an answer that does not unlock key k.
func (g *G) wrong(k int) wire.Answer {
	p := append([]byte(nil), g.sc.Keys[k].Pass...)
	if !g.typed && g.oneIn(5) {
		return wire.Answer{Pass: nearMisses(p)[g.Intn(len(nearMisses(p)))]}
	}
	switch g.Intn(9) {
	case 0:
		return wire.Answer{Err: "prompt failed"}
	case 1:
		return wire.Answer{Pass: []byte{}}
	case 2:
		return wire.Answer{Pass: append(p, '\n')}
	case 3:
		return wire.Answer{Pass: append(p, 0)}
	case 4:
		if len(p) > 1 {
			return wire.Answer{Pass: p[:len(p)-1]}
		}
	case 5:
		p[g.Intn(len(p))] ^= 1 << uint(g.Intn(7))
		return wire.Answer{Pass: p}
	case 6:
		return wire.Answer{Pass: append([]byte(" "), p...)}
	}
	return wire.Answer{Pass: g.pass()}
}

func (g *G) noise() { // files that have nothing to do with anything
	for i := g.Intn(4); i > 0; i-- {
		g.put(g.path(), "", g.mode(), g.junk())
	}
}

func (g *G) phase(p Phase) *Phase {
	p.Entropy = uint64(len(g.sc.Phases) + 1)
	g.sc.Phases = append(g.sc.Phases, p)
	return &g.sc.Phases[len(g.sc.Phases)-1]
}

func (g *G) ops(ops ...wire.Op) *Phase {
	return g.phase(Phase{Kind: "ops", Tasks: []wire.Task{{ID: 0, Ops: ops}}})
}

// faults is a mixed plan.
func (g *G) faults() *Plan {
	switch g.Intn(6) {
	case 0:
		return &Plan{Legal: 1 + g.Intn(4)}
	case 1:
		return &Plan{Legal: g.Intn(3), Hard: 1}
	case 2, 3:
		return &Plan{Hard: 1}
	case 4:
		return &Plan{Hard: 2, Legal: g.Intn(2)}
	}
	return &Plan{Legal: 1 + g.Intn(2)}
}

func (g *G) withCrash() *Plan {
	switch g.Intn(4) {
	case 0:
		return &Plan{Crash: 1}
	case 1:
		return &Plan{Crash: 2}
	}
	return g.faults()
}

func (g *G) out(def string) string { // explicit or default output name
	if g.oneIn(3) {
		if g.oneIn(2) {
			g.put(def, "", g.mode()|0200, g.junk())
		}
		return ""
	}
	p := g.path()
	if g.oneIn(2) {
		g.put(p, "", g.mode()|0200, g.junk())
	}
	return p
}

func (g *G) signOp() (o wire.Op, k int) {
	k = g.key(-1)
	sec, pub := g.keyFiles(k)
	n := g.size()
	if g.large() && (g.sc.Prop == "C01" || g.sc.Prop == "C17") {
		n = g.largeSize()
	}
	m := g.message(n)
	o = wire.Op{Kind: "sign", A: sec, B: m, C: g.out(m + ".sig"), Prompt: g.prompt(k)}
	_ = pub
	return
}

func pubOf(g *G, k int) string {
	for _, f := range g.sc.Files {
		if f.C != nil && f.C.Kind == "pub" && f.C.Key == k && len(f.C.Bin)+len(f.C.Text) == 0 {
			return f.Path
		}
	}
	return ""
}

func secOf(g *G, k int) string {
	for _, f := range g.sc.Files {
		if f.C != nil && f.C.Kind == "sec" && f.C.Key == k && len(f.C.Bin)+len(f.C.Text) == 0 {
			return f.Path
		}
	}
	return ""
}

func (g *G) sealOp(n int) (o wire.Op, k int) {
	k = g.key(-1)
	_, pub := g.keyFiles(k)
	m := g.message(n)
	return wire.Op{Kind: "seal", A: pub, B: m, C: g.out(m + ".enc")}, k
}

func (g *G) enc(k int, msg *Content) *Content {
	return &Content{Kind: "enc", Key: k, Msg: msg, Seed: g.Uint64() >> 1}
}

func (g *G) openOp(n int) (o wire.Op, k int) {
	k = g.key(-1)
	sec, _ := g.keyFiles(k)
	typ := ""
	if g.oneIn(10) {
		typ = "fifo"
	}
	e := g.via(g.put(g.path(), typ, g.mode()|0400, g.enc(k, g.msg(n))))
	out := g.path()
	if g.oneIn(2) {
		g.put(out, "", g.mode()|0200, g.junk())
	}
	return wire.Op{Kind: "open", A: sec, B: e, C: out, Prompt: g.prompt(k)}, k
}

func (g *G) genOp(prot int) wire.Op {
	o := wire.Op{Kind: "gen", A: g.path()}
	if prot == 1 || prot < 0 && g.oneIn(3) {
		o.Pass = g.pass()
		o.Rounds = 1 + g.Intn(2)*g.Intn(2)
	} else if g.oneIn(2) {
		o.Rounds = g.Intn(4)
	}
	if g.oneIn(12) {
		o.Rounds, o.Flag = 0, 1
	}
	return o
}

func (g *G) verifyOp() (wire.Op, int) {
	k := g.key(0)
	_, pub := g.keyFiles(k)
	c := g.msg(g.size())
	m := g.via(g.put(g.path(), "", 0644, c))
	s := g.via(g.put(g.path(), "", 0644, &Content{Kind: "sig", Key: k, Msg: c, Comment: g.comment()}))
	return wire.Op{Kind: "verify", A: pub, B: m, C: s}, k
}

// anyOp makes one intact operation.
func (g *G) anyOp() (wire.Op, int) {
	switch g.Intn(5) {
	case 0:
		return g.signOp()
	case 1:
		return g.verifyOp()
	case 2:
		return g.sealOp(g.size())
	case 3:
		return g.openOp(g.size())
	}
	return g.genOp(-1), -1
}

// again lists the properties whose histories go on under the same names.
const again = "C01 C02 C03 C04 C05 C10 C12 C13 C14 C18 C19 C22"

// sameNames prolongs a sequence of operations: some files of an operation get
// other contents, and an operation uses the same names again.
func (g *G) sameNames() {
	if g.large() {
		return
	}
	for i := range g.sc.Phases {
		ph := &g.sc.Phases[i]
		if ph.Kind != "ops" || len(ph.Tasks) != 1 || ph.Race != "" || ph.Huge || ph.Big {
			continue
		}
		ops := ph.Tasks[0].Ops
		var cand []wire.Op
		for _, o := range ops {
			switch o.Kind {
			case "sign", "verify", "seal", "open":
				if !g.once(o.A) && !g.once(o.B) {
					cand = append(cand, o)
				}
			}
		}
		if len(cand) == 0 || ph.Plan != nil && ph.Plan.Crash == 2 {
			continue
		}
		for n := 1 + g.Intn(2); n > 0; n-- {
			o := cand[g.Intn(len(cand))]
			o2 := g.sibling(o)
			slots := []func(*wire.Op) *string{
				func(o *wire.Op) *string { return &o.A },
				func(o *wire.Op) *string { return &o.B },
			}
			if o.Kind == "verify" {
				for _, x := range []*wire.Op{&o, &o2} {
					if x.C == "" {
						x.C = x.B + ".sig"
					}
				}
				slots = append(slots, func(o *wire.Op) *string { return &o.C })
			} else if g.oneIn(2) {
				o2.C = targets(&o)[0]
			}
			style := g.Intn(4)
			for _, s := range slots {
				to, from := s(&o), s(&o2)
				if *to == *from || g.oneIn(4) {
					continue
				}
				ops = append(ops, wire.Op{Kind: "fscopy", A: *from, B: *to, Flag: style})
				*from = *to
			}
			ops = append(ops, o2)
		}
		ph.Tasks[0].Ops = ops
		return
	}
}

// misplace lets an input of an operation lie under a name like the one given,
// or in a usual place, but not where it was named.
func (g *G) misplace() {
	ph := &g.sc.Phases[g.Intn(len(g.sc.Phases))]
	o := ph.Intent
	if ph.Kind == "ops" && len(ph.Tasks) > 0 && !ph.Huge && !ph.Big {
		ops := ph.Tasks[g.Intn(len(ph.Tasks))].Ops
		if len(ops) == 0 {
			return
		}
		o = &ops[g.Intn(len(ops))]
	}
	if o == nil || o.Kind != "sign" && o.Kind != "verify" && o.Kind != "seal" && o.Kind != "open" {
		return
	}
	if o.Kind != "verify" && o.C != "" && ph.Kind == "ops" && g.oneIn(4) { // no such directory
		o.C = []string{"/w/missing/", "/w/d/not/there/", "gone/"}[g.Intn(3)] + path.Base(o.C)
		return
	}
	named := []string{o.A, o.B}
	ext := []string{".sec", ""}
	if o.Kind == "verify" || o.Kind == "seal" {
		ext[0] = ".pub"
	}
	if o.Kind == "open" {
		ext[1] = ".enc"
	}
	if o.Kind == "verify" {
		named, ext = append(named, o.C), append(ext, ".sig")
	}
	i := g.Intn(len(named))
	if named[i] == "" {
		return
	}
	p := absPath(g.sc.Cwd, named[i])
	to := []string{p + ext[i], p + ".sec", p + ".pub", p + ".bak", p + "~", strings.TrimSuffix(p, ext[i]), "/home/u/.signify/" + path.Base(p), "/w/" + path.Base(p), strings.ToLower(p), strings.TrimSuffix(p, path.Ext(p))}[g.Intn(10)]
	if i == 2 && g.oneIn(2) {
		to = absPath(g.sc.Cwd, o.B) + ".sig"
	}
	if to == p || strings.HasSuffix(to, "/") || find2(g.sc.Files, to) {
		return
	}
	for x := range g.sc.Files {
		if g.sc.Files[x].Path == p {
			g.sc.Files[x].Path = to
		}
	}
}

// misplacing lists the properties in whose histories files are missing.
const misplacing = "C01 C02 C03 C04 C12 C14 C17 C18 C19 C22"

// once tells whether the file can only be read once.
func (g *G) once(p string) bool {
	for i := 0; i < 4; i++ {
		p = absPath(g.sc.Cwd, p)
		for _, f := range g.sc.Files {
			if absPath(g.sc.Cwd, f.Path) != p {
				continue
			}
			if f.Type == "fifo" {
				return true
			}
			if f.Type == "link" {
				if p = string(f.C.Raw); !strings.HasPrefix(p, "/") {
					p = path.Dir(absPath(g.sc.Cwd, f.Path)) + "/" + p
				}
				break
			}
		}
	}
	return false
}

// sibling makes an operation of the same kind, with other files, or with the
// same ones but one that is damaged.
func (g *G) sibling(o wire.Op) (o2 wire.Op) {
	if x := g.contentOf(o.A); x != nil && x.Kind == "sec" && len(g.sc.Keys[x.Key].Pass) > 0 && g.oneIn(3) { // the same, but for the passphrase
		o2 = o
		o2.Prompt = []wire.Answer{g.wrong(x.Key)}
		if g.oneIn(2) {
			o2.Prompt = []wire.Answer{{Pass: g.sc.Keys[x.Key].Pass}}
		}
		return
	}
	if g.oneIn(2) {
		o2 = o
		p := []*string{&o2.A, &o2.B}
		if o.Kind == "verify" {
			if o2.C == "" {
				o2.C = o2.B + ".sig"
			}
			p = append(p, &o2.C)
		}
		x := p[g.Intn(len(p))]
		for _, f := range g.sc.Files {
			if f.Path == *x && f.C != nil && f.Type == "" {
				field := "text"
				if f.C.Kind != "rand" && f.C.Kind != "raw" && g.oneIn(2) {
					field = "bin"
				}
				c := g.flips(f.C, field)
				for _, k := range lenientSecs(c.build(g.sc.Keys)) {
					if k.Rounds > 64 { // it would only take very long
						c = f.C
					}
				}
				*x = g.put(g.path(), "", 0644, c)
				return
			}
		}
	}
	switch o.Kind {
	case "sign":
		o2, _ = g.signOp()
	case "verify":
		o2, _ = g.verifyOp()
	case "seal":
		o2, _ = g.sealOp(g.small())
	default:
		o2, _ = g.openOp(g.small())
	}
	if x := g.contentOf(o.B); g.oneIn(2) && x != nil && x.Kind == "rand" && len(x.Text) == 0 { // another message, as long
		y := *x
		y.Seed = g.Uint64() >> 1
		if o.Kind == "verify" {
			return
		}
		o2.B = g.put(g.path(), "", 0644, &y)
	}
	return
}

func (g *G) contentOf(p string) *Content {
	for _, f := range g.sc.Files {
		if f.Path == p && f.Type == "" {
			return f.C
		}
	}
	return nil
}

// ---- C01 ----

// genHugeSign signs or verifies a message of more than a gigabyte.
func genHugeSign(g *G, verify bool) {
	n := 1<<30 + 1 + g.Intn(100000)
	if g.thorough {
		n += 1 << 30
	}
	k := g.key(0)
	sec, pub := g.keyFiles(k)
	c := &Content{Kind: "zeros", Len: n}
	m := g.put(g.path(), "zeros", 0644, c)
	if !verify {
		s := g.path()
		g.ops(wire.Op{Kind: "sign", A: sec, B: m, C: s}, wire.Op{Kind: "verify", A: pub, B: m, C: s}).Huge = true
		return
	}
	short := &Content{Kind: "zeros", Len: n - 1 - g.Intn(2000)}
	s1 := g.put(g.path(), "", 0644, &Content{Kind: "sig", Key: k, Msg: c})
	s2 := g.put(g.path(), "", 0644, &Content{Kind: "sig", Key: k, Msg: short})
	g.ops(wire.Op{Kind: "verify", A: pub, B: m, C: s1}, wire.Op{Kind: "verify", A: pub, B: m, C: s2}).Huge = true
}

func genSign(g *G) {
	if g.idx == hugeIdx {
		genHugeSign(g, false)
		return
	}
	g.noise()
	o, k := g.signOp()
	ops := []wire.Op{o}
	if g.oneIn(5) { // a history: more than one signature, perhaps to the same output
		o2 := o
		o2.B = g.message(g.small())
		if o.C == "" || g.oneIn(2) {
			o2.C = g.path()
		}
		ops = append(ops, o2)
	}
	g.ops(ops...).Plan = g.faults()
	v := wire.Op{Kind: "verify", A: pubOf(g, k), B: o.B, C: o.C}
	g.ops(v)
}

// ---- C02 ----

func (g *G) flips(c *Content, field string) *Content {
	d := *c
	m := g.mut()
	if field == "bin" {
		d.Bin = append([]Mut{m}, d.Bin...)
	} else {
		d.Text = append([]Mut{m}, d.Text...)
	}
	return &d
}

func (g *G) mut() Mut {
	switch g.Intn(12) {
	case 0, 1, 2:
		return Mut{Kind: "flip", A: g.Int63n(1 << 20)}
	case 3:
		return Mut{Kind: "trunc", A: g.Int63n(1 << 20)}
	case 4:
		return Mut{Kind: "trunc", A: -1 - g.Int63n(4)}
	case 5:
		return Mut{Kind: "append", Raw: g.bytes(1 + g.Intn(4))}
	case 6:
		return Mut{Kind: "insert", A: g.Int63n(1 << 20), Raw: g.bytes(1 + g.Intn(3))}
	case 7:
		return Mut{Kind: "del", A: g.Int63n(1 << 20), B: 1 + g.Int63n(4)}
	case 8:
		return Mut{Kind: "dup", A: g.Int63n(1 << 20), B: 1 + g.Int63n(60)}
	case 9:
		return Mut{Kind: "zero", A: g.Int63n(1 << 20)}
	case 10:
		return Mut{Kind: "append", Raw: []byte("\n")}
	}
	return Mut{Kind: "insert", A: g.Int63n(1 << 20), Raw: []byte([]string{"\n", " ", "=", "\r", "A", "untrusted comment: \n"}[g.Intn(6)])}
}

func genVerify(g *G) {
	if g.idx == hugeIdx {
		genHugeSign(g, true)
		return
	}
	var ops []wire.Op
	n := 1 + g.Intn(6)
	plan := g.faults()
	if g.large() {
		n = 1
	}
	for i := 0; i < n; i++ {
		k := g.key(0)
		msg := g.msg(g.small())
		if g.oneIn(10) {
			msg = g.msg(g.size())
		}
		if g.large() {
			msg = g.msg(g.largeSize())
		}
		sig := &Content{Kind: "sig", Key: k, Msg: msg}
		pub := &Content{Kind: "pub", Key: k}
		file := msg
		ml := len(msg.build(g.sc.Keys))
		what := g.Intn(22)
		if g.large() {
			what = []int{0, 6, 7, 7}[g.Intn(4)]
		}
		switch what {
		case 0, 1: // genuine
		case 2:
			sig = g.flips(sig, "bin")
		case 3:
			sig = g.flips(sig, "text")
		case 4:
			pub = g.flips(pub, "bin")
		case 5:
			pub = g.flips(pub, "text")
		case 6:
			file = g.flips(msg, "text")
		case 7: // a signature of a prefix or an extension
			p := *msg
			cut := g.Int63n(int64(ml) + 1)
			for b := int64(1 << 16); g.large() && b <= int64(ml); b <<= 1 {
				if cut = b; g.oneIn(3) {
					break
				}
			}
			p.Text = []Mut{{Kind: "trunc", A: cut}}
			sig = &Content{Kind: "sig", Key: k, Msg: &p}
		case 8:
			p := *msg
			pad := []string{"\n", "\x00", " ", "x", "\r\n", "\xff", "\x1a"}[g.Intn(7)]
			n := 1
			if g.oneIn(2) { // up to the end of a block, as tapes and disks store it
				block := []int{2, 4, 8, 16, 64, 512, 1024, 4096}[g.Intn(8)]
				if n = block - ml%block; len(pad) > 1 || g.oneIn(2) {
					pad = "\x00"
				}
			}
			m := Mut{Kind: "append", Raw: bytes.Repeat([]byte(pad), n)}
			switch g.Intn(3) {
			case 0: // the message has lost it
				sig = &Content{Kind: "sig", Key: k, Msg: &p}
			case 1: // the message has got it
				file = &p
			default: // in front of it
				m.Kind, file = "insert", &p
			}
			p.Text = append(p.Text[:len(p.Text):len(p.Text)], m)
		case 9: // another key with the same number
			k2 := g.key(0)
			g.sc.Keys[k2].Num = g.sc.Keys[k].Num
			pub = &Content{Kind: "pub", Key: k2}
		case 10: // the same key under another number (last or first byte differs)
			k2 := g.key(0)
			g.sc.Keys[k2].Seed = g.sc.Keys[k].Seed
			g.sc.Keys[k2].Num = g.sc.Keys[k].Num
			g.sc.Keys[k2].Num[[]int{0, 7, g.Intn(8)}[g.Intn(3)]] ^= 1 << uint(g.Intn(8))
			pub = &Content{Kind: "pub", Key: k2}
		case 11: // another algorithm in the signature or key
			m := Mut{Kind: "put", A: 0, Raw: []byte([]string{"RS", "ED", "EB", "E\x00", "\x00\x00", "ed"}[g.Intn(6)])}
			if g.oneIn(2) {
				sig.Bin = []Mut{m}
			} else {
				pub.Bin = []Mut{m}
			}
		case 12: // S + L
			sig.Bin = []Mut{{Kind: "raw", Raw: addL(sig, g.sc.Keys)}}
		case 13: // extended or shortened blob
			if g.oneIn(2) {
				sig.Bin = []Mut{{Kind: "append", Raw: g.bytes(1 + g.Intn(70))}}
			} else {
				sig.Bin = []Mut{{Kind: "trunc", A: g.Int63n(74)}}
			}
		case 14: // wrong kinds of files
			switch g.Intn(4) {
			case 0:
				sig = pub
			case 1:
				sig = &Content{Kind: "sec", Key: k}
			case 2:
				pub = sig
			case 3:
				sig = g.junk()
			}
		case 15: // zero signature, zero key
			if g.oneIn(2) {
				sig.Bin = []Mut{{Kind: "put", A: 10, Raw: make([]byte, 64)}}
			} else {
				sig.Bin = []Mut{{Kind: "put", A: 10, Raw: append([]byte{1}, make([]byte, 63)...)}}
				pub.Bin = []Mut{{Kind: "put", A: 10, Raw: append([]byte{1}, make([]byte, 31)...)}}
			}
		case 20: // numbers of a special form
			n := append([]byte(nil), g.sc.Keys[k].Num[:]...)
			switch g.Intn(4) {
			case 0:
				n = make([]byte, 8)
			case 1:
				n = bytes.Repeat([]byte{0xff}, 8)
			case 2:
				for i := 0; i < 4; i++ {
					n[i], n[7-i] = n[7-i], n[i]
				}
			case 3:
				copy(n, make([]byte, 1+g.Intn(7)))
			}
			m := []Mut{{Kind: "put", A: 2, Raw: n}}
			if g.oneIn(2) {
				sig.Bin = m
			} else {
				pub.Bin = m
			}
		case 21: // a blob shortened by what may count as zero, or led by it
			m := []Mut{{Kind: "trunc", A: -1}}
			if g.oneIn(2) {
				g.zeroTail(k)
				pub.Bin = m
				break
			}
			if g.oneIn(5) {
				sig.Bin = []Mut{{Kind: "append", Raw: make([]byte, 1+g.Intn(4))}}
				break
			}
			msg = &Content{Kind: "raw", Raw: g.bytes(1 + g.Intn(50))}
			for i := 0; i < 400; i++ {
				binary.LittleEndian.PutUint32(g.sc.Keys[k].Seed[:], uint32(i))
				if s := ed25519.Sign(g.sc.Keys[k].ed(), msg.Raw); s[63] == 0 {
					break
				}
			}
			file, ml = msg, len(msg.Raw)
			sig = &Content{Kind: "sig", Key: k, Msg: msg, Bin: m}
		case 16: // signature of another message by the key
			sig = &Content{Kind: "sig", Key: k, Msg: g.msg(g.small())}
		case 17: // of the empty message
			sig = &Content{Kind: "sig", Key: k, Msg: &Content{Kind: "raw"}}
		case 18, 19: // the rest of the message cannot be read
			at := g.Intn(ml + 1)
			if g.oneIn(3) {
				at = 0
			}
			p := *msg
			p.Text = []Mut{{Kind: "trunc", A: int64(at)}}
			if at == ml {
				p.Text = nil
			}
			if ml > 0 && at < ml {
				sig = &Content{Kind: "sig", Key: k, Msg: &p}
			}
			mp := g.put(g.path(), "", 0644, file)
			ops = append(ops, wire.Op{Kind: "verify", A: g.put(g.path(), "", 0644, pub), B: mp, C: g.put(g.path(), "", 0644, sig)})
			plan = &Plan{Prefix: absPath(g.sc.Cwd, mp), PrefixLen: at}
			continue
		}
		mp := g.put(g.path(), "", 0644, file)
		op := wire.Op{Kind: "verify", A: g.put(g.path(), "", 0644, pub), B: mp}
		if g.oneIn(3) {
			g.put(mp+".sig", "", 0644, sig)
		} else {
			op.C = g.put(g.path(), "", 0644, sig)
		}
		if g.oneIn(30) {
			op.C = g.path() // absent
		}
		ops = append(ops, op)
	}
	g.ops(ops...).Plan = plan
}

// zeroTail makes the public key of k end with a zero byte.
func (g *G) zeroTail(k int) {
	for i := 0; i < 20000 && g.sc.Keys[k].pub()[31] != 0; i++ {
		binary.LittleEndian.PutUint32(g.sc.Keys[k].Seed[:], uint32(i))
	}
}

// addL gives the malleated signature blob with S+L.
func addL(sig *Content, keys []Key) []byte {
	c := *sig
	c.Bin = nil
	_, b, _ := strictText(c.build(keys))
	b = append([]byte(nil), b...)
	l := []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}
	carry := 0
	for i := 0; i < 32; i++ {
		v := int(b[42+i]) + int(l[i]) + carry
		b[42+i] = byte(v)
		carry = v >> 8
	}
	return b
}

// genTornSig signs for real, stops or damages what was stored, and verifies.
func genTornSig(g *G) {
	o, k := g.signOp()
	out := targets(&o)[0]
	if g.oneIn(2) {
		g.ops(o).Plan = g.withCrash()
	} else {
		g.ops(o)
		g.phase(Phase{Kind: "fs", Fs: []FsMut{{Path: out, Muts: []Mut{g.mut()}}}})
	}
	if g.oneIn(3) {
		g.phase(Phase{Kind: "fs", Fs: []FsMut{{Path: o.B, Muts: []Mut{g.mut()}}}})
	}
	g.ops(wire.Op{Kind: "verify", A: pubOf(g, k), B: o.B, C: o.C}).Plan = g.faults()
}

// ---- C03, C04 ----

// genHuge seals a message of more than 65536 chunks.
func genHuge(g *G) {
	k := g.key(0)
	_, pub := g.keyFiles(k)
	m := g.put(g.path(), "zeros", 0644, &Content{Kind: "zeros", Len: 65537*chunkSize + 1 + g.Intn(1000)})
	g.ops(wire.Op{Kind: "seal", A: pub, B: m, C: g.path()}).Huge = true
}

func genSeal(g *G) {
	if g.idx == hugeIdx {
		genHuge(g)
		return
	}
	g.noise()
	n := g.size()
	if g.large() {
		n = g.largeSize()
	}
	o, k := g.sealOp(n)
	p := g.ops(o)
	p.Plan = g.faults()
	if g.oneIn(4) {
		p.Plan = &Plan{Hard: 1, Class: []string{"close", "write"}}
	}
	if g.oneIn(2) {
		g.ops(wire.Op{Kind: "open", A: secOf(g, k), B: targets(&o)[0], C: g.path(), Prompt: g.prompt(k)})
	}
}

func genSealMutating(g *G) { // the message grows or shrinks while it is sealed
	n := g.size()
	o, k := g.sealOp(n)
	// a regular file only
	for i := range g.sc.Files {
		if g.sc.Files[i].Type != "link" {
			g.sc.Files[i].Type, g.sc.Files[i].Chunks = "", nil
		}
	}
	_ = k
	var app []wire.Op
	if n > 0 && g.oneIn(2) {
		app = append(app, wire.Op{Kind: "fstrunc", A: o.B, Rounds: g.Intn(n)})
	} else {
		app = append(app, wire.Op{Kind: "fsappend", A: o.B, Data: g.bytes(1 + g.Intn(20000))})
	}
	p := g.phase(Phase{Kind: "ops", Race: "mutate", Tasks: []wire.Task{{ID: 1, Ops: []wire.Op{o}}, {ID: 2, Ops: app}}})
	p.Plan = &Plan{Delays: 1 + g.Intn(4), Legal: g.Intn(3)}
	if g.oneIn(2) {
		p.Plan.Delays = -1
	}
}

func genOpen(g *G) {
	if g.idx == hugeIdx {
		n := 1<<25 + g.Intn(1<<20)
		if g.thorough {
			n = 1<<26 + g.Intn(1<<20)
		}
		k := g.key(0)
		sec, _ := g.keyFiles(k)
		e := g.put(g.path(), "", 0644, g.enc(k, &Content{Kind: "rand", Len: n, Seed: g.Uint64() >> 1}))
		g.ops(wire.Op{Kind: "open", A: sec, B: e, C: g.path()}).Big = true
		return
	}
	g.noise()
	var o wire.Op
	if g.oneIn(4) { // sealed by the real code
		so, k := g.sealOp(g.size())
		g.ops(so)
		o = wire.Op{Kind: "open", A: secOf(g, k), B: targets(&so)[0], C: g.path(), Prompt: g.prompt(k)}
		if g.oneIn(2) {
			g.put(o.C, "", 0644, g.junk())
		}
	} else {
		n := g.size()
		if g.large() {
			n = g.largeSize()
		}
		o, _ = g.openOp(n)
	}
	p := g.ops(o)
	p.Plan = g.faults()
	if g.oneIn(4) {
		p.Plan = &Plan{Hard: 1, Class: []string{"close", "write"}}
	}
}

// ---- C05 ----

func genDamagedCLI(g *G) {
	g.damage = true
	command(4)(g)
}

func (g *G) encMuts(k int, other *Content) (bin, text []Mut) {
	for i := 1 + g.Intn(10)/8; i > 0; i-- {
		switch g.Intn(16) {
		case 0, 1:
			text = append(text, g.mut())
		case 2:
			bin = append(bin, g.mut())
		case 3:
			bin = append(bin, Mut{Kind: "flip", A: g.Int63n(72 * 8)}) // header
		case 4:
			bin = append(bin, Mut{Kind: "chunkswap", A: g.Int63n(8), B: g.Int63n(8)})
		case 5:
			m := Mut{Kind: "chunkdrop", A: g.Int63n(8)}
			if g.oneIn(2) {
				m.Raw = []byte{1}
			}
			bin = append(bin, m)
		case 6:
			m := Mut{Kind: "chunkdup", A: g.Int63n(8), B: g.Int63n(8)}
			if g.oneIn(2) {
				m.Raw = []byte{1}
			}
			bin = append(bin, m)
		case 7:
			bin = append(bin, Mut{Kind: "chunkfrom", A: g.Int63n(8), B: g.Int63n(8), C: other})
		case 8:
			bin = append(bin, Mut{Kind: "headfrom", C: other})
		case 9: // another chunk count
			var c [8]byte
			binary.BigEndian.PutUint64(c[:], uint64(g.Intn(6)))
			bin = append(bin, Mut{Kind: "put", A: 0, Raw: c[:]})
		case 10:
			bin = append(bin, Mut{Kind: "trunc", A: 72 + g.Int63n(5)*sealedSize})
		case 11:
			bin = append(bin, Mut{Kind: "put", A: 40, Raw: make([]byte, 32)})
		case 12:
			var c [8]byte
			binary.BigEndian.PutUint64(c[:], g.Uint64()>>uint(g.Intn(64)))
			bin = append(bin, Mut{Kind: "put", A: 0, Raw: c[:]})
		case 13: // torn at a chunk boundary of the text
			text = append(text, Mut{Kind: "trunc", A: int64(len(encComment)) + 97 + g.Int63n(3)*(sealedSize*4/3+sealedSize*4/3/72)})
		case 14:
			text = append(text, Mut{Kind: "zero", A: g.Int63n(1 << 20)})
		case 15: // low-order or zero ephemeral key
			bin = append(bin, Mut{Kind: "put", A: 8, Raw: make([]byte, 32)})
		}
	}
	return
}

func (g *G) counts() uint64 {
	return []uint64{1000, 5 + uint64(g.Intn(100)), 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 50, 1<<63 - 1, 1 << 63, 1<<64 - 1}[g.Intn(12)]
}

func genDamagedEnc(g *G) {
	n := g.size()
	if g.oneIn(3) {
		n = []int{0, chunkSize, 2 * chunkSize, 2*chunkSize + 5, 3 * chunkSize, 3*chunkSize - 1}[g.Intn(6)]
	}
	if g.oneIn(4) { // really sealed, then damaged
		so, k := g.sealOp(n)
		p := g.ops(so)
		if g.oneIn(2) {
			p.Plan = &Plan{Crash: 1 + g.Intn(2)}
		} else {
			g.phase(Phase{Kind: "fs", Fs: []FsMut{{Path: targets(&so)[0], Muts: []Mut{g.mut()}}}})
		}
		g.ops(wire.Op{Kind: "open", A: secOf(g, k), B: targets(&so)[0], C: g.path(), Prompt: g.prompt(k)}).Plan = g.withCrash()
		return
	}
	o, k := g.openOp(n)
	f := &g.sc.Files[0]
	for i := range g.sc.Files {
		if g.sc.Files[i].C.Kind == "enc" {
			f = &g.sc.Files[i]
		}
	}
	if g.oneIn(14) { // a genuine header that promises more
		f.C.Count = g.counts()
	} else if !g.oneIn(8) {
		ko := k
		if g.oneIn(3) {
			ko = g.key(0)
		}
		other := g.enc(ko, g.msg(n))
		f.C.Bin, f.C.Text = g.encMuts(k, other)
		if f.Type == "fifo" {
			f.Type, f.Chunks = "", nil
		}
	}
	if g.oneIn(2) { // nothing there before: any byte left is the program's doing
		for i := range g.sc.Files {
			if g.sc.Files[i].Path == absPath(g.sc.Cwd, o.C) {
				g.sc.Files = append(g.sc.Files[:i], g.sc.Files[i+1:]...)
				break
			}
		}
	}
	g.ops(o).Plan = g.withCrash()
}

// ---- C06 ----

func genFresh(g *G) {
	if g.idx == hugeIdx {
		genHuge(g)
		return
	}
	if g.idx%97 == 11 || g.thorough && g.idx%41 == 3 { // more than 256 chunks
		k := g.key(0)
		_, pub := g.keyFiles(k)
		m := g.put(g.path(), "", 0644, &Content{Kind: "rand", Len: 257*chunkSize + g.Intn(3*chunkSize), Seed: g.Uint64() >> 1})
		g.ops(wire.Op{Kind: "seal", A: pub, B: m, C: g.path()})
		return
	}
	k := g.key(0)
	_, pub := g.keyFiles(k)
	pubs := []string{pub}
	if g.oneIn(2) {
		_, p2 := g.keyFiles(g.key(0))
		pubs = append(pubs, p2)
	}
	var msgs []string
	for i := 1 + g.Intn(3); i > 0; i-- {
		n := 16 + g.size()
		if g.oneIn(5) {
			n = g.Intn(3)
		}
		if g.oneIn(3) {
			n = []int{chunkSize, 2*chunkSize + 100, 3 * chunkSize, 5*chunkSize + 17}[g.Intn(4)]
		}
		msgs = append(msgs, g.put(g.path(), "", 0644, &Content{Kind: "rand", Len: n, Seed: g.Uint64() >> 1}))
	}
	out := ""
	op := func() wire.Op {
		if out == "" || g.oneIn(3) {
			out = g.path()
		} else {
			out = []string{out, g.path()}[g.Intn(2)]
		}
		if g.oneIn(4) { // not a regular file
			typ := []string{"fifo", "proc"}[g.Intn(2)]
			return wire.Op{Kind: "seal", A: pubs[g.Intn(len(pubs))], B: g.put(g.path(), typ, 0644, &Content{Kind: "rand", Len: 24 + g.size(), Seed: g.Uint64() >> 1}), C: out}
		}
		return wire.Op{Kind: "seal", A: pubs[g.Intn(len(pubs))], B: msgs[g.Intn(len(msgs))], C: out}
	}
	for i := 1 + g.Intn(3); i > 0; i-- {
		if g.oneIn(3) { // several tasks of one process
			var ts []wire.Task
			for t := 1; t <= 2+g.Intn(2); t++ {
				o := op()
				o.C = g.path()
				ts = append(ts, wire.Task{ID: t, Ops: []wire.Op{o}})
			}
			g.phase(Phase{Kind: "ops", Tasks: ts}).Plan = &Plan{Delays: -1, Legal: g.Intn(3)}
			continue
		}
		var ops []wire.Op
		for x := 1 + g.Intn(3); x > 0; x-- {
			ops = append(ops, op())
		}
		g.ops(ops...).Plan = g.withCrash()
	}
}

// ---- C07, C08, C09, C25 ----

func genKeys(g *G) {
	g.noise()
	var ops []wire.Op
	if g.idx%173 == 7 { // more rounds than one byte can say
		g.ops(wire.Op{Kind: "gen", A: g.path(), Pass: g.pass(), Rounds: 64 + g.Intn(90)})
		return
	}
	for i := 1 + g.Intn(2); i > 0; i-- {
		ops = append(ops, g.genOp(-1))
	}
	if g.oneIn(12) { // more rounds than a key file can say, or fewer than none
		ops = append(ops, wire.Op{Kind: "gen", A: g.path(), Pass: g.pass(), Rounds: []int{-1, -7, 1 << 32, 1<<32 + 1, 1<<32 + 2, 3<<32 + 1, -1<<32 + 1, -1<<32 + 3, 1 << 48, -1 << 63, -1<<63 + 1}[g.Intn(11)]})
	}
	if g.oneIn(25) { // the defaults, again and again
		ops = nil
		for i := 2 + g.Intn(2); i > 0; i-- {
			o := wire.Op{Kind: "gen", A: g.path()}
			if i == 1 || g.oneIn(3) {
				o.Pass = g.pass()
			}
			ops = append(ops, o)
		}
	}
	g.ops(ops...).Plan = g.withCrash()
	o := ops[0]
	var pr []wire.Answer
	if len(o.Pass) > 0 {
		pr = []wire.Answer{{Pass: o.Pass}}
	}
	m := g.put(g.path(), "", 0644, g.msg(g.small()))
	if g.oneIn(3) {
		g.ops(wire.Op{Kind: "sign", A: o.A + ".sec", B: m, C: m + ".s", Prompt: pr}, wire.Op{Kind: "verify", A: o.A + ".pub", B: m, C: m + ".s"},
			wire.Op{Kind: "seal", A: o.A + ".pub", B: m, C: m + ".e"}, wire.Op{Kind: "open", A: o.A + ".sec", B: m + ".e", C: m + ".o", Prompt: pr})
	}
}

func genExposure(g *G) {
	g.sc.Umask = []uint32{0, 022, 002, 077, 027, 0777, 0007}[g.Intn(7)]
	if g.oneIn(5) {
		g.cliWorld()
		base := g.path()
		args := []string{"-G", "-p", base}
		p := Phase{Kind: "cli", HaveTTY: true, Intent: &wire.Op{Kind: "gen", A: base}}
		switch g.Intn(4) {
		case 0:
			pw := g.pass()
			p.Lines = [][]byte{pw, pw}
		case 1: // not confirmed
			pw := g.pass()
			p.Lines = [][]byte{pw, g.pass()}
			if g.oneIn(2) {
				p.Lines[1] = append(append([]byte(nil), pw...), 'x')
			}
		case 2: // use of a protected key, perhaps with a mistyped passphrase
			k := g.key(1)
			sec, _ := g.keyFiles(k)
			m := g.put(g.path(), "", 0644, g.msg(g.small()))
			o := wire.Op{Kind: "sign", A: sec, B: m, C: g.path()}
			if g.oneIn(2) {
				o = wire.Op{Kind: "open", A: sec, B: g.put(g.path(), "", 0644, g.enc(k, g.msg(g.small()))), C: g.path()}
			}
			p.Intent, args = &o, cliArgs(g, &o)
			p.Lines = [][]byte{g.sc.Keys[k].Pass}
			if g.oneIn(2) {
				if w := g.wrong(k); len(w.Pass) > 0 && !bytes.ContainsAny(w.Pass, "\r\n\x00") {
					p.Lines = [][]byte{w.Pass}
				}
			}
			if g.oneIn(3) {
				for i := range g.sc.Files {
					if f := &g.sc.Files[i]; f.Path == absPath(g.sc.Cwd, sec) && f.Type != "link" {
						f.C = g.flips(f.C, "bin")
					}
				}
			}
		default:
			args = []string{"-G", "-n", "-p", base}
		}
		p.CLI = &wire.CLI{Args: args, Env: g.env()}
		g.phase(p).Plan = g.withCrash()
		return
	}
	if g.oneIn(4) { // use of protected keys writes no secrets either
		k := g.key(1)
		sec, pub := g.keyFiles(k)
		m := g.put(g.path(), "", 0644, g.msg(g.small()))
		e := g.put(g.path(), "", 0644, g.enc(k, g.msg(g.small())))
		pr := g.prompt(k)
		if g.oneIn(3) {
			pr = []wire.Answer{g.wrong(k)}
		}
		g.ops(wire.Op{Kind: "sign", A: sec, B: m, C: g.path(), Prompt: pr}, wire.Op{Kind: "open", A: sec, B: e, C: g.path(), Prompt: g.prompt(k)},
			wire.Op{Kind: "seal", A: pub, B: m, C: g.path()}).Plan = g.withCrash()
		return
	}
	if g.oneIn(6) { // several generations at a time
		p := g.phase(Phase{Kind: "ops", Tasks: []wire.Task{{ID: 1, Ops: []wire.Op{g.genOp(-1)}}, {ID: 2, Ops: []wire.Op{g.genOp(-1)}}}})
		p.Plan = &Plan{Delays: -1, Hard: g.Intn(2)}
		return
	}
	o := g.genOp(-1)
	g.ops(o).Plan = g.withCrash()
	if g.oneIn(3) {
		g.ops(g.genOp(1)).Plan = g.withCrash()
	}
}

// genRace has several generations of the same name at once.
func genRace(g *G) {
	name := g.path()
	var ts []wire.Task
	for t := 1; t <= 2+g.Intn(3); t++ {
		o := wire.Op{Kind: "gen", A: name}
		if g.oneIn(3) {
			o.Pass, o.Rounds = g.pass(), 1
		}
		ops := []wire.Op{o}
		if g.oneIn(3) {
			ops = append(ops, o)
		}
		ts = append(ts, wire.Task{ID: t, Ops: ops})
	}
	if g.oneIn(3) { // another program stores a key file meanwhile
		k := g.key(-1)
		c := &Content{Kind: []string{"pub", "sec"}[g.Intn(2)], Key: k}
		x := wire.Op{Kind: "fsexcl", A: name + "." + c.Kind, Data: c.build(g.sc.Keys)}
		ts = append(ts[:1+g.Intn(len(ts))], wire.Task{ID: 9, Ops: []wire.Op{x}})
	} else if g.oneIn(4) {
		k := g.key(-1)
		g.put(name+[]string{".sec", ".pub"}[g.Intn(2)], "", 0600, &Content{Kind: "sec", Key: k})
	}
	p := g.phase(Phase{Kind: "ops", Race: "gen", Tasks: ts})
	switch g.Intn(3) {
	case 0:
		p.Plan = &Plan{Delays: -1}
	case 1:
		p.Plan = &Plan{Delays: 1 + g.Intn(5)}
	case 2:
		p.Plan = &Plan{Delays: 1 + g.Intn(5), Legal: g.Intn(2), Hard: g.Intn(2)}
	}
}

func genOverwrite(g *G) {
	if g.oneIn(2) {
		genRace(g)
		return
	}
	o := g.genOp(-1)
	k := g.key(-1)
	c := []*Content{{Kind: "sec", Key: k}, {Kind: "pub", Key: k}}
	if g.oneIn(3) {
		c[0], c[1] = g.junk(), g.junk()
	}
	which := 1 + g.Intn(3)
	if which&1 != 0 {
		g.put(o.A+".sec", "", []uint32{0600, 0400, 0644, 0}[g.Intn(4)], c[0])
	}
	if which&2 != 0 {
		g.put(o.A+".pub", "", g.mode(), c[1])
	}
	if g.oneIn(5) { // an earlier generation that was interrupted
		g.sc.Files = g.sc.Files[:0]
		g.ops(o).Plan = g.withCrash()
	}
	if g.oneIn(6) {
		g.cliWorld()
		g.phase(Phase{Kind: "cli", HaveTTY: true, CLI: &wire.CLI{Args: []string{"-G", "-n", "-p", o.A}, Env: g.env()}, Intent: &wire.Op{Kind: "gen", A: o.A}}).Plan = g.withCrash()
		return
	}
	g.ops(o).Plan = g.withCrash()
}

func genEntropy(g *G) {
	var ops []wire.Op
	for i := 1 + g.Intn(3); i > 0; i-- {
		if g.oneIn(2) {
			o := g.genOp(-1)
			ops = append(ops, o)
		} else {
			k := g.key(0)
			_, pub := g.keyFiles(k)
			m := g.put(g.path(), "", 0644, g.msg(g.small()))
			ops = append(ops, wire.Op{Kind: "seal", A: pub, B: m, C: g.path()})
		}
	}
	p := g.ops(ops...)
	switch g.Intn(3) {
	case 0, 1:
		p.Plan = &Plan{Legal: 1 + g.Intn(4), Class: []string{"rand"}}
	default:
		p.Plan = &Plan{Hard: 1, Legal: g.Intn(2), Class: []string{"rand"}}
	}
	if g.oneIn(3) { // another process
		g.ops(ops[0], g.genOp(-1)).Plan = &Plan{Legal: 2, Class: []string{"rand"}}
		if ops[0].Kind == "gen" {
			g.sc.Phases[1].Tasks[0].Ops[0].A = g.path()
		}
	}
}

// ---- C10 ----

func genBadKey(g *G) {
	var ops []wire.Op
	for i := 1 + g.Intn(4); i > 0; i-- {
		k := g.key(-1)
		c := &Content{Kind: "sec", Key: k}
		switch g.Intn(16) {
		case 15: // shortened by what may count as zero
			g.sc.Keys[k].Pass, g.sc.Keys[k].Rounds = nil, 0
			g.zeroTail(k)
			c.Bin = []Mut{{Kind: "trunc", A: -1}}
		case 0:
			c.Bin = []Mut{{Kind: "flip", A: g.Int63n(16)}} // algorithm
		case 1, 2, 3:
			c.Bin = []Mut{{Kind: "flip", A: 40*8 + g.Int63n(64*8)}} // key
		case 4, 5:
			c.Bin = []Mut{{Kind: "flip", A: 24*8 + g.Int63n(8*8)}} // checksum
		case 6:
			c.Bin = []Mut{{Kind: "trunc", A: g.Int63n(104)}}
		case 7:
			c.Bin = []Mut{{Kind: "append", Raw: g.bytes(1 + g.Intn(8))}}
		case 8:
			c.Text = []Mut{{Kind: "trunc", A: g.Int63n(200)}}
		case 9:
			c.Bin = []Mut{{Kind: "zero", A: 40 + g.Int63n(64)}}
		case 10:
			c = g.flips(c, "text")
		case 11:
			c.Bin = []Mut{{Kind: "flip", A: 8*8 + g.Int63n(16*8)}} // salt
		case 12: // a field of a special form
			f := [][2]int{{0, 2}, {24, 8}, {24, 4}, {28, 4}, {40, 32}, {72, 32}, {40, 64}, {0, 4}, {8, 16}}[g.Intn(9)]
			v := []byte{0, 0, 0xff, ' ', 'A', '0'}[g.Intn(6)]
			c.Bin = []Mut{{Kind: "put", A: int64(f[0]), Raw: bytes.Repeat([]byte{v}, f[1])}}
		case 13: // the algorithm's name written otherwise
			c.Bin = []Mut{{Kind: "put", A: 0, Raw: []byte([]string{"ed", "ED", "eD", "E\x00", "Ec", "dE", "RS", "Es"}[g.Intn(8)])}}
		case 14: // half another key
			k2 := g.key(0)
			sd := g.sc.Keys[k2].Seed
			c.Bin = []Mut{{Kind: "put", A: int64(40 + 32*g.Intn(2)), Raw: sd[:]}}
		}
		if strings.Contains(fmt.Sprint(c.Bin), "flip 4") { // never a huge round count
		}
		sec := g.put(g.path()+".sec", "", 0600, c)
		pr := g.prompt(k)
		if len(pr) == 0 && g.oneIn(2) {
			pr = []wire.Answer{{Pass: g.pass()}}
		}
		out := g.path()
		if g.oneIn(2) {
			g.put(out, "", 0644, g.junk())
		}
		switch g.Intn(4) {
		case 0, 1:
			m := g.put(g.path(), "", 0644, g.msg(g.small()))
			ops = append(ops, wire.Op{Kind: "sign", A: sec, B: m, C: out, Prompt: pr})
		case 2:
			e := g.put(g.path(), "", 0644, g.enc(k, g.msg(g.small())))
			ops = append(ops, wire.Op{Kind: "open", A: sec, B: e, C: out, Prompt: pr})
		case 3:
			ops = append(ops, wire.Op{Kind: "loadpriv", A: sec, Slot: i}, wire.Op{Kind: "tobox", Slot: i, Prompt: pr})
			if g.oneIn(2) {
				ops = append(ops, wire.Op{Kind: "tobox", Slot: i, Prompt: pr})
			}
		}
	}
	p := g.ops(ops...)
	if g.oneIn(2) {
		p.Plan = g.faults()
	} else {
		p.Plan = &Plan{Legal: g.Intn(3)}
	}
}

func genTornKey(g *G) { // a generation stopped by a crash, then used
	o := g.genOp(-1)
	g.ops(o).Plan = &Plan{Crash: 1 + g.Intn(2)}
	var pr []wire.Answer
	if len(o.Pass) > 0 {
		pr = []wire.Answer{{Pass: o.Pass}}
	}
	if g.oneIn(2) {
		g.phase(Phase{Kind: "fs", Fs: []FsMut{{Path: o.A + ".sec", Muts: []Mut{g.mut()}}}})
	}
	k := g.key(0)
	m := g.put(g.path(), "", 0644, g.msg(g.small()))
	e := g.put(g.path(), "", 0644, g.enc(k, g.msg(g.small())))
	g.ops(wire.Op{Kind: "sign", A: o.A + ".sec", B: m, C: g.path(), Prompt: pr}, wire.Op{Kind: "open", A: o.A + ".sec", B: e, C: g.path(), Prompt: pr},
		wire.Op{Kind: "loadpriv", A: o.A + ".sec"}, wire.Op{Kind: "tobox", Prompt: pr})
}

// ---- C11 ----

func genUnlock(g *G) {
	var ops []wire.Op
	var k0 int
	var sec0 string
	for s := 0; s < 1+g.Intn(2); s++ {
		k := g.key(1)
		if g.oneIn(6) {
			g.sc.Keys[k].Rounds = 0
		}
		sec, _ := g.keyFiles(k)
		if s > 0 && g.oneIn(2) { // the same file again
			k, sec = k0, sec0
		}
		k0, sec0 = k, sec
		if g.oneIn(6) { // a key that was never stored
			o := wire.Op{Kind: "genpair", Slot: s, Pass: g.sc.Keys[k].Pass, Rounds: g.Intn(3)}
			if g.sc.Keys[k].Rounds == 0 {
				o.Pass = nil
			}
			if o.Rounds == 0 && !g.oneIn(6) {
				o.Rounds = 1
			}
			ops = append(ops, o)
		} else {
			ops = append(ops, wire.Op{Kind: "loadpriv", A: sec, Slot: s})
		}
		unlocked := false
		n := 2 + g.Intn(5)
		late := false
		if g.oneIn(12) { // many attempts
			n, late = 8+g.Intn(30), true
		}
		for i := n; i > 0; i-- {
			if g.oneIn(3) {
				ops = append(ops, wire.Op{Kind: "check", Slot: s})
			}
			if g.oneIn(8) {
				ops = append(ops, wire.Op{Kind: "isenc", Slot: s})
			}
			o := wire.Op{Kind: "tobox", Slot: s}
			switch {
			case (g.oneIn(2) || late && i > 2) && !unlocked:
				o.Prompt = []wire.Answer{g.wrong(k)}
			case unlocked && g.oneIn(2): // must not matter any more
				if g.oneIn(2) {
					o.Prompt = []wire.Answer{g.wrong(k)}
				}
			default:
				o.Prompt = []wire.Answer{{Pass: g.sc.Keys[k].Pass}}
				unlocked = true
			}
			ops = append(ops, o)
		}
		ops = append(ops, wire.Op{Kind: "tobox", Slot: s, Prompt: []wire.Answer{{Pass: g.sc.Keys[k].Pass}}}, wire.Op{Kind: "check", Slot: s}, wire.Op{Kind: "tobox", Slot: s}, wire.Op{Kind: "isenc", Slot: s}, wire.Op{Kind: "topub", Slot: s})
	}
	if g.oneIn(3) { // interleave two keys
		var a, b []wire.Op
		for _, o := range ops {
			if o.Slot == 0 {
				a = append(a, o)
			} else {
				b = append(b, o)
			}
		}
		ops = nil
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && g.oneIn(2) {
				ops, a = append(ops, a[0]), a[1:]
			} else {
				ops, b = append(ops, b[0]), b[1:]
			}
		}
	}
	g.ops(ops...).Plan = &Plan{Hard: g.Intn(3), Class: []string{"prompt"}}
	if g.oneIn(3) {
		g.sc.Phases[0].Plan = &Plan{Legal: 1 + g.Intn(3)}
	}
}

// ---- C12, C13 ----

func genWrongPass(g *G) {
	g.noise()
	var ops []wire.Op
	for i := 1 + g.Intn(3); i > 0; i-- {
		k := g.key(1)
		sec, _ := g.keyFiles(k)
		pr := []wire.Answer{g.wrong(k)}
		if g.oneIn(4) {
			pr = nil
		}
		if g.oneIn(5) {
			pr = g.prompt(k)
		}
		if g.oneIn(2) {
			m := g.put(g.path(), "", 0644, g.msg(g.small()))
			ops = append(ops, wire.Op{Kind: "sign", A: sec, B: m, C: g.out(m + ".sig"), Prompt: pr})
		} else {
			e := g.put(g.path(), "", 0644, g.enc(k, g.msg(g.small())))
			out := g.path()
			if !g.oneIn(3) {
				g.put(out, "", 0644, g.junk())
			}
			ops = append(ops, wire.Op{Kind: "open", A: sec, B: e, C: out, Prompt: pr})
		}
	}
	if g.oneIn(6) {
		g.cliWorld()
		o := ops[0]
		p := Phase{Kind: "cli", HaveTTY: !g.oneIn(5), Intent: &o, CLI: &wire.CLI{Args: cliArgs(g, &o), Env: g.env()}}
		if len(o.Prompt) > 0 && o.Prompt[0].Err == "" && !bytes.ContainsAny(o.Prompt[0].Pass, "\n\r") {
			p.Lines = [][]byte{o.Prompt[0].Pass}
		}
		o.Prompt = nil
		g.phase(p).Plan = &Plan{Legal: g.Intn(3), Hard: g.Intn(2), Class: []string{"ttyread", "read", "open"}}
		return
	}
	p := g.ops(ops...)
	switch g.Intn(3) {
	case 0:
		p.Plan = &Plan{Legal: 1 + g.Intn(3)}
	case 1:
		p.Plan = &Plan{Hard: 1, Class: []string{"prompt"}}
	case 2:
		p.Plan = g.faults()
	}
}

func genWipe(g *G) {
	var ops []wire.Op
	for i := 1 + g.Intn(3); i > 0; i-- {
		k := g.key(1)
		sec, _ := g.keyFiles(k)
		pr := g.prompt(k)
		if g.oneIn(3) {
			pr = []wire.Answer{g.wrong(k)}
		}
		switch g.Intn(3) {
		case 0:
			m := g.put(g.path(), "", 0644, g.msg(g.small()))
			if g.oneIn(6) {
				m = g.path() // missing
			}
			ops = append(ops, wire.Op{Kind: "sign", A: sec, B: m, C: g.path(), Prompt: pr})
		case 1:
			c := g.enc(k, g.msg(g.small()))
			if g.oneIn(4) {
				c.Bin, c.Text = g.encMuts(k, c)
				for i := range c.Bin {
					c.Bin[i].C = nil
				}
			}
			e := g.put(g.path(), "", 0644, c)
			ops = append(ops, wire.Op{Kind: "open", A: sec, B: e, C: g.path(), Prompt: pr})
		case 2:
			ops = append(ops, wire.Op{Kind: "loadpriv", A: sec, Slot: i}, wire.Op{Kind: "tobox", Slot: i, Prompt: pr})
			if g.oneIn(2) {
				ops = append(ops, wire.Op{Kind: "tobox", Slot: i, Prompt: g.prompt(k)})
			}
		}
	}
	g.ops(ops...).Plan = g.faults()
}

// ---- C14 ----

func (g *G) garbage() *Content {
	k := g.key(-1)
	pick := []string{"sec", "pub", "sig", "enc"}[g.Intn(4)]
	good := &Content{Kind: pick, Key: k, Msg: g.msg(g.small()), Seed: g.Uint64() >> 1}
	switch g.Intn(14) {
	case 0:
		return &Content{Kind: "raw"}
	case 1:
		return &Content{Kind: "rand", Len: g.Intn(400), Seed: g.Uint64() >> 1}
	case 2:
		return &Content{Kind: "raw", Raw: []byte(strings.Repeat("\n", 1+g.Intn(4)))}
	case 3: // any length of blob
		return &Content{Kind: "b64", Raw: append([]byte([]string{"Ed", "EdBK", "", "XX"}[g.Intn(4)]), g.bytes(g.Intn(130))...), Bin: nil}
	case 4: // a small blob
		return &Content{Kind: "b64", Raw: g.bytes(g.Intn(12))}
	case 5: // a very long line
		return &Content{Kind: "raw", Raw: []byte("untrusted comment: " + strings.Repeat("x", 60000+g.Intn(20000)) + "\nRWQ=\n")}
	case 6:
		return &Content{Kind: "raw", Raw: []byte("untrusted comment: x\n" + strings.Repeat("QUFB", 10000+g.Intn(10000)) + "\n")}
	case 7:
		return &Content{Kind: "raw", Raw: []byte(strings.Repeat("untrusted comment: x\n", 1+g.Intn(50)))}
	case 8: // no final newline, CRLF
		d := *good
		d.Text = []Mut{{Kind: []string{"crlf", "trunc"}[g.Intn(2)], A: -1}}
		return &d
	case 9: // torn
		d := *good
		d.Text = []Mut{{Kind: "trunc", A: g.Int63n(1 << 20)}}
		return &d
	case 10:
		d := *good
		d.Bin = []Mut{{Kind: "trunc", A: g.Int63n(1 << 20)}}
		return &d
	case 11: // rest is zeros
		d := *good
		d.Text = []Mut{{Kind: "zero", A: g.Int63n(1 << 20)}}
		return &d
	case 12:
		return g.flips(good, "text")
	}
	return good
}

func genGarbage(g *G) {
	var ops []wire.Op
	for i := 1 + g.Intn(7); i > 0; i-- {
		k := g.key(0)
		sec, pub := g.keyFiles(k)
		msg := g.msg(g.small())
		m := g.put(g.path(), "", 0644, msg)
		s := g.put(g.path(), "", 0644, &Content{Kind: "sig", Key: k, Msg: msg})
		e := g.put(g.path(), "", 0644, g.enc(k, msg))
		bad := g.safeGarbage()
		pr := []wire.Answer{{Pass: g.pass()}}
		gp := g.put(g.path(), "", 0644, bad)
		switch g.Intn(9) {
		case 0:
			ops = append(ops, wire.Op{Kind: "sign", A: gp, B: m, C: g.path(), Prompt: pr})
		case 1:
			ops = append(ops, wire.Op{Kind: "verify", A: gp, B: m, C: s})
		case 2, 3:
			ops = append(ops, wire.Op{Kind: "verify", A: pub, B: m, C: gp})
		case 4:
			ops = append(ops, wire.Op{Kind: "seal", A: gp, B: m, C: g.path()})
		case 5, 6:
			if bad.Kind == "enc" || g.oneIn(2) {
				c := g.enc(k, msg)
				if g.oneIn(5) {
					c.Count = g.counts()
				} else {
					c.Bin, c.Text = g.encMuts(k, g.enc(k, msg))
				}
				gp = g.put(g.path(), "", 0644, c)
			}
			ops = append(ops, wire.Op{Kind: "open", A: sec, B: gp, C: g.path()})
		case 7:
			ops = append(ops, wire.Op{Kind: "open", A: gp, B: e, C: g.path(), Prompt: pr})
		case 8:
			ops = append(ops, wire.Op{Kind: "loadpriv", A: gp, Slot: i}, wire.Op{Kind: "tobox", Slot: i, Prompt: pr}, wire.Op{Kind: "check", Slot: i},
				wire.Op{Kind: "loadpub", A: gp, Slot: 100 + i}, wire.Op{Kind: "topub", Slot: 100 + i})
		}
	}
	p := g.ops(ops...)
	if g.oneIn(3) {
		p.Plan = g.faults()
	} else {
		p.Plan = &Plan{Legal: 1 + g.Intn(3)}
	}
}

// safeGarbage avoids secret keys announcing an enormous number of KDF rounds,
// which take correspondingly long by design.
func (g *G) safeGarbage() *Content {
	for {
		c := g.garbage()
		ok := true
		for _, b := range blobs(c.build(g.sc.Keys)) {
			if len(b) >= 8 && binary.BigEndian.Uint32(b[4:8]) > 40 && string(b[2:4]) == "BK" {
				ok = false
			}
		}
		if ok {
			return c
		}
	}
}

// genTornAny: a real operation stopped by a crash; everything it left is then
// given to the operations that read it.
func genTornAny(g *G) {
	k := g.key(0)
	sec, pub := g.keyFiles(k)
	m := g.put(g.path(), "", 0644, g.msg(g.size()))
	x := g.path()
	switch g.Intn(3) {
	case 0:
		g.ops(wire.Op{Kind: "sign", A: sec, B: m, C: x}).Plan = &Plan{Crash: 1 + g.Intn(2)}
		g.ops(wire.Op{Kind: "verify", A: pub, B: m, C: x})
	case 1:
		g.ops(wire.Op{Kind: "seal", A: pub, B: m, C: x}).Plan = &Plan{Crash: 1 + g.Intn(2)}
		g.ops(wire.Op{Kind: "open", A: sec, B: x, C: g.path()})
	case 2:
		g.ops(wire.Op{Kind: "gen", A: x}).Plan = &Plan{Crash: 1 + g.Intn(2)}
		g.ops(wire.Op{Kind: "sign", A: x + ".sec", B: m, C: g.path()}, wire.Op{Kind: "seal", A: x + ".pub", B: m, C: g.path()},
			wire.Op{Kind: "loadpub", A: x + ".pub"}, wire.Op{Kind: "topub"})
	}
}

// ---- C15, C16 ----

func (g *G) pieces() []int {
	switch g.Intn(5) {
	case 0:
		return nil
	case 1:
		return []int{1 + g.Intn(4)}
	case 2:
		return []int{[]int{1, 2, 3, 18, 53, 54, 55, 72, 108}[g.Intn(9)]}
	}
	var out []int
	for i := 1 + g.Intn(6); i > 0; i-- {
		out = append(out, 1+g.Intn(1+g.Intn(130)))
	}
	return out
}

func genEncoder(g *G) {
	var ops []wire.Op
	for i := 4 + g.Intn(12); i > 0; i-- {
		n := g.Intn(400)
		if g.oneIn(3) {
			n = []int{0, 1, 2, 3, 52, 53, 54, 55, 56, 107, 108, 109, 162}[g.Intn(13)]
		}
		d := g.bytes(n)
		if g.oneIn(6) {
			d = make([]byte, n)
		}
		o := wire.Op{Kind: "enc", Data: d, Sizes: g.pieces()}
		if i == 1 && g.idx%50 == 9 { // large writes
			o.Data = g.bytes([]int{4096, 1 << 16, 1<<16 + 1, 1 << 20, 1<<20 + 1, 3 << 20}[g.Intn(6)] + g.Intn(3))
			o.Sizes = [][]int{{len(o.Data)}, {1 << 16}, {4095}, {len(o.Data) - 1}, nil}[g.Intn(5)]
		}
		if len(o.Sizes) > 1 && g.oneIn(4) {
			o.Sizes[g.Intn(len(o.Sizes)-1)] = 0
		}
		if g.oneIn(8) {
			o.Flag = 2 << uint(g.Intn(2))
		}
		ops = append(ops, o)
	}
	g.ops(ops...).Plan = &Plan{Hard: 1 + g.Intn(4), Class: []string{"swrite"}}
}

func genDecoder(g *G) {
	var ops []wire.Op
	for i := 4 + g.Intn(12); i > 0; i-- {
		n := g.Intn(300)
		if g.oneIn(3) {
			n = []int{0, 1, 2, 3, 52, 53, 54, 55, 56, 107, 108, 109, 162}[g.Intn(13)]
		}
		large := i == 1 && g.idx%50 == 9
		if large {
			n = []int{1000, 4096, 1 << 14, 49152, 1 << 16, 1 << 18}[g.Intn(6)] + g.Intn(5)
		}
		data := g.bytes(n)
		text := encExpect(data)
		what := g.Intn(12)
		if large {
			what = []int{1, 2, 6, 7, 11}[g.Intn(5)]
		}
		switch what {
		case 7: // a long run of empty lines
			k := g.Intn(len(text) + 1)
			text = text[:k] + strings.Repeat("\n", 1+g.Intn(6000)) + text[k:]
		case 0: // other line lengths
			t := base64.StdEncoding.EncodeToString(data)
			text = ""
			for len(t) > 0 {
				k := 1 + g.Intn(min(len(t), 90))
				text += t[:k] + strings.Repeat("\n", g.Intn(3))
				t = t[k:]
			}
		case 1:
			text = base64.StdEncoding.EncodeToString(data)
		case 2:
			text += "\n"
		case 3: // cut
			if len(text) > 0 {
				text = text[:g.Intn(len(text))]
			}
		case 4: // an invalid character
			if len(text) > 0 {
				b := []byte(text)
				b[g.Intn(len(b))] = []byte("!*- \x00\xff=.")[g.Intn(8)]
				text = string(b)
			}
		case 5:
			text = strings.Repeat("\n", g.Intn(5)) + text
		case 8:
			text = strings.ReplaceAll(text, "\n", "\r\n")
			if g.oneIn(4) { // stray ones
				k := g.Intn(len(text) + 1)
				text = text[:k] + strings.Repeat("\r", 1+g.Intn(3)) + text[k:]
			}
		case 6: // data after padding
			text = base64.StdEncoding.EncodeToString(data) + "\n" + base64.StdEncoding.EncodeToString(g.bytes(1+g.Intn(6)))
		}
		o := wire.Op{Kind: "dec", Data: []byte(text), Sizes: g.pieces(), Pieces: g.pieces(), Flag: g.Intn(2)}
		if g.oneIn(3) {
			o.Pieces = []int{1}
		}
		if len(o.Sizes) > 1 && g.oneIn(4) {
			o.Sizes[g.Intn(len(o.Sizes)-1)] = 0
		}
		if g.oneIn(4) {
			o.Sizes = []int{[]int{72, sealedSize, 4096, 3, 24}[g.Intn(5)]}
		}
		if large {
			o.Sizes = [][]int{{n}, {512}, {4096}, {sealedSize}, {n + 1}, {1 << 15, 1}}[g.Intn(6)]
			o.Pieces = [][]int{{1 << 20}, {4096}, {1024, 1}, nil}[g.Intn(4)]
		}
		if g.oneIn(8) {
			o.Flag |= 2
		}
		ops = append(ops, o)
	}
	p := g.ops(ops...)
	switch g.Intn(3) {
	case 0:
		p.Plan = &Plan{Legal: 1 + g.Intn(5), Class: []string{"sread"}}
	default:
		p.Plan = &Plan{Hard: 1 + g.Intn(3), Legal: g.Intn(3), Class: []string{"sread"}}
	}
}

// ---- the command: C17, C24 ----

func (g *G) cliWorld() {
	g.typed = true
	if find2(g.sc.Files, "/etc/passwd") {
		return
	}
	g.put("/etc/passwd", "", 0644, &Content{Kind: "raw", Raw: []byte("daemon:x:1:1::/:/bin/sh\nroot:x:0:0:root:/home/u:/bin/sh\n")})
	g.sc.Files = append(g.sc.Files, SFile{Path: "/home/u/.signify", Type: "dir", Mode: 0700})
}

func find2(fs []SFile, p string) bool {
	for _, f := range fs {
		if f.Path == p {
			return true
		}
	}
	return false
}

func (g *G) env() []string { return []string{"HOME=/home/u", "USER=root"} }

func cliArgs(g *G, o *wire.Op) []string {
	var a []string
	pair := func(f, v string) {
		if v == "" {
			return
		}
		switch g.Intn(5) {
		case 0:
			a = append(a, "-"+f+"="+v)
		case 1:
			a = append(a, "--"+f, v)
		default:
			a = append(a, "-"+f, v)
		}
	}
	mode := map[string]string{"sign": "-S", "verify": "-V", "seal": "-E", "open": "-D", "gen": "-G"}[o.Kind]
	last := g.oneIn(4)
	if !last {
		a = append(a, mode)
	}
	switch o.Kind {
	case "sign":
		pair("s", o.A)
		pair("m", o.B)
		pair("x", o.C)
	case "verify":
		pair("p", o.A)
		pair("x", o.C)
		pair("m", o.B)
	case "seal":
		pair("p", o.A)
		pair("m", o.B)
		pair("c", o.C)
	case "open":
		pair("s", o.A)
		pair("c", o.B)
		pair("m", o.C)
	case "gen":
		pair("p", o.A)
		if len(o.Pass) == 0 {
			a = append(a, "-n")
		}
	}
	if last {
		a = append(a, mode)
	}
	return a
}

// command gives single runs of the command that do some kinds of things.
func command(kinds ...int) func(*G) {
	return func(g *G) {
		g.kinds = kinds
		genCLI(g)
	}
}

func genCLI(g *G) {
	g.cliWorld()
	var o wire.Op
	var k int
	x := g.Intn(6)
	if len(g.kinds) > 0 {
		x = g.kinds[g.Intn(len(g.kinds))]
	}
	switch x {
	case 0:
		o, k = g.signOp()
	case 1, 2:
		o, k = g.verifyOp()
		if g.oneIn(2) { // not genuine
			for i := range g.sc.Files {
				f := &g.sc.Files[i]
				if f.Path == absPath(g.sc.Cwd, []string{o.A, o.B, o.C}[g.Intn(3)]) && f.Type != "link" {
					f.C = g.flips(f.C, "text")
				}
			}
		}
		k = -1
	case 3:
		o, _ = g.sealOp(g.size())
		k = -1
	case 4:
		o, k = g.openOp(g.size())
		if g.oneIn(4) || g.damage {
			for i := range g.sc.Files {
				if f := &g.sc.Files[i]; f.C != nil && f.C.Kind == "enc" && f.Type == "" {
					f.C.Bin, f.C.Text = g.encMuts(k, f.C)
					for x := range f.C.Bin {
						f.C.Bin[x].C = nil
					}
				}
			}
		}
	case 5:
		o = wire.Op{Kind: "gen", A: g.path()}
		k = -1
		if g.oneIn(4) { // a file of that name exists
			g.put(o.A+[]string{".sec", ".pub"}[g.Intn(2)], "", g.mode(), g.junk())
		}
	}
	if o.Kind != "gen" && o.Kind != "open" && o.Kind != "seal" && g.oneIn(10) {
		*[]*string{&o.A, &o.B}[g.Intn(2)] = g.path() // missing
	}
	p := Phase{Kind: "cli", HaveTTY: !g.oneIn(12), Intent: &o}
	o.Prompt = nil
	if k >= 0 && g.sc.Keys[k].Rounds > 0 {
		p.Lines = [][]byte{g.sc.Keys[k].Pass}
		if g.oneIn(4) {
			w := g.wrong(k)
			if !bytes.ContainsAny(w.Pass, "\r\n\x00") {
				p.Lines = [][]byte{w.Pass}
			}
		}
		if g.oneIn(4) {
			p.TTYSplit = g.pieces()
		}
	}
	if o.Kind == "gen" && g.oneIn(12) {
		pw := g.pass()
		o.Pass = pw
		p.Lines = [][]byte{pw, pw}
		if g.oneIn(2) {
			p.Lines[1] = g.pass()
		}
	}
	args := cliArgs(g, &o)
	if o.Kind == "gen" && len(o.Pass) == 0 && g.oneIn(4) { // nobody types a passphrase
		var rest []string
		for _, a := range args {
			if a != "-n" {
				rest = append(rest, a)
			}
		}
		args, p.HaveTTY, p.NoPass = rest, g.oneIn(4), true
	}
	o.Pass = nil
	if len(g.kinds) == 0 && g.oneIn(6) { // mistyped or incomplete
		p.Intent = nil
		p.Lines = nil
		mode := map[string]string{"sign": "-S", "verify": "-V", "seal": "-E", "open": "-D", "gen": "-G"}[o.Kind]
		var rest []string
		for _, a := range args {
			if a != mode {
				rest = append(rest, a)
			}
		}
		switch g.Intn(6) {
		case 0: // no operation named
			args = rest
		case 1: // unknown option
			i := g.Intn(len(args) + 1)
			if i > 0 && strings.HasPrefix(args[i-1], "-") && len(strings.TrimLeft(args[i-1], "-")) == 1 && args[i-1] != mode {
				i--
			}
			args = append(args[:i:i], append([]string{[]string{"--typo", "-Z", "-verify", "--message=x", "-q"}[g.Intn(5)]}, args[i:]...)...)
		case 2: // an option without its value
			args = append([]string{mode}, append(rest, []string{"-x", "-m", "-p", "-s", "-c"}[g.Intn(5)])...)
		case 3: // no options at all
			args = [][]string{nil, nil, {"help"}, {"sign", "x"}, {"--"}, {"-"}, {"version"}, {mode[1:]}, {"--", mode}, {""}}[g.Intn(10)]
		case 4: // a bad boolean
			args = append([]string{mode + "=maybe"}, rest...)
		case 5: // no message
			if o.Kind == "gen" {
				args = []string{"-G=perhaps"}
			} else {
				args = []string{mode}
				g.sc.Files = append(g.sc.Files[:0:0], g.sc.Files...)
			}
		}
	}
	p.CLI = &wire.CLI{Args: args, Env: g.env()}
	g.phase(p).Plan = g.withCrash()
}

func genCLIDefaults(g *G) {
	home, user := "/home/u", "root"
	env := g.env()
	switch g.Intn(5) {
	case 0: // no passwd entry: the environment decides
		home, user = []string{"/home/v", "/h o m e"}[g.Intn(2)], []string{"bob", "x.y"}[g.Intn(2)]
		env = []string{"HOME=" + home, "USER=" + user}
		g.sc.Files = append(g.sc.Files, SFile{Path: home + "/.signify", Type: "dir", Mode: 0700})
		if g.oneIn(2) {
			g.put("/etc/passwd", "", 0644, &Content{Kind: "raw", Raw: []byte("daemon:x:1:1::/:/bin/sh\n")})
		}
	default:
		g.cliWorld()
	}
	base := home + "/.signify/" + user
	m := g.put(g.path(), "", 0644, g.msg(g.small()))
	if g.oneIn(3) { // files of the same name elsewhere
		k := g.key(0)
		for _, d := range []string{"/w/", "/w/d/", home + "/"} {
			if g.oneIn(2) {
				g.put(d+user+".sec", "", 0600, &Content{Kind: "sec", Key: k})
				g.put(d+user+".pub", "", 0644, &Content{Kind: "pub", Key: k})
				if g.oneIn(2) {
					g.put(d+user, "", 0644, g.junk())
				}
			}
		}
		g.sc.Cwd = []string{"/w", "/w/d", home}[g.Intn(3)]
		m = g.put(g.path(), "", 0644, g.msg(g.small()))
	}
	moving := g.oneIn(4) // from one directory to another
	if moving {
		m = absPath(g.sc.Cwd, m)
	}
	nodir := g.oneIn(6) && home != "/home/v" && home != "/h o m e" // no directory for the keys at first
	if nodir {
		for i := range g.sc.Files {
			if g.sc.Files[i].Path == home+"/.signify" {
				g.sc.Files = append(g.sc.Files[:i], g.sc.Files[i+1:]...)
				break
			}
		}
	}
	cli := func(in wire.Op, lines [][]byte, args ...string) *Phase {
		cwd := ""
		if moving {
			cwd = []string{"/w", "/w/d", "/", "/tmp", home}[g.Intn(5)]
		}
		return g.phase(Phase{Cwd: cwd, Kind: "cli", HaveTTY: true, Intent: &in, Lines: lines, CLI: &wire.CLI{Args: args, Env: env}})
	}
	var pw [][]byte
	var p1 [][]byte
	named := g.oneIn(4)
	kb := base
	gen := []string{"-G"}
	if named {
		kb = g.path()
		if g.oneIn(3) {
			kb += []string{".pub", ".sec", ".pub.sec", "."}[g.Intn(4)]
		} else if g.oneIn(6) { // no name at all
			kb = []string{"/w/d/", "/w/sub dir/", "/w/d/./"}[g.Intn(3)]
		}
		if moving {
			kb = absPath(g.sc.Cwd, kb)
		}
		gen = append(gen, "-p", kb)
	}
	if g.oneIn(6) {
		w := g.pass()
		pw, p1 = [][]byte{w, w}, [][]byte{w}
	} else {
		gen = append(gen, "-n")
	}
	if g.oneIn(3) {
		gen = append(gen[1:], gen[0])
		if named {
			gen = append([]string{"-G", "-p", kb}, gen[len(gen):]...)
			if pw == nil {
				gen = append(gen, "-n")
			}
		}
	}
	cli(wire.Op{Kind: "gen", A: kb}, pw, gen...)
	arg := func(f, suffix string) []string {
		if named {
			return []string{f, kb + suffix}
		}
		return nil
	}
	var steps []func()
	if nodir && g.oneIn(2) {
		g.phase(Phase{Kind: "fs", Fs: []FsMut{{Path: home + "/.signify/x", Set: g.junk()}}})
		if g.oneIn(2) {
			cli(wire.Op{Kind: "gen", A: kb}, pw, gen...)
		}
	}
	out := absPath(g.sc.Cwd, g.path())
	steps = append(steps,
		func() {
			cli(wire.Op{Kind: "sign", A: kb + ".sec", B: m}, p1, append([]string{"-S", "-m", m}, arg("-s", ".sec")...)...)
			cli(wire.Op{Kind: "verify", A: kb + ".pub", B: m}, nil, append([]string{"-V", "-m", m}, arg("-p", ".pub")...)...)
		},
		func() {
			cli(wire.Op{Kind: "seal", A: kb + ".pub", B: m}, nil, append([]string{"-E", "-m", m}, arg("-p", ".pub")...)...)
			cli(wire.Op{Kind: "open", A: kb + ".sec", B: m + ".enc", C: out}, p1, append([]string{"-D", "-c", m + ".enc", "-m", out}, arg("-s", ".sec")...)...)
		})
	if g.oneIn(2) {
		steps[0], steps[1] = steps[1], steps[0]
	}
	for _, s := range steps {
		s()
		if g.oneIn(3) {
			s()
		}
	}
	for i := range g.sc.Phases {
		if g.oneIn(3) {
			g.sc.Phases[i].Plan = &Plan{Legal: 1 + g.Intn(3)}
		}
	}
}

// ---- C18, C22 ----

// neighbour adds a file unless there is one of that name.
func (g *G) neighbour(p string) {
	a := absPath(g.sc.Cwd, p)
	if b := path.Base(a); find2(g.sc.Files, a) || len(b) > 255 || b == "." || b == "/" {
		return
	}
	g.put(p, "", g.mode(), g.junk())
}

func genTouch(g *G) {
	g.noise()
	g.noise()
	var ops []wire.Op
	for i := 1 + g.Intn(2); i > 0; i-- {
		o, k := g.anyOp()
		if k >= 0 && g.sc.Keys[k].Rounds > 0 && g.oneIn(3) && len(o.Prompt) > 0 {
			o.Prompt = []wire.Answer{g.wrong(k)}
		}
		if g.oneIn(4) && o.Kind != "gen" { // damaged inputs
			i := g.Intn(len(g.sc.Files))
			if f := &g.sc.Files[i]; f.Type == "" && f.C != nil && f.C.Kind != "sec" {
				f.C = g.flips(f.C, "text")
			}
		}
		if g.oneIn(16) && (o.Kind == "sign" || o.Kind == "seal" || o.Kind == "open") {
			o.C = "/dev/null"
			ops = append(ops, o)
			continue
		}
		ops = append(ops, o)
		// neighbours with similar names
		for _, t := range targets(&o) {
			for _, s := range []string{"~", ".tmp", ".bak", ".new", ".old", "1"} {
				if g.oneIn(4) {
					g.neighbour(t + s)
				}
			}
		}
		for _, t := range append(targets(&o), o.A, o.B) {
			for t != "" && !g.oneIn(3) {
				d, b := path.Split(t)
				ext := path.Ext(b)
				s := []string{".part", ".partial", ".lock", ".swp", ".orig", ".sig", ".enc", ".dec", ".asc", ".plain", ".out", ".in", ".temp", "_", ".0", ".1", "-", ".save", ".backup", ".journal", ".pid", ".sec", ".pub"}
				switch g.Intn(5) {
				case 0:
					g.neighbour(d + []string{".", "_", "#", "~", ".#", "tmp", "new-"}[g.Intn(7)] + b)
				case 1:
					g.neighbour(strings.TrimSuffix(t, ext) + s[g.Intn(len(s))])
				case 2:
					g.neighbour(d + "." + b + s[g.Intn(len(s))])
				default:
					g.neighbour(t + s[g.Intn(len(s))])
				}
			}
		}
	}
	g.ops(ops...).Plan = g.withCrash()
}

func genLeak(g *G) {
	var ops []wire.Op
	for i := 1 + g.Intn(3); i > 0; i-- {
		switch g.Intn(6) {
		case 0:
			bad := g.put(g.path(), "", 0644, g.safeGarbage())
			k := g.key(0)
			sec, pub := g.keyFiles(k)
			m := g.put(g.path(), "", 0644, g.msg(g.small()))
			ops = append(ops, []wire.Op{{Kind: "open", A: sec, B: bad, C: g.path()}, {Kind: "verify", A: pub, B: m, C: bad}, {Kind: "seal", A: bad, B: m, C: g.path()},
				{Kind: "sign", A: bad, B: m, C: g.path(), Prompt: []wire.Answer{{Pass: g.pass()}}}}[g.Intn(4)])
		case 1: // an output that cannot be opened
			o, _ := g.anyOp()
			if o.Kind == "sign" || o.Kind == "seal" || o.Kind == "open" {
				o.C = "/w/no/such/dir/x"
				if g.oneIn(2) {
					o.C = "/w"
				}
			}
			ops = append(ops, o)
		case 2:
			o, k := g.anyOp()
			if k >= 0 && g.sc.Keys[k].Rounds > 0 && len(o.Prompt) > 0 {
				o.Prompt = []wire.Answer{g.wrong(k)}
			}
			ops = append(ops, o)
		default:
			o, _ := g.anyOp()
			ops = append(ops, o)
		}
	}
	g.ops(ops...).Plan = g.faults()
}

// ---- C19 ----

func genRetry(g *G) {
	var o wire.Op
	var k int
	switch g.Intn(3) {
	case 0:
		o, k = g.signOp()
	case 1:
		o, k = g.sealOp(g.size())
	case 2:
		o, k = g.openOp(g.size())
	}
	_ = k
	for i := range g.sc.Files {
		f := &g.sc.Files[i]
		if f.Type != "" && f.Type != "dir" { // an input that can be read again
			f.Type, f.Chunks = "", nil
		}
	}
	out := targets(&o)[0]
	if !find2(g.sc.Files, absPath(g.sc.Cwd, out)) && g.oneIn(2) {
		g.put(out, "", 0644, &Content{Kind: "rand", Len: g.Intn(120000), Seed: g.Uint64() >> 1})
	}
	bad := o
	if g.oneIn(4) && len(o.Prompt) > 0 {
		bad.Prompt = []wire.Answer{g.wrong(k)}
	}
	if g.oneIn(3) { // in the same process
		p := g.ops(bad, o)
		p.Plan = &Plan{Hard: 1 + g.Intn(2), Ops: []int{0}}
		if g.oneIn(2) {
			p.Plan.Kinds = []string{"err", "closeerr"}
		}
		return
	}
	for i := 1 + g.Intn(2); i > 0; i-- {
		g.ops(bad).Plan = g.withCrash()
		if g.oneIn(3) {
			g.phase(Phase{Kind: "fs", Fs: []FsMut{{Path: out, Muts: []Mut{g.mut()}}}})
		}
	}
	g.ops(o).Plan = &Plan{Legal: g.Intn(3)}
}

// ---- C20 ----

// together gives the operations of some kinds concurrently.
func together(kinds ...int) func(*G) {
	return func(g *G) {
		g.kinds = kinds
		genConcurrent(g)
	}
}

func genConcurrent(g *G) {
	n := 2 + g.Intn(3)
	if len(g.kinds) == 0 {
		g.kinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	}
	var ts []wire.Task
	var prologue []wire.Op
	shared := g.key(0)
	sec, pub := g.keyFiles(shared)
	msg := g.msg(g.size())
	m := g.put(g.path(), "", 0644, msg)
	sig := g.put(g.path(), "", 0644, &Content{Kind: "sig", Key: shared, Msg: msg})
	e := g.put(g.path(), "", 0644, g.enc(shared, msg))
	if g.oneIn(3) {
		k := g.key(-1)
		s2, _ := g.keyFiles(k)
		prologue = append(prologue, wire.Op{Kind: "loadpriv", A: s2}, wire.Op{Kind: "tobox", Prompt: g.prompt(k)}, wire.Op{Kind: "loadpub", A: pub, Slot: 1})
	}
	kind := -1
	if g.oneIn(2) {
		kind = g.kinds[g.Intn(len(g.kinds))] // all tasks do the same kind of thing
	}
	alike := g.Intn(3)
	g.locked = kind >= 0 && g.oneIn(2)
	own := func() bool { return alike == 2 || alike == 0 && g.oneIn(2) }
	for t := 1; t <= n; t++ {
		var ops []wire.Op
		for i := 1 + g.Intn(2); i > 0; i-- {
			x := kind
			if x < 0 {
				x = g.kinds[g.Intn(len(g.kinds))]
			}
			switch x {
			case 0:
				if !own() {
					ops = append(ops, wire.Op{Kind: "sign", A: sec, B: m, C: g.path()})
				} else {
					o, _ := g.signOp()
					ops = append(ops, o)
				}
			case 1:
				if !own() {
					ops = append(ops, wire.Op{Kind: "verify", A: pub, B: m, C: sig})
				} else {
					o, _ := g.verifyOp()
					if g.oneIn(3) {
						o.C = sig
					}
					ops = append(ops, o)
				}
			case 2, 3:
				if !own() {
					ops = append(ops, wire.Op{Kind: "seal", A: pub, B: m, C: g.path()})
				} else {
					o, _ := g.sealOp(g.size())
					ops = append(ops, o)
				}
			case 4, 5:
				if !own() {
					ops = append(ops, wire.Op{Kind: "open", A: sec, B: e, C: g.path()})
				} else {
					o, k := g.openOp(g.size())
					if len(o.Prompt) > 0 && g.oneIn(3) {
						o.Prompt = []wire.Answer{g.wrong(k)}
					}
					ops = append(ops, o)
				}
			case 6:
				ops = append(ops, g.genOp(-1))
			case 7:
				if len(prologue) > 0 {
					ops = append(ops, wire.Op{Kind: "tobox"}, wire.Op{Kind: "check"}, wire.Op{Kind: "topub", Slot: 1})
				} else {
					k := g.key(-1)
					s2, _ := g.keyFiles(k)
					ops = append(ops, wire.Op{Kind: "loadpriv", A: s2, Slot: 10 * t}, wire.Op{Kind: "tobox", Slot: 10 * t, Prompt: g.prompt(k)})
				}
			case 8, 9, 10:
				if x == 9 || x == 8 && g.oneIn(2) {
					ops = append(ops, wire.Op{Kind: "enc", Data: g.bytes(g.Intn(300)), Sizes: g.pieces()})
				} else {
					ops = append(ops, wire.Op{Kind: "dec", Data: []byte(encExpect(g.bytes(g.Intn(300)))), Sizes: g.pieces(), Pieces: g.pieces()})
				}
			}
		}
		ts = append(ts, wire.Task{ID: t, Ops: ops})
	}
	p := g.phase(Phase{Kind: "ops", Prologue: prologue, Tasks: ts, Solo: true})
	p.Plan = &Plan{Delays: -1}
	switch g.Intn(4) {
	case 0:
		p.Plan = &Plan{Delays: 2 + g.Intn(6)}
	case 1:
		p.Plan = &Plan{Delays: -1, Legal: 1 + g.Intn(4)}
	case 2:
		p.Plan = &Plan{Delays: -1, Hard: 1, Legal: g.Intn(2), Kinds: []string{"err", "closeerr"}}
	}
}

// ---- C21 ----

func genPrompt(g *G) {
	g.typed = true
	var ops []wire.Op
	eof := false
	n := 1 + g.Intn(4)
	for i := 0; i < n; i++ {
		o := wire.Op{Kind: "prompt", Flag: g.Intn(2)}
		pw := g.pass()
		switch g.Intn(8) {
		case 0:
			pw = nil
		case 1:
			pw = g.bytes(g.Intn(300))
			for i := range pw {
				pw[i] = pw[i]%95 + 32
			}
		case 2:
			pw = []byte(" lead and trail \t")
		case 3:
			pw = append(pw, make([]byte, 1+g.Intn(2))...)
		case 4: // not UTF-8
			for i := range pw {
				if pw[i] >= 'a' && g.oneIn(3) {
					pw[i] |= 0x80
				}
			}
		}
		lines := [][]byte{pw}
		if o.Flag == 1 || g.oneIn(5) {
			second := append([]byte(nil), pw...)
			switch g.Intn(10) {
			case 8:
				second = nil
			case 9:
				second = append(second, 0)
			case 0:
				second = g.pass()
			case 1:
				second = append(second, 'x')
			case 2:
				if len(second) > 0 {
					second = second[:len(second)-1]
				}
			case 3:
				if len(second) > 0 {
					second[g.Intn(len(second))] ^= 0x20
					second = bytes.ReplaceAll(bytes.ReplaceAll(second, []byte("\n"), []byte("k")), []byte("\r"), []byte("r"))
				}
			}
			lines = append(lines, second)
		}
		o.TTY = ttyChunks(lines, g.pieces())
		if g.oneIn(10) && i == n-1 { // input ends early
			cut := o.TTY[:g.Intn(len(o.TTY))]
			o.TTY = append([][]byte{}, cut...)
			if len(cut) == 0 {
				o.TTY = [][]byte{[]byte("par")}
			}
			eof = g.oneIn(2)
		}
		ops = append(ops, o)
	}
	p := g.ops(ops...)
	p.HaveTTY = !g.oneIn(10)
	p.TTYEof = eof
	p.Plan = &Plan{Hard: 1, Class: []string{"ttyread", "ioctl"}}
	if g.oneIn(4) {
		p.Plan = &Plan{Hard: 1, Class: []string{"stdwrite"}}
	}
}

// ---- C23 ----

func genInterop(g *G) {
	g.noise()
	switch g.idx % 173 { // more rounds than one byte can say
	case 5:
		k := g.key(1)
		g.sc.Keys[k].Rounds = 256 + g.Intn(40)
		sec, _ := g.keyFiles(k)
		g.ops(wire.Op{Kind: "sign", A: sec, B: g.message(g.small()), C: g.path(), Prompt: g.prompt(k)})
		return
	case 90:
		g.ops(wire.Op{Kind: "gen", A: g.path(), Pass: g.pass(), Rounds: 256 + g.Intn(40)})
		return
	}
	k := g.key(-1)
	if g.sc.Keys[k].Rounds > 0 && g.oneIn(20) {
		g.sc.Keys[k].Rounds = 42
	}
	if g.oneIn(2) { // written elsewhere, used here
		b := g.path()
		sec := g.put(b+".sec", "", 0600, &Content{Kind: "sec", Key: k, Comment: g.comment()})
		pub := g.put(b+".pub", "", 0644, &Content{Kind: "pub", Key: k, Comment: g.comment()})
		msg := g.msg(g.size())
		m := g.put(g.path(), "", 0644, msg)
		s := g.put(g.path(), "", 0644, &Content{Kind: "sig", Key: k, Msg: msg, Comment: g.comment()})
		e := g.put(g.path(), "", 0644, g.enc(k, msg))
		g.ops(wire.Op{Kind: "verify", A: pub, B: m, C: s},
			wire.Op{Kind: "open", A: sec, B: e, C: g.path(), Prompt: g.prompt(k)},
			wire.Op{Kind: "sign", A: sec, B: m, C: g.path(), Prompt: g.prompt(k)},
			wire.Op{Kind: "loadpriv", A: sec}, wire.Op{Kind: "tobox", Prompt: g.prompt(k)},
			wire.Op{Kind: "loadpub", A: pub, Slot: 1}, wire.Op{Kind: "topub", Slot: 1},
			wire.Op{Kind: "seal", A: pub, B: m, C: g.path()}).Plan = &Plan{Legal: g.Intn(3)}
		return
	}
	// made here, read by the reference model (and used here again)
	o := g.genOp(-1)
	if len(o.Pass) > 0 && g.oneIn(15) {
		o.Rounds = []int{42, 7, 16}[g.Intn(3)]
	}
	var pr []wire.Answer
	if len(o.Pass) > 0 {
		pr = []wire.Answer{{Pass: o.Pass}}
	}
	m := g.put(g.path(), "", 0644, g.msg(g.size()))
	g.ops(o, wire.Op{Kind: "sign", A: o.A + ".sec", B: m, C: g.path(), Prompt: pr}, wire.Op{Kind: "seal", A: o.A + ".pub", B: m, C: g.path()}).Plan = &Plan{Legal: g.Intn(3)}
}
