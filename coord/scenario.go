package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"math/rand"
	"path"
	"strings"
	"sync"

	"verif/sim/wire"
)

// Scenario is one simulated history, explicit enough to be repeated exactly.
type Scenario struct {
	Prop   string
	Gen    string // which generator made it
	Seed   uint64
	Keys   []Key
	Files  []SFile
	Cwd    string `json:",omitempty"`
	Umask  uint32
	Phases []Phase
	Tags   []string `json:",omitempty"`
}

// SFile is a file of the initial disk image.
type SFile struct {
	Path, Type string
	Mode       uint32
	C          *Content
	Chunks     []int `json:",omitempty"`
}

// Phase is one incarnation, or changes made to the disk from outside.
type Phase struct {
	Kind     string       // ops, cli, fs
	Cwd      string       `json:",omitempty"` // instead of the scenario's
	Prologue []wire.Op    `json:",omitempty"`
	Tasks    []wire.Task  `json:",omitempty"`
	CLI      *wire.CLI    `json:",omitempty"`
	Intent   *wire.Op     `json:",omitempty"` // cli: what the command line asks for; nil: nothing valid
	Lines    [][]byte     `json:",omitempty"` // cli: lines typed
	HaveTTY  bool         `json:",omitempty"`
	TTYEof   bool         `json:",omitempty"`
	NoPass   bool         `json:",omitempty"` // a passphrase has to be entered, but is not
	TTYSplit []int        `json:",omitempty"` // sizes in which typed input arrives
	Events   []wire.Event `json:",omitempty"`
	Fs       []FsMut      `json:",omitempty"`
	Entropy  uint64
	Race     string `json:",omitempty"` // "gen": several generators, one name; "mutate": inputs change while read
	Solo     bool   `json:",omitempty"` // compare every task with a run of its own
	Huge     bool   `json:",omitempty"` // a file of more than a gigabyte is written
	Big      bool   `json:",omitempty"` // a file of many megabytes is read in small pieces
	Plan     *Plan  `json:"-"`
}

// FsMut changes the disk between incarnations.
type FsMut struct {
	Path   string
	Set    *Content `json:",omitempty"`
	Remove bool     `json:",omitempty"`
	Muts   []Mut    `json:",omitempty"`
	From   string   `json:",omitempty"` // take the content of this file first
}

// Plan asks for events to be placed after a fault-free run of the phase.
type Plan struct {
	Legal     int      // legal disturbances
	Hard      int      // errors
	Crash     int      // 0, 1 (process crash) or 2 (power loss)
	Delays    int      // random delays; -1: on every call
	Ops       []int    // only these ops
	Class     []string // only these classes
	Kinds     []string // only these kinds
	NoRand    bool
	Path      string // only calls on this path
	Prefix    string // deliver PrefixLen bytes of this file, then fail
	PrefixLen int
}

// Content describes the bytes of a file.
type Content struct {
	Kind    string   // raw rand sec pub sig enc
	Raw     []byte   `json:",omitempty"`
	Len     int      `json:",omitempty"`
	Seed    uint64   `json:",omitempty"`
	Key     int      `json:",omitempty"`
	Msg     *Content `json:",omitempty"`
	Comment []byte   `json:",omitempty"`
	Bin     []Mut    `json:",omitempty"` // changes to the binary form
	Text    []Mut    `json:",omitempty"` // changes to the file
	Count   uint64   `json:",omitempty"` // enc: chunks promised by the genuine header
}

// Mut is one change to a byte string.
type Mut struct {
	Kind string // trunc flip set insert del append dup zero chunkswap chunkdrop chunkdup chunkfrom headfrom raw
	A, B int64
	Raw  []byte   `json:",omitempty"`
	C    *Content `json:",omitempty"`
}

func randBytes(seed uint64, n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(seed))).Read(b)
	return b
}

var zerosMu sync.Mutex
var zerosBuf []byte

// zeroBytes returns n zero bytes, which must not be changed.
func zeroBytes(n int64) []byte {
	zerosMu.Lock()
	defer zerosMu.Unlock()
	if int64(len(zerosBuf)) < n {
		zerosBuf = make([]byte, n)
	}
	return zerosBuf[:n:n]
}

func applyMuts(b []byte, ms []Mut, keys []Key) []byte {
	for _, m := range ms {
		b = append([]byte(nil), b...)
		n := int64(len(b))
		at := func(x int64) int64 {
			if n == 0 {
				return 0
			}
			return ((x % n) + n) % n
		}
		switch m.Kind {
		case "trunc":
			if n > 0 {
				b = b[:at(m.A)]
			}
		case "flip": // bit A
			if n > 0 {
				i := ((m.A % (8 * n)) + 8*n) % (8 * n)
				b[i/8] ^= 1 << uint(i%8)
			}
		case "set":
			if n > 0 {
				b[at(m.A)] = byte(m.B)
			}
		case "put": // overwrite at A with Raw
			copy(b[min64(m.A, n):], m.Raw)
		case "insert":
			i := m.A % (n + 1)
			b = append(b[:i:i], append(append([]byte(nil), m.Raw...), b[i:]...)...)
		case "del":
			if n > 0 {
				i := at(m.A)
				j := i + m.B
				if j > n {
					j = n
				}
				b = append(b[:i:i], b[j:]...)
			}
		case "append":
			b = append(b, m.Raw...)
		case "dup":
			if n > 0 {
				i := at(m.A)
				j := i + m.B
				if j > n {
					j = n
				}
				b = append(b[:j:j], b[i:]...)
			}
		case "zero":
			if n > 0 {
				for i := at(m.A); i < n; i++ {
					b[i] = 0
				}
			}
		case "raw":
			b = append([]byte(nil), m.Raw...)
		case "crlf":
			b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
		case "chunkswap", "chunkdrop", "chunkdup", "chunkfrom", "headfrom":
			b = chunkMut(b, m, keys)
		}
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func chunkMut(b []byte, m Mut, keys []Key) []byte {
	if len(b) < 72 {
		return b
	}
	split := func(b []byte) (h []byte, cs [][]byte) {
		h = b[:72]
		b = b[72:]
		for len(b) > 0 {
			k := len(b)
			if k > sealedSize {
				k = sealedSize
			}
			cs = append(cs, b[:k])
			b = b[k:]
		}
		return
	}
	h, cs := split(b)
	h = append([]byte(nil), h...)
	i, j := 0, 0
	if len(cs) > 0 {
		i, j = int(m.A%int64(len(cs))), int(m.B%int64(len(cs)))
	}
	fix := func(n int) {
		if len(m.Raw) == 0 {
			binary.BigEndian.PutUint64(h, uint64(n))
		}
	}
	switch m.Kind {
	case "chunkswap":
		if len(cs) > 0 {
			cs[i], cs[j] = cs[j], cs[i]
		}
	case "chunkdrop":
		if len(cs) > 0 {
			cs = append(cs[:i:i], cs[i+1:]...)
			fix(len(cs))
		}
	case "chunkdup":
		if len(cs) > 0 {
			cs = append(cs[:j:j], append([][]byte{cs[i]}, cs[j:]...)...)
			fix(len(cs))
		}
	case "chunkfrom", "headfrom":
		ob, _ := encBin(m.C.build(keys), false)
		if len(ob) < 72 {
			return b
		}
		oh, ocs := split(ob)
		if m.Kind == "headfrom" {
			copy(h, oh)
		} else if len(cs) > 0 && len(ocs) > 0 {
			cs[i] = ocs[int(m.B%int64(len(ocs)))]
		}
	}
	out := h
	for _, c := range cs {
		out = append(out, c...)
	}
	return out
}

func (c *Content) epriv() *[32]byte {
	var e [32]byte
	h := sha256.Sum256([]byte("epriv" + string(binary.BigEndian.AppendUint64(nil, c.Seed))))
	copy(e[:], h[:])
	return &e
}

// build returns the bytes.
func (c *Content) build(keys []Key) []byte {
	if c == nil {
		return nil
	}
	text := func(def string, blob []byte) []byte {
		blob = applyMuts(blob, c.Bin, keys)
		com := def
		if len(c.Comment) > 0 {
			com = string(c.Comment)
		}
		return textFile(com, blob)
	}
	var b []byte
	switch c.Kind {
	case "raw":
		b = append([]byte(nil), c.Raw...)
	case "rand":
		b = randBytes(c.Seed, c.Len)
	case "zeros":
		b = zeroBytes(int64(c.Len))
	case "sec":
		b = text("signify secret key", keys[c.Key].secBlob())
	case "pub":
		b = text("signify public key", keys[c.Key].pubBlob())
	case "sig":
		b = text("verify with key.pub", keys[c.Key].sigBlob(c.Msg.build(keys)))
	case "enc":
		bin := refSealBin(keys[c.Key].pub(), c.Msg.build(keys), c.epriv(), c.Count)
		b = encText(applyMuts(bin, c.Bin, keys))
	case "b64": // arbitrary binary in a well-formed text file
		b = text("x", append([]byte(nil), c.Raw...))
	}
	return applyMuts(b, c.Text, keys)
}

func cwdOr(s string) string {
	if s == "" {
		return "/"
	}
	return s
}

func absPath(cwd, p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = cwdOr(cwd) + "/" + p
	}
	return path.Clean(p)
}

// keyBase is the name of a key pair without the suffixes.
func keyBase(cwd, p string) string {
	return strings.TrimSuffix(absPath(cwd, p+".sec"), ".sec")
}

// targets names the files an op may write.
func targets(o *wire.Op) []string {
	switch o.Kind {
	case "sign":
		if o.C == "" {
			return []string{o.B + ".sig"}
		}
		return []string{o.C}
	case "seal":
		if o.C == "" {
			return []string{o.B + ".enc"}
		}
		return []string{o.C}
	case "open":
		return []string{o.C}
	case "gen":
		return []string{o.A + ".sec", o.A + ".pub"}
	case "fswrite", "fsexcl", "fsappend", "fstrunc", "fsremove":
		return []string{o.A}
	case "fscopy":
		return []string{o.B}
	case "fsreplace":
		return []string{o.A, o.A + ".new~"}
	}
	return nil
}

func (sc *Scenario) image() []wire.File {
	out := []wire.File{{Path: "/w/d", Type: "dir", Mode: 0755}, {Path: "/w/sub dir", Type: "dir", Mode: 0755}}
	for _, f := range sc.Files {
		if f.Type == "zeros" {
			out = append(out, wire.File{Path: f.Path, Type: f.Type, Mode: f.Mode, Virt: int64(f.C.Len)})
			continue
		}
		out = append(out, wire.File{Path: f.Path, Type: f.Type, Mode: f.Mode, Data: f.C.build(sc.Keys), Chunks: f.Chunks})
	}
	return out
}

func entropyBytes(sc *Scenario, e uint64) []byte {
	h := sha256.Sum256(binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64([]byte("entropy"), sc.Seed), e))
	return h[:]
}

func ttyChunks(lines [][]byte, split []int) [][]byte {
	var all []byte
	for _, l := range lines {
		all = append(append(all, l...), '\n')
	}
	if len(split) == 0 {
		var out [][]byte
		for _, l := range lines {
			out = append(out, append(append([]byte(nil), l...), '\n'))
		}
		return out
	}
	var out [][]byte
	for i := 0; len(all) > 0; i++ {
		n := split[i%len(split)]
		if n < 1 {
			n = 1
		}
		if n > len(all) {
			n = len(all)
		}
		out = append(out, all[:n])
		all = all[n:]
	}
	return out
}

func b64contains(hay, needle []byte) bool {
	if bytes.Contains(hay, needle) {
		return true
	}
	for pad := 0; pad < 3; pad++ {
		x := append(make([]byte, pad), needle...)
		t := base64.StdEncoding.EncodeToString(x)
		// characters decided by needle alone
		lo := []int{0, 2, 3}[pad]
		hi := len(x) / 3 * 4
		if hi > lo && bytes.Contains(hay, []byte(t[lo:hi])) {
			return true
		}
	}
	return false
}
