package kern

import (
	"bytes"
	"encoding/base64"

	"verif/sim/wire"
)

// sink stands for a file of more than a gigabyte: its contents are digested
// as they are appended, not kept.
type sink struct {
	wire.Sink
	buf     []byte // text not yet decoded
	clean   []byte
	out     []byte
	started bool
	cur     []byte // of a chunk that is kept whole
	ended   bool
}

const sealedChunk = 16401

var keptWhole = map[int64]bool{0: true, 1: true, 255: true, 256: true, 257: true, 65535: true, 65536: true, 65537: true}

func (s *sink) add(b []byte) {
	s.Size += int64(len(b))
	s.buf = append(s.buf, b...)
	if len(s.buf) >= 1<<16 {
		s.flush(false)
	}
}

func (s *sink) flush(last bool) {
	if !s.started {
		i := bytes.IndexByte(s.buf, '\n')
		if i < 0 {
			return
		}
		s.Comment = string(s.buf[:i])
		s.buf = s.buf[i+1:]
		s.started = true
	}
	for _, c := range s.buf {
		if c != '\n' {
			s.clean = append(s.clean, c)
		}
	}
	if len(s.buf) > 0 {
		n := len(s.buf)
		if n > 100 {
			n = 100
		}
		s.Tail = append(s.Tail[:0], s.buf[len(s.buf)-n:]...)
	}
	s.buf = s.buf[:0]
	n := len(s.clean) / 4 * 4
	if cap(s.out) < n {
		s.out = make([]byte, n+1024)
	}
	if s.ended && n > 0 {
		s.Odd = "data behind the padding"
	}
	m, err := base64.StdEncoding.Decode(s.out[:cap(s.out)], s.clean[:n])
	if err != nil && s.Odd == "" {
		s.Odd = err.Error()
	}
	s.ended = s.ended || m < n/4*3
	s.bin(s.out[:m])
	s.clean = append(s.clean[:0], s.clean[n:]...)
	if last && len(s.clean) > 0 && s.Odd == "" {
		s.Odd = "ends inside a quantum"
	}
}

func (s *sink) bin(b []byte) {
	for len(b) > 0 {
		if s.Total < 72 {
			n := int(72 - s.Total)
			if n > len(b) {
				n = len(b)
			}
			s.Header = append(s.Header, b[:n]...)
			s.Total += int64(n)
			b = b[n:]
			continue
		}
		at := s.Total - 72
		i, o := at/sealedChunk, int(at%sealedChunk)
		n := sealedChunk - o
		if n > len(b) {
			n = len(b)
		}
		if o < 32 {
			e := 32 - o
			if e > n {
				e = n
			}
			s.Heads = append(s.Heads, b[:e]...)
		}
		if keptWhole[i] {
			if s.Whole == nil {
				s.Whole = map[int][]byte{}
			}
			s.Whole[int(i)] = append(s.Whole[int(i)], b[:n]...)
		}
		s.Total += int64(n)
		b = b[n:]
	}
}

// summary gives what is known of the file so far.
func (s *sink) summary() *wire.Sink {
	if s == nil {
		return nil
	}
	s.flush(true)
	c := s.Sink
	return &c
}

// spill turns a file that has become huge into a sink.
func (k *Kernel) spill(f *ofile, n *inode) {
	if !k.req.Huge || n.sink != nil || len(n.data) < 1<<20 {
		return
	}
	n.sink = &sink{}
	n.sink.add(n.data)
	n.data = nil
}

// sinkWrite appends to a huge file.
func (k *Kernel) sinkWrite(f *ofile, b []byte, off int64) {
	s := f.ino.sink
	o := off
	if o < 0 {
		o = f.off
		if f.append {
			o = s.Size
		}
	}
	if o != s.Size {
		s.Odd = "not written in order"
	}
	s.add(b)
	f.wrote = true
	if off < 0 {
		f.off = o + int64(len(b))
	}
}

func (n *inode) size() int64 {
	if n.sink != nil {
		return n.sink.Size
	}
	if n.virt > 0 {
		return n.virt
	}
	return int64(len(n.data))
}
