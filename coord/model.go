package main

// The reference model: an independent reading of the signify file formats and
// of psignify's encrypted files, built on the standard library's Ed25519 and
// big-integer arithmetic, not on the code under test.

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

const (
	chunkSize  = 16385
	sealedSize = chunkSize + 16
	secLen     = 104
	pubLen     = 42
	sigLen     = 74
)

// Key is a key pair of the model.
type Key struct {
	Seed   [32]byte
	Num    [8]byte
	Salt   [16]byte
	Pass   []byte
	Rounds int
}

func (k *Key) ed() ed25519.PrivateKey { return ed25519.NewKeyFromSeed(k.Seed[:]) }
func (k *Key) pub() []byte            { return []byte(k.ed().Public().(ed25519.PublicKey)) }

var kdfCache sync.Map

func kdf(pass, salt []byte, rounds int) []byte {
	id := fmt.Sprintf("%x/%x/%d", pass, salt, rounds)
	if v, ok := kdfCache.Load(id); ok {
		return v.([]byte)
	}
	x, err := bcrypt_pbkdf.Key(pass, salt, rounds, 64)
	if err != nil {
		x = nil
	}
	kdfCache.Store(id, x)
	return x
}

func (k *Key) secBlob() []byte {
	var b bytes.Buffer
	b.WriteString("EdBK")
	binary.Write(&b, binary.BigEndian, uint32(k.Rounds))
	b.Write(k.Salt[:])
	priv := k.ed()
	d := sha512.Sum512(priv)
	b.Write(d[:8])
	b.Write(k.Num[:])
	key := append([]byte(nil), priv...)
	if k.Rounds > 0 {
		x := kdf(k.Pass, k.Salt[:], k.Rounds)
		for i := range key {
			key[i] ^= x[i]
		}
	}
	b.Write(key)
	return b.Bytes()
}

func (k *Key) pubBlob() []byte {
	return append(append([]byte("Ed"), k.Num[:]...), k.pub()...)
}

func (k *Key) sigBlob(msg []byte) []byte {
	return append(append([]byte("Ed"), k.Num[:]...), ed25519.Sign(k.ed(), msg)...)
}

func textFile(comment string, blob []byte) []byte {
	return []byte("untrusted comment: " + comment + "\n" + base64.StdEncoding.EncodeToString(blob) + "\n")
}

// blobs returns what every line of a file decodes to: the lenient reading,
// used where the code may only accept less.
func blobs(file []byte) [][]byte {
	var out [][]byte
	for _, l := range strings.Split(string(file), "\n") {
		b, err := base64.StdEncoding.DecodeString(strings.TrimSuffix(l, "\r"))
		if err == nil && len(b) > 0 {
			out = append(out, b)
		}
	}
	return out
}

// strictText reads a file that is exactly one comment line and one base64
// line: what the code must accept and what it must write.
func strictText(file []byte) (comment string, blob []byte, ok bool) {
	s := string(file)
	const pre = "untrusted comment: "
	if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, "\n") || strings.Count(s, "\n") != 2 {
		return "", nil, false
	}
	l := strings.Split(s, "\n")
	b, err := base64.StdEncoding.Strict().DecodeString(l[1])
	if err != nil || strings.Contains(l[1], "\r") || len(l[0]) > 19+1023 {
		return "", nil, false
	}
	return l[0][len(pre):], b, true
}

// Sec is a parsed secret key blob.
type Sec struct {
	Kdf    string
	Rounds uint32
	Salt   []byte
	Sum    []byte
	Num    []byte
	Key    []byte
}

func parseSec(b []byte) *Sec {
	if len(b) != secLen || string(b[:2]) != "Ed" {
		return nil
	}
	return &Sec{Kdf: string(b[2:4]), Rounds: binary.BigEndian.Uint32(b[4:8]), Salt: b[8:24], Sum: b[24:32], Num: b[32:40], Key: b[40:104]}
}

const maxRounds = 320 // larger counts are never unlocked by the model

// unlock returns the secret key if the checksum holds under the passphrase.
func (s *Sec) unlock(pass []byte) []byte {
	key := append([]byte(nil), s.Key...)
	if s.Rounds > 0 {
		if len(pass) == 0 || s.Rounds > maxRounds || s.Kdf != "BK" {
			return nil
		}
		x := kdf(pass, s.Salt, int(s.Rounds))
		if x == nil {
			return nil
		}
		for i := range key {
			key[i] ^= x[i]
		}
	}
	d := sha512.Sum512(key)
	if !bytes.Equal(d[:8], s.Sum) {
		return nil
	}
	return key
}

// lenientSecs: every secret key the file could be read as holding.
func lenientSecs(file []byte) []*Sec {
	var out []*Sec
	for _, b := range blobs(file) {
		if s := parseSec(b); s != nil {
			out = append(out, s)
		}
	}
	return out
}

func strictSec(file []byte) *Sec {
	_, b, ok := strictText(file)
	if !ok {
		return nil
	}
	s := parseSec(b)
	if s == nil || s.Kdf != "BK" || s.Rounds > maxRounds {
		return nil
	}
	return s
}

func strictPub(file []byte) []byte {
	_, b, ok := strictText(file)
	if !ok || len(b) != pubLen || string(b[:2]) != "Ed" {
		return nil
	}
	return b
}

func lenientPubs(file []byte) [][]byte {
	var out [][]byte
	for _, b := range blobs(file) {
		if len(b) == pubLen {
			out = append(out, b)
		}
	}
	return out
}

// refVerify: could any reading of the files be a genuine signature?
func refVerify(pub, msg, sig []byte) bool {
	for _, p := range lenientPubs(pub) {
		if string(p[:2]) != "Ed" {
			continue
		}
		for _, s := range blobs(sig) {
			if len(s) == sigLen && string(s[:2]) == "Ed" && bytes.Equal(s[2:10], p[2:10]) && ed25519.Verify(ed25519.PublicKey(p[10:]), msg, s[10:]) {
				return true
			}
		}
	}
	return false
}

// strictVerify: canonical files holding a genuine signature.
func strictVerify(pub, msg, sig []byte) bool {
	p := strictPub(pub)
	_, s, ok := strictText(sig)
	return p != nil && ok && len(s) == sigLen && string(s[:2]) == "Ed" && bytes.Equal(s[2:10], p[2:10]) && ed25519.Verify(ed25519.PublicKey(p[10:]), msg, s[10:])
}

// ---- Curve25519 ----

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
var edD = func() *big.Int {
	d := new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), fieldP))
	return d.Mod(d, fieldP)
}()

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// boxPub converts an Ed25519 public key by u = (1+y)/(1-y); nil if it is not
// a point of the curve.
func boxPub(pub []byte) *[32]byte {
	b := append([]byte(nil), pub...)
	b[31] &= 127
	y := new(big.Int).SetBytes(rev(b))
	y.Mod(y, fieldP)
	one := big.NewInt(1)
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, one)
	v := new(big.Int).Mul(edD, yy)
	v.Add(v, one)
	v.Mod(v, fieldP)
	x2 := u.Mul(u, new(big.Int).ModInverse(v, fieldP))
	x2.Mod(x2, fieldP)
	if x2.Sign() != 0 && big.Jacobi(x2, fieldP) != 1 {
		return nil
	}
	den := new(big.Int).Sub(one, y)
	den.Mod(den, fieldP)
	var out [32]byte
	if den.Sign() == 0 {
		return &out
	}
	m := new(big.Int).Add(one, y)
	m.Mul(m, den.ModInverse(den, fieldP))
	m.Mod(m, fieldP)
	copy(out[:], rev(m.FillBytes(make([]byte, 32))))
	return &out
}

// boxSec converts a secret key (64 bytes or the seed).
func boxSec(key []byte) *[32]byte {
	d := sha512.Sum512(key[:32])
	d[0] &= 248
	d[31] &= 127
	d[31] |= 64
	var out [32]byte
	copy(out[:], d[:])
	return &out
}

// ---- encrypted files ----

const encComment = "untrusted comment: psignify encrypted file\n"

func wrapLines(bin []byte) []byte {
	t := base64.StdEncoding.EncodeToString(bin)
	var b bytes.Buffer
	for len(t) > 72 {
		b.WriteString(t[:72])
		b.WriteByte('\n')
		t = t[72:]
	}
	b.WriteString(t)
	b.WriteByte('\n')
	if len(t) == 72 {
		b.WriteByte('\n') // as the released version does
	}
	return b.Bytes()
}

func chunkNonce(i int) *[24]byte {
	var n [24]byte
	binary.BigEndian.PutUint64(n[16:], uint64(i))
	return &n
}

// refSealBin makes the binary form of an encrypted file.
func refSealBin(pub []byte, msg []byte, epriv *[32]byte, count uint64) []byte {
	var epub, shared [32]byte
	curve25519.ScalarBaseMult(&epub, epriv)
	box.Precompute(&shared, boxPub(pub), epriv)
	chunks := (len(msg) + chunkSize - 1) / chunkSize
	hdr := make([]byte, 8)
	if count == 0 {
		count = uint64(chunks)
	}
	binary.BigEndian.PutUint64(hdr, count)
	hdr = append(hdr, epub[:]...)
	tag := auth.Sum(hdr, &shared)
	out := append(hdr, tag[:]...)
	for i := 0; i < chunks; i++ {
		c := msg[i*chunkSize:]
		if len(c) > chunkSize {
			c = c[:chunkSize]
		}
		out = box.SealAfterPrecomputation(out, c, chunkNonce(i), &shared)
	}
	return out
}

func encText(bin []byte) []byte { return append([]byte(encComment), wrapLines(bin)...) }

// encBin decodes an encrypted file; strict demands exactly the form the
// program writes, otherwise as much as can be decoded is returned.
func encBin(file []byte, strict bool) ([]byte, error) {
	i := bytes.IndexByte(file, '\n')
	if i < 0 {
		return nil, errors.New("no comment line")
	}
	if strict && !bytes.HasPrefix(file, []byte("untrusted comment: ")) {
		return nil, errors.New("comment line is malformed")
	}
	body := string(file[i+1:])
	if strict {
		if !strings.HasSuffix(body, "\n") {
			return nil, errors.New("no newline at the end")
		}
		lines := strings.Split(strings.TrimRight(body, "\n"), "\n")
		for j, l := range lines {
			if j < len(lines)-1 && len(l) != 72 || len(l) > 72 {
				return nil, fmt.Errorf("line %d has %d characters", j+1, len(l))
			}
		}
		if len(body)-len(strings.TrimRight(body, "\n")) > 2 {
			return nil, errors.New("empty lines at the end")
		}
		return base64.StdEncoding.Strict().DecodeString(strings.ReplaceAll(body, "\n", ""))
	}
	body = strings.ReplaceAll(strings.ReplaceAll(body, "\n", ""), "\r", "")
	var out []byte
	for len(body) >= 4 {
		b, err := base64.StdEncoding.DecodeString(body[:4])
		if err != nil {
			return out, err
		}
		out = append(out, b...)
		if len(b) < 3 {
			break
		}
		body = body[4:]
	}
	return out, nil
}

var errAuth = errors.New("header not authentic")

func sharedKey(head []byte, bsec *[32]byte) *[32]byte {
	var epub, shared [32]byte
	copy(epub[:], head[8:40])
	box.Precompute(&shared, &epub, bsec)
	return &shared
}

func headerOK(head []byte, shared *[32]byte) error {
	if !auth.Verify(head[40:72], head[:40], shared) {
		return errAuth
	}
	return nil
}

func openChunk(c []byte, i int, shared *[32]byte) ([]byte, bool) {
	return box.OpenAfterPrecomputation(nil, c, chunkNonce(i), shared)
}

// refOpenBin opens the binary form.  complete tells that every announced
// chunk was there; rest is what follows the last chunk.
func refOpenBin(bin []byte, bsec *[32]byte) (msg []byte, rest int, err error) {
	if len(bin) < 72 {
		return nil, 0, errors.New("short header")
	}
	var epub, shared [32]byte
	copy(epub[:], bin[8:40])
	box.Precompute(&shared, &epub, bsec)
	if !auth.Verify(bin[40:72], bin[:40], &shared) {
		return nil, 0, errAuth
	}
	chunks := binary.BigEndian.Uint64(bin)
	bin = bin[72:]
	for i := uint64(0); i < chunks; i++ {
		c := bin
		if len(c) > sealedSize {
			c = c[:sealedSize]
		}
		out, ok := box.OpenAfterPrecomputation(nil, c, chunkNonce(int(i)), &shared)
		if !ok {
			return msg, 0, fmt.Errorf("chunk %d does not open", i)
		}
		msg = append(msg, out...)
		bin = bin[len(c):]
	}
	return msg, len(bin), nil
}
