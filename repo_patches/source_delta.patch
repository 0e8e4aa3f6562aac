From eecf2512aace5c786cbe748d9881503e034559c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 01/18] fix: base64: Encoder.Write reports all bytes it
 accepted

It counted whole quanta only, so that any write whose end is not on a
quantum boundary was reported as short (or as longer than it was) with
a nil error.
---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..0540f09 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -73,7 +73,7 @@ func (w *Encoder) Write(p []byte) (int, error) {
 		}
 	}
 
-	return written, nil
+	return len(p), nil
 }
 
 // Decoder is a base64 decoder that handles sources with newlines.
-- 
2.43.0


From 540fa572cc2c3f30538ae7da8a6ac3964b35024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 02/18] fix: base64: make Decoder a faithful io.Reader

Read panicked when the caller's buffer was not a multiple of three
bytes, never reported io.EOF, used a stale byte when the source returned
no data, dropped the byte that came together with io.EOF, and accepted
data behind the padding.
---
 base64/coding.go | 63 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 0540f09..02ac71e 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -78,7 +78,10 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r io.Reader
+	r      io.Reader
+	rest   []byte // decoded, not yet returned
+	padded bool   // a padded quantum has been seen
+	err    error
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -92,32 +95,60 @@ func (r *Decoder) Close() error {
 	return nil
 }
 
-func (r *Decoder) Read(p []byte) (int, error) {
-	enclen := base64.StdEncoding.EncodedLen(len(p))
+// fill decodes enough whole quanta for n bytes into rest.
+func (r *Decoder) fill(n int) {
+	enclen := (n + 2) / 3 * 4
 	buf := make([]byte, 0, enclen)
 	c := make([]byte, 1)
-	n := 0
-
-	for {
-		if n == enclen {
-			break
-		}
 
-		_, err := r.r.Read(c)
+	for len(buf) < enclen {
+		_, err := io.ReadFull(r.r, c)
 		if err != nil {
-			if err == io.EOF {
-				break
+			r.err = err
+			if err == io.EOF && len(buf)%4 != 0 {
+				r.err = io.ErrUnexpectedEOF
 			}
-			return 0, err
+			break
 		}
 
-		if c[0] == 0xa {
+		if c[0] == '\n' || c[0] == '\r' {
 			continue
 		}
 
 		buf = append(buf, c[0])
-		n++
 	}
 
-	return base64.StdEncoding.Decode(p, buf)
+	buf = buf[:len(buf)/4*4]
+	if r.padded && len(buf) > 0 {
+		r.err = base64.CorruptInputError(0)
+		return
+	}
+
+	out := make([]byte, len(buf)/4*3)
+	m, err := base64.StdEncoding.Decode(out, buf)
+	if err != nil {
+		r.err = err
+	}
+	r.padded = r.padded || m < len(out)
+	r.rest = out[:m]
+}
+
+func (r *Decoder) Read(p []byte) (int, error) {
+	n := copy(p, r.rest)
+	r.rest = r.rest[n:]
+	if n == len(p) {
+		return n, nil
+	}
+
+	if r.err == nil {
+		r.fill(len(p) - n)
+		m := copy(p[n:], r.rest)
+		r.rest = r.rest[m:]
+		n += m
+	}
+
+	if n == 0 {
+		return 0, r.err
+	}
+	return n, nil
 }
-- 
2.43.0


From 8e6e5af8df25c1cabc4b3e4a6e8b82e2197a3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 03/18] fix: crypto: read whole chunks when sealing and opening

A short read of the message ended up as a short chunk in the middle of
the encrypted file, with the rest of the message missing and success
reported.
---
 crypto/crypto.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..4b53cf3 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -97,7 +97,12 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
+		size := messageLen - i*chunkSize
+		if size > chunkSize {
+			size = chunkSize
+		}
+
+		n, err := io.ReadFull(message, chunk[:size])
 		if err != nil {
 			return err
 		}
@@ -163,10 +168,8 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	}
 
 	header := [headerSize]byte{}
-	n, err := message.Read(header[:])
+	n, err := io.ReadFull(message, header[:])
 	if err != nil {
-		return err
-	} else if n != headerSize {
 		return fmt.Errorf("signify/crypto: couldn't read the full header (read %d)", n)
 	}
 
@@ -183,7 +186,10 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	chunk := make([]byte, sealedChunkSize)
 	nonce := [24]byte{}
 	for i := uint64(0); i < chunks; i++ {
-		n, err := message.Read(chunk)
+		n, err := io.ReadFull(message, chunk)
+		if err == io.ErrUnexpectedEOF && i == chunks-1 {
+			err = nil // the last chunk may be short
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c9c0b1eb1e784d9fb8b4833601303d2f2f7db53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 04/18] fix: crypto: report errors that show when the output is
 flushed or closed

Seal and Open reported success although the last bytes of the output
could not be stored.
---
 crypto/crypto.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 4b53cf3..ec1d206 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -156,9 +156,17 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
+	err = seal(pub, message, messageLen, encoder)
+	if err != nil {
+		return err
+	}
 
-	return seal(pub, message, messageLen, encoder)
+	err = encoder.Close()
+	if err != nil {
+		return err
+	}
+
+	return encrypted.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -238,5 +246,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if err != nil {
+		return err
+	}
+
+	return message.Close()
 }
-- 
2.43.0


From 388ed04e313c42f925c24652c89a1fbb27fccab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 05/18] fix: crypto: write a header for an empty message

An empty message was sealed as an empty file that cannot be opened.
---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index ec1d206..3976a64 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From 15a8bf5fce04ef22796dc57b1e8d27cf545aa2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 06/18] fix: crypto: seal the content of files whose size is
 not known in advance

Pipes and files reporting size 0 were sealed as an empty message.
---
 crypto/crypto.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 3976a64..8affc8c 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -1,11 +1,13 @@
 package crypto
 
 import (
+	"bytes"
 	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 
 	"github.com/kisom/psignify/base64"
@@ -136,6 +138,18 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 		return err
 	}
 	messageLen := int(fi.Size())
+	var source io.Reader = message
+
+	// The size of anything but a regular file is not known in advance,
+	// and some files in /proc and the like report none.
+	if !fi.Mode().IsRegular() || messageLen == 0 {
+		data, err := ioutil.ReadAll(message)
+		if err != nil {
+			return err
+		}
+		messageLen = len(data)
+		source = bytes.NewReader(data)
+	}
 
 	if encryptedPath == "" {
 		encryptedPath = messagePath + ".enc"
@@ -152,7 +166,7 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	err = seal(pub, message, messageLen, encoder)
+	err = seal(pub, source, messageLen, encoder)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2922bd7d42aec761eda8843b3f2d63acd4061753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 07/18] fix: signify: reject signatures of the wrong length

A short signature crashed the program, an over-long one was accepted.
---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..7e3d1db 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != keyAlgoLength+keyNumLength+signatureLength {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From ec34887b1bcd5f0aff7b2917b1e9ae6c9c67a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 08/18] fix: signify: reject private keys of the wrong length
 or algorithm

A truncated key was loaded with its tail taken as zeros.
---
 signify/key.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..9db9393 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -27,6 +27,9 @@ const (
 	saltLength      = 16
 	checksumLength  = 8
 	kdfRounds       = 42
+
+	// algorithms, round count, salt, checksum, key number and key
+	privateKeyLength = keyAlgoLength + kdfAlgoLength + 4 + saltLength + checksumLength + keyNumLength + secretKeyLength
 )
 
 // PassphrasePrompt prompts the user for a passphrase. If confirm is true, the
@@ -134,6 +137,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != privateKeyLength {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
@@ -142,6 +149,10 @@ func readPrivateKeyData(data []byte) (*Private, error) {
 		return nil, err
 	}
 
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: not an Ed25519 private key")
+	}
+
 	_, err = buf.Read(priv.kdfAlgo[:])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8b01a6be3eb12872ec50a48388bf09ee3b60971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 09/18] fix: signify: check the checksum of keys that are not
 passphrase-protected

Sign and ToBox used a damaged unprotected key.
---
 signify/key.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 9db9393..262ca42 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -230,6 +230,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		}
 	}
 
+	err = priv.Check()
+	if err != nil {
+		return err
+	}
+
 	message, err := ioutil.ReadFile(messagePath)
 	if err != nil {
 		return err
@@ -258,6 +263,10 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 func (priv *Private) ToBox() (*[32]byte, error) {
 	err := priv.Check()
 	if err != nil {
+		if !priv.IsEncrypted() {
+			return nil, err
+		}
+
 		var passphrase []byte
 		passphrase, err = PassphrasePrompt(false)
 		if err != nil {
-- 
2.43.0


From 6a345b2eaaa62318ad196b26e76b43436214ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 10/18] fix: signify: a wrong passphrase no longer spoils the
 loaded key

The key was left combined with the wrong key stream, so that the right
passphrase could not unlock it afterwards.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 262ca42..ce3d4a9 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -118,6 +118,10 @@ func (priv *Private) decrypt(password []byte) error {
 
 	err = priv.Check()
 	if err != nil {
+		// undo, so that another passphrase can be tried
+		for i := range priv.key[:] {
+			priv.key[i] ^= xorkey[i]
+		}
 		return err
 	}
 
-- 
2.43.0


From 86f545bd6fb0b2d8bc27d940421f8966263c3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 11/18] fix: signify: create secret key files with mode 0600

They were readable by everyone.
---
 signify/common.go | 5 +++--
 signify/key.go    | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..5a2a02a 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte) error {
+func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -56,7 +57,7 @@ func writeDataFile(path, comment string, data []byte) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
+	return ioutil.WriteFile(path, dataFile.Encode(), perm)
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index ce3d4a9..6470de6 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -255,7 +255,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
-	err = writeDataFile(signaturePath, comment, sig.encode())
+	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
 	if err != nil {
 		return err
 	}
@@ -497,12 +497,12 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
+	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4c0df4226dd655ecf8901a8599929025d727c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 12/18] fix: signify: key generation never overwrites existing
 key files

Generating under an existing name destroyed the key pair, and generations
racing for a name could leave the halves of two pairs.
---
 signify/common.go | 27 ++++++++++++++++++++++++---
 signify/key.go    | 17 ++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index 5a2a02a..ba80a16 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -49,15 +49,36 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
+func newDataFile(comment string, data []byte) *dataFile {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
-	dataFile := &dataFile{
+	return &dataFile{
 		comment: comment,
 		data:    encoded,
 	}
+}
+
+func writeDataFile(path, comment string, data []byte) error {
+	return ioutil.WriteFile(path, newDataFile(comment, data).Encode(), 0644)
+}
+
+// createDataFile writes a data file that must not exist yet. If it
+// fails, it leaves no file behind.
+func createDataFile(path, comment string, data []byte, perm os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(newDataFile(comment, data).Encode())
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), perm)
+	if err != nil {
+		os.Remove(path)
+	}
+	return err
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index 6470de6..ec0cfd7 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -255,7 +256,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
-	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
+	err = writeDataFile(signaturePath, comment, sig.encode())
 	if err != nil {
 		return err
 	}
@@ -492,18 +493,28 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 // keypath.pub. If passphrase is provided, the private key is
 // encrypted. If opts is nil, a set of sane defaults is provided.
 func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error {
+	// The secret key goes first, and neither file is ever overwritten, so
+	// that no secret key comes to lie beside another one's public key.
+	_, err := os.Lstat(keyPath + ".pub")
+	if err == nil {
+		return fmt.Errorf("signify: %s.pub already exists", keyPath)
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+
 	priv, pub, err := GenerateKeypair(passphrase, opts)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
+	err = createDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
+	err = createDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
+		os.Remove(keyPath + ".sec")
 		return err
 	}
 
-- 
2.43.0


From aaf7f5fa5365c02b2c8b21079063381b15742564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 13/18] fix: psignify: exit with an error on invalid options

flag.Usage ended the program with status 0 before the flag package could
report the error.
---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..88fd9a9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0


From db5374b883b113f041b0a869f22bd688a28ef070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 14/18] fix: psignify: generate the default key pair under its
 default name

psignify -G without -p wrote <base>.pub.sec and <base>.pub.pub, which no
other command finds.
---
 cmd/psignify/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 88fd9a9..7b770b3 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -76,7 +76,10 @@ func main() {
 	}
 
 	if pubKeyFile == "" && keyBase != "" {
-		pubKeyFile = keyBase + ".pub"
+		pubKeyFile = keyBase
+		if !generate {
+			pubKeyFile += ".pub"
+		}
 	}
 
 	if generate {
-- 
2.43.0


From 075535c9cac97d3d915c657d79d1ac770de269d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 15/18] fix: signify: wipe the passphrase prompted for in ToBox

As Sign does.
---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index ec0cfd7..fcd758d 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -277,6 +277,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From 57cceffd97bca10da3bc0c36162c2b98d15ea1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 16/18] fix: crypto: unlock the key before touching the output
 of Open

A wrong passphrase truncated an existing message.
---
 crypto/crypto.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8affc8c..465a680 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -250,6 +250,12 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 
 	decoder := base64.NewDecoder(encrypted)
 
+	// Unlock the key before an existing message is overwritten.
+	_, err = priv.ToBox()
+	if err != nil {
+		return err
+	}
+
 	message, err := os.Create(messagePath)
 	if err != nil {
 		return err
-- 
2.43.0


From 153ec0eb96936fd5ef89e0b0eeabc68e0988e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 17/18] fix: keep a signature's comment on one line when the
 key's name has a line break

---
 signify/key.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index fcd758d..6addafc 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -255,7 +255,9 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 	}
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
-	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
+	// The comment is one line, whatever the key file is called.
+	keyName := strings.Replace(filepath.Base(pubKeyPath), "\n", "_", -1)
+	comment := "untrusted comment: verify with " + keyName
 	err = writeDataFile(signaturePath, comment, sig.encode())
 	if err != nil {
 		return err
-- 
2.43.0


From 7b97884de7e6ae3024275594aae823f409cb7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 18/18] fix: refuse a number of rounds that the key file cannot
 hold

GenerateOptions.Rounds was cut to 32 bits: asked for 2^32+1 rounds, key
generation stored a key stretched once, and asked for -1 it never ended.
---
 signify/key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 6addafc..46d7ffd 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -444,6 +444,11 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 		opts = &defaultOptions
 	}
 
+	// The key file has 32 bits for the number of rounds.
+	if len(passphrase) != 0 && (opts.Rounds < 1 || uint64(opts.Rounds) > 1<<32-1) {
+		return nil, nil, fmt.Errorf("signify: invalid number of rounds %d", opts.Rounds)
+	}
+
 	edpub, edpriv, err := ed25519.GenerateKey(rand.Reader)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0

