From 99e2f1057bf177ffc1d587ad606b8a9c5bff03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 01/26] fix: refuse to save or load with a file key of the
 wrong length

Save truncated the persistence file and then panicked when the instance had
been wiped (or the key was otherwise not 32 bytes long).
---
 persistence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/persistence.go b/persistence.go
index 62564c5..01f4e94 100644
--- a/persistence.go
+++ b/persistence.go
@@ -376,6 +376,9 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Create persistence file if it does not exist or truncate it if it does exist.
 	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
 	if err != nil {
@@ -440,6 +443,9 @@ func (k *Krypto431) Load() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Load persisted data...
 	f, err = os.Open(k.persistence)
 	if err != nil {
-- 
2.43.0


From 163883769fddf2191a116e8d77f47cba57be336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 02/26] fix: replace the persistence file atomically and report
 write errors

Save truncated the only copy of the store before writing, never flushed it and
ignored errors from closing the gzip stream and the file: a crash or a full disk
lost all keys, the latter while reporting success.
---
 persistence.go | 76 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 11 deletions(-)

diff --git a/persistence.go b/persistence.go
index 01f4e94..18b7117 100644
--- a/persistence.go
+++ b/persistence.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"os/signal"
 	"path/filepath"
+	"runtime"
 	"strings"
 	"sync"
 	"syscall"
@@ -379,12 +380,11 @@ func (k *Krypto431) Save() error {
 	if len(*k.persistenceKey) != 32 {
 		return ErrInvalidPFK
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
+	return writeFileAtomically(k.persistence, k.encryptTo)
+}
+
+// encryptTo writes the instance as an encrypted, gzipped GOB to f.
+func (k *Krypto431) encryptTo(f *os.File) error {
 	// Krypto431 persistence files are encrypted, gzipped GOB files.
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
 		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*k.persistenceKey)),
@@ -394,15 +394,69 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
-	gobEncoder := gob.NewEncoder(fgz)
-	err = gobEncoder.Encode(k)
+	err = gob.NewEncoder(fgz).Encode(k)
 	if err != nil {
 		return err
 	}
-	return nil
+	// Closing the encrypter would only close f, which is up to the caller.
+	return fgz.Close()
+}
+
+// writeFileAtomically creates or replaces filename with what the write function
+// produces. The contents go to a temporary file in the same directory which is
+// flushed to disk and then renamed, so that filename holds either its previous
+// or its new contents - complete - whatever happens. If filename is a symbolic
+// link, the file it points to is replaced.
+func writeFileAtomically(filename string, write func(f *os.File) error) (err error) {
+	target, err := filepath.EvalSymlinks(filename)
+	if err != nil {
+		if !errors.Is(err, fs.ErrNotExist) {
+			return err
+		}
+		target = filename
+	}
+	dir := filepath.Dir(target)
+	f, err := os.CreateTemp(dir, ".krypto431-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			f.Close()
+			os.Remove(f.Name())
+		}
+	}()
+	if err = write(f); err != nil {
+		return err
+	}
+	if err = f.Sync(); err != nil {
+		return err
+	}
+	if err = f.Close(); err != nil {
+		return err
+	}
+	if err = os.Rename(f.Name(), target); err != nil {
+		return err
+	}
+	return syncDir(dir)
+}
+
+// syncDir flushes a directory to disk, making a rename in it durable.
+func syncDir(dir string) error {
+	if runtime.GOOS == "windows" {
+		// Directories can not be flushed on Windows.
+		return nil
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	err = d.Sync()
+	if closeErr := d.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From f7b2e04106436d230fda403e8a0df17087ece32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 03/26] fix: load exactly what was saved and reject damaged
 persistence files

Load decoded into the instance as it was: fields saved empty or false (used
marks, keepers, comments) kept what they held before. It stopped reading before
the checksum, so appended or missing data at the end went unnoticed.
---
 persistence.go | 81 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/persistence.go b/persistence.go
index 18b7117..20d1776 100644
--- a/persistence.go
+++ b/persistence.go
@@ -4,10 +4,12 @@ import (
 	"bytes"
 	"compress/gzip"
 	"crypto/sha256"
+	"encoding/binary"
 	"encoding/gob"
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"log"
 	"os"
@@ -41,10 +43,11 @@ var (
 	ErrNoSalt       = errors.New(errUnableToDerivePFK + "instance is missing salt")
 	ErrTooShortSalt = errors.New(errUnableToDerivePFK + "salt is too short")
 	//ErrPasswordTooShort = fmt.Errorf(errUnableToDerivePFK+"too short, must be at least %d characters long", MinimumPasswordLength)
-	ErrNilPFK         = errors.New("instance is missing key needed to encrypt or decrypt persistence")
-	ErrInvalidPFK     = errors.New("persistence file key is invalid, must be 32 bytes long")
-	ErrPasswordInput  = errors.New("password input error")
-	ErrCopyKeyFailure = errors.New("copy key failure")
+	ErrNilPFK             = errors.New("instance is missing key needed to encrypt or decrypt persistence")
+	ErrInvalidPFK         = errors.New("persistence file key is invalid, must be 32 bytes long")
+	ErrCorruptPersistence = errors.New("persistence file is damaged")
+	ErrPasswordInput      = errors.New("password input error")
+	ErrCopyKeyFailure     = errors.New("copy key failure")
 )
 
 // DerivePFKFromPassword uses PBKDF2 to produce the 32 byte long key used to
@@ -474,7 +477,6 @@ func (k *Krypto431) Load() error {
 		}
 		k.persistence = filepath.Join(dirname, k.persistence[2:])
 	}
-	var f *os.File
 	_, err := os.Stat(k.persistence)
 	if err != nil {
 		if errors.Is(err, fs.ErrNotExist) {
@@ -501,40 +503,77 @@ func (k *Krypto431) Load() error {
 		return ErrInvalidPFK
 	}
 	// Load persisted data...
-	f, err = os.Open(k.persistence)
+	data, err := os.ReadFile(k.persistence)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	decrypter, err := stream.NewEncryptedStream(f, &stream.Config{
-		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*k.persistenceKey)),
+	loaded, err := decryptFrom(data, k.persistenceKey)
+	if err != nil {
+		return err
+	}
+	k.GroupSize = loaded.GroupSize
+	k.KeyLength = loaded.KeyLength
+	k.Columns = loaded.Columns
+	k.KeyColumns = loaded.KeyColumns
+	k.Keys = loaded.Keys
+	k.Messages = loaded.Messages
+	k.CallSign = loaded.CallSign
+	// Fix all non-exported instance fields in keys and messages...
+	for i := range k.Keys {
+		k.Keys[i].instance = k
+	}
+	for i := range k.Messages {
+		k.Messages[i].instance = k
+	}
+	// Allow overwriting file after it's been loaded...
+	k.overwritePersistenceIfExists = true
+	return nil
+}
+
+// decryptFrom decodes the complete contents of a persistence file into a new
+// instance (exported fields only). Nothing may be missing from or added to data.
+func decryptFrom(data []byte, persistenceKey *[]byte) (*Krypto431, error) {
+	// All of data must be whole records (32-bit length followed by as many bytes).
+	for rest := data; len(rest) > 0; {
+		if len(rest) < 4 {
+			return nil, ErrCorruptPersistence
+		}
+		n := uint64(binary.LittleEndian.Uint32(rest))
+		if n == 0 || n > uint64(len(rest)-4) {
+			return nil, ErrCorruptPersistence
+		}
+		rest = rest[4+n:]
+	}
+	decrypter, err := stream.NewEncryptedStream(bytes.NewBuffer(data), &stream.Config{
+		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*persistenceKey)),
 		SequentialNonce: false, // The key is the same and will leak if nonce is sequential.
 		Initiator:       false,
 	})
 	if err != nil {
-		return err
+		return nil, err
 	}
 	defer decrypter.Close()
 	fgz, err := gzip.NewReader(decrypter)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	defer fgz.Close()
+	// Decode into a new instance as GOB leaves fields alone that were saved empty.
+	var loaded Krypto431
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	err = gobDecoder.Decode(&loaded)
 	if err != nil {
-		return err
+		return nil, err
 	}
-	// Fix all non-exported instance fields in keys and messages...
-	for i := range k.Keys {
-		k.Keys[i].instance = k
+	// Read until the end, only there the checksum of the contents is verified.
+	err = gobDecoder.Decode(&Krypto431{})
+	if err == nil {
+		return nil, ErrCorruptPersistence
 	}
-	for i := range k.Messages {
-		k.Messages[i].instance = k
+	if err != io.EOF {
+		return nil, err
 	}
-	// Allow overwriting file after it's been loaded...
-	k.overwritePersistenceIfExists = true
-	return nil
+	return &loaded, nil
 }
 
 // Krypto431.ExportKeys() returns a new instance based on the current instance
-- 
2.43.0


From 39a747f60dc979a1859f603226d0302f2936de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 04/26] fix: do not let a message share the identifier of its
 key

Wiping the message (when enciphering failed, or when it was deleted) wiped the
identifier of the key in the store, and wiping the key that of the message.
---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..e1626e2 100644
--- a/cipher.go
+++ b/cipher.go
@@ -537,7 +537,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From c481f5d6821b7f4ce0d248056d26976626b4e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 05/26] fix: mark an explicitly requested key as used

A key requested by its identifier stayed unused: it was chosen again for the
next message and even for a key change within the same message.
---
 cipher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cipher.go b/cipher.go
index e1626e2..a132ebb 100644
--- a/cipher.go
+++ b/cipher.go
@@ -570,6 +570,8 @@ func (m *Message) Encipher() error {
 		return err
 	}
 	chunk.key = keyPtr
+	// The key could have been chosen by the caller instead of EnrichWithKey.
+	keyPtr.Used = true
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
 	defer func() {
-- 
2.43.0


From 66bc106d6da808ae868cc3aef36aab5b62a06872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 06/26] fix: do not panic when a key is requested for a new
 message

The optional key is the second argument, not the third.
---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 5e472906602f02bd1e88cca23855c281fd37d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 07/26] fix: never choose a compromised key for enciphering

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index a132ebb..069a9df 100644
--- a/cipher.go
+++ b/cipher.go
@@ -431,7 +431,7 @@ func (t *Message) Decode() error {
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From 55745c29af7129e047286c15c2f726483d701a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 08/26] fix: return an error for characters that can not be
 encoded

A single character outside the tables crashed the program.
---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 069a9df..337569b 100644
--- a/cipher.go
+++ b/cipher.go
@@ -305,7 +305,7 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	c = 0
 	if !foundIt {
 		// enter binary mode
-		panic("binary mode not implemented yet")
+		return errors.New("binary mode not implemented yet")
 	}
 
 	return nil
-- 
2.43.0


From fb58065012a68b36f205e805eaa4177cc7a0ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 09/26] fix: leave room for the longest character before
 changing key

---
 cipher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 337569b..ebfb361 100644
--- a/cipher.go
+++ b/cipher.go
@@ -68,6 +68,10 @@ const (
 	// How many control runes/characters are required to change key at most?
 	// (change table, then changeKeyChar = 2)
 	ControlCharactersNeededToChangeKey int = 2
+
+	// How many control runes/characters are required in front of a single
+	// character at most? (change table, toggle case, change table = 3)
+	controlCharactersNeededPerCharacter int = 3
 )
 
 func isUpper(c *rune) bool {
@@ -587,7 +591,8 @@ func (m *Message) Encipher() error {
 		}
 	}()
 	for i := range m.PlainText {
-		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+		// The next character, the key change (or padding) after it must still fit.
+		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey-controlCharactersNeededPerCharacter {
 			keyPtr := m.instance.FindKey(m.Recipients...)
 			if keyPtr == nil {
 				return ErrOutOfKeys
-- 
2.43.0


From 45ff84cef441bb35e1fc0dbbdfc6ffd9c84c172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 10/26] fix: save a new message before printing its traffic

---
 cmd/krypto431/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..72a2770 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,12 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// The key must be stored as used before the traffic can be sent.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From 3cf5ae2d9eae989bcc08b2d3260d31a12c9adbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 11/26] fix: do not wipe the PFK and salt given to ImportKeys

---
 persistence.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistence.go b/persistence.go
index 20d1776..f2e9044 100644
--- a/persistence.go
+++ b/persistence.go
@@ -637,6 +637,14 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The options may share the PFK and salt of this instance, use copies as the
+	// incoming instance is wiped.
+	if incoming.persistenceKey != nil {
+		incoming.persistenceKey = BytePtr(ByteCopy(incoming.persistenceKey))
+	}
+	if incoming.salt != nil {
+		incoming.salt = BytePtr(ByteCopy(incoming.salt))
+	}
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
-- 
2.43.0


From 87d163f8ea9d91e0f6a0c72a8fa4eae9de20cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 12/26] fix: honour WithOverwriteExistingKeysOnImport given to
 ImportKeys

---
 persistence.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index f2e9044..84051c1 100644
--- a/persistence.go
+++ b/persistence.go
@@ -652,6 +652,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		return 0, err
 	}
 	defer incoming.Wipe()
+	overwriteExisting := k.overwriteExistingKeysOnImport || incoming.overwriteExistingKeysOnImport
 	for i := range incoming.Keys {
 		if len(incoming.Keys[i].Id) != k.GroupSize {
 			fmt.Fprintf(os.Stderr, "Key ID %s is not %d characters long (our group size), will not import.", string(incoming.Keys[i].Id), k.GroupSize)
@@ -659,7 +660,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		}
 		if filterFunction(&incoming.Keys[i]) {
 			if k.ContainsKeyId(&incoming.Keys[i].Id) {
-				if !k.overwriteExistingKeysOnImport && k.interactive && IsTerminal() {
+				if !overwriteExisting && k.interactive && IsTerminal() {
 					overwrite := false
 					prompt := &survey.Confirm{
 						Message: fmt.Sprintf("Key ID %s already exist, replace with imported key?", string(incoming.Keys[i].Id)),
@@ -671,7 +672,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 					if !overwrite {
 						continue
 					}
-				} else if !k.overwriteExistingKeysOnImport {
+				} else if !overwriteExisting {
 					fmt.Fprintf(os.Stderr, "Key ID %s already exist, will not import.", string(incoming.Keys[i].Id))
 					continue
 				}
-- 
2.43.0


From b9e5394b6320ac2532010db38e2625cfdea05509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 13/26] fix: do not share memory between exported keys and
 their source

---
 persistence.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 84051c1..c4c5fc0 100644
--- a/persistence.go
+++ b/persistence.go
@@ -586,8 +586,6 @@ func decryptFrom(data []byte, persistenceKey *[]byte) (*Krypto431, error) {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -599,6 +597,12 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
@@ -607,7 +611,15 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	}
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
+			// The export must survive the source being wiped and vice versa.
 			newKey := k.Keys[i]
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
+			newKey.Keepers = nil
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers = append(newKey.Keepers, RuneCopy(&k.Keys[i].Keepers[x]))
+			}
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From b3fbd1e327abf458d186a5082b5ab9578a12da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 14/26] fix: wipe with zeroes when the random source fails

---
 krypto431.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..ca92151 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -195,10 +195,9 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
+		// zero-wipe rune slice instead...
 		ZeroWipe(b)
+		return err
 	}
 	*b = nil
 	return nil
@@ -242,10 +241,9 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
+		// zero-wipe byte slice instead...
 		ZeroWipeBytes(b)
+		return err
 	}
 	*b = nil
 	return nil
-- 
2.43.0


From 0ce3f4e60a1c76d4442adf02189ea29f83cbc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 15/26] fix: wipe the radiogram and binary data of a message

---
 krypto431.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index ca92151..5f0e98f 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -364,6 +364,16 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	written, err = crand.ReadRunes(m.Radiogram)
+	if err != nil || written != len(m.Radiogram) {
+		for i := 0; i < len(m.Radiogram); i++ {
+			m.Radiogram[i] = 0
+		}
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	ZeroWipeBytes(&m.Binary)
 }
 
 // ZeroWipe assigned method for PlainText writes zeroes to Text and EncodedText
@@ -384,6 +394,13 @@ func (m *Message) ZeroWipe() {
 		m.KeyId[i] = 0
 	}
 	m.KeyId = nil
+	// wipe Radiogram
+	for i := 0; i < len(m.Radiogram); i++ {
+		m.Radiogram[i] = 0
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	ZeroWipeBytes(&m.Binary)
 }
 
 // Wipe overwrites a chunk with either random runes or zeroes.
-- 
2.43.0


From 2ec6b120b18d6b3f54187b3488becff728ec5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 16/26] fix: select invalid keys with keys --invalid

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From 26103aae2a72e7ceab177fd06ee8e9de19341822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 17/26] fix: write PDF files readable by the owner only and
 report close errors

---
 print.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..d96a464 100644
--- a/print.go
+++ b/print.go
@@ -232,6 +232,20 @@ func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename st
 	return nil
 }
 
+// outputPDF writes the document to a file only the owner can read (gofpdf's
+// OutputFileAndClose would let the umask decide).
+func outputPDF(pdf *gofpdf.Fpdf, filename string) error {
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	err = pdf.Output(f)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
 func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// A page will hold 110x87 characters
 	var kp []*Key
@@ -272,7 +286,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return outputPDF(pdf, filename)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -315,5 +329,5 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return outputPDF(pdf, filename)
 }
-- 
2.43.0


From 54bc5c1998981f364f05a303a3dfb5d35099c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 18/26] fix: report close errors when writing text files

---
 print.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/print.go b/print.go
index d96a464..2af6148 100644
--- a/print.go
+++ b/print.go
@@ -207,12 +207,11 @@ func (k *Krypto431) KeysTextFile(filter func(key *Key) bool, filename string) er
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfKeys)
-	if err != nil {
-		return err
+	if cerr := f.Close(); err == nil {
+		err = cerr
 	}
-	return nil
+	return err
 }
 
 func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename string) error {
@@ -224,12 +223,11 @@ func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename st
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfMessages)
-	if err != nil {
-		return err
+	if cerr := f.Close(); err == nil {
+		err = cerr
 	}
-	return nil
+	return err
 }
 
 // outputPDF writes the document to a file only the owner can read (gofpdf's
-- 
2.43.0


From 3dbe84c02d432698af8557692d823711799bec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 19/26] fix: copy keepers added to a key, wiping one imported
 key wiped those of others

---
 keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index aab5542..8614716 100644
--- a/keys.go
+++ b/keys.go
@@ -144,7 +144,8 @@ func (k *Krypto431) GenerateKeys(n int, expire *string, keepers ...string) error
 func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
 		if !k.ContainsKeeper(keeper) {
-			k.Keepers = append(k.Keepers, keeper)
+			// Copy as wiping this key also wipes its keepers.
+			k.Keepers = append(k.Keepers, RuneCopy(&keeper))
 		}
 	}
 	return k
-- 
2.43.0


From 59ba687a977ba6e8000cd3cb1caa4900edfb49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 20/26] fix: verify the checksum of all loaded contents

---
 persistence.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/persistence.go b/persistence.go
index c4c5fc0..8352093 100644
--- a/persistence.go
+++ b/persistence.go
@@ -1,6 +1,7 @@
 package krypto431
 
 import (
+	"bufio"
 	"bytes"
 	"compress/gzip"
 	"crypto/sha256"
@@ -560,19 +561,18 @@ func decryptFrom(data []byte, persistenceKey *[]byte) (*Krypto431, error) {
 	defer fgz.Close()
 	// Decode into a new instance as GOB leaves fields alone that were saved empty.
 	var loaded Krypto431
-	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(&loaded)
-	if err != nil {
+	contents := bufio.NewReader(fgz)
+	if err = gob.NewDecoder(contents).Decode(&loaded); err != nil {
 		return nil, err
 	}
 	// Read until the end, only there the checksum of the contents is verified.
-	err = gobDecoder.Decode(&Krypto431{})
-	if err == nil {
-		return nil, ErrCorruptPersistence
-	}
-	if err != io.EOF {
+	rest, err := io.Copy(io.Discard, contents)
+	if err != nil {
 		return nil, err
 	}
+	if rest != 0 {
+		return nil, ErrCorruptPersistence
+	}
 	return &loaded, nil
 }
 
-- 
2.43.0


From 4b7003bf0e1cc620fc4e33d76d3441331969234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 21/26] fix: report an error when the operator declines to
 overwrite a file

Save returned nil without having saved anything, so that the init command
and the export of keys claimed success.
---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 8352093..70e7ce6 100644
--- a/persistence.go
+++ b/persistence.go
@@ -359,7 +359,7 @@ func (k *Krypto431) Save() error {
 					return err
 				}
 				if !overwrite {
-					return nil
+					return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
 				}
 			} else {
 				return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
-- 
2.43.0


From 6b509257e80d2b00627c0ebe623bd28e719e5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:14 +0000
Subject: [PATCH 22/26] fix: show the key ID and all keepers of keys with many
 keepers in print-outs

The header of the sheet was cropped at its beginning to the width of the
sheet and the key ID put over what was left of it.
---
 print.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/print.go b/print.go
index 2af6148..38c38ca 100644
--- a/print.go
+++ b/print.go
@@ -74,11 +74,17 @@ func (k *Key) String() string {
 	}
 	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
 		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+	// Wrap a header which is too long (many keepers) to fit next to the key ID.
+	if width := cols - len(k.Id) - 1; utf8.RuneCountInString(header) > width {
+		header = blox.WrapString(strings.ReplaceAll(header, ",", ", "), uint(width))
+	}
+	headerHeight := blox.LineCount(header)
+	rows += headerHeight - 1
 
 	// Just because you can...
 	return blox.New().SetColumnsAndRows(cols, rows).Trim().
 		DrawSeparator('_').PutTextRightAligned(header).Move(0, 1).
-		PutLine(k.Id).MoveDown().DrawSeparator().MoveDown().PushPos().
+		PutLine(k.Id).Move(0, 1+headerHeight).DrawSeparator().MoveDown().PushPos().
 		PutTextRightAligned(diana.ReciprocalTable).PopPos().
 		SetLineSpacing(groupsLineSpacing).PutText(groups).SetLineSpacing(1).
 		Move(0, rows-footerLines).PutText(KeyFooter).String()
-- 
2.43.0


From be00799193b23d0a5858d45055a0934892d60ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:50 +0000
Subject: [PATCH 23/26] fix: show all addressees of messages with many
 addressees in text print-outs

A print-out of the default width cut the list of addressees off at column
80.
---
 print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/print.go b/print.go
index 38c38ca..eb74727 100644
--- a/print.go
+++ b/print.go
@@ -116,13 +116,12 @@ func (m *Message) String(width ...int) string {
 	}
 	tDtgKeyLen := blox.MaximumLineLength(templateDtgAndKey)
 	tToFromLen := blox.MaximumLineLength(templateToFrom)
-	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid))
+	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(m.From), len(keyid))
 	if len(width) > 0 {
-		if width[0] < minWidth {
-			w = minWidth
-		} else {
-			w = width[0]
-		}
+		w = width[0]
+	}
+	if w < minWidth {
+		w = minWidth
 	}
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
-- 
2.43.0


From 5e48672b97a59f1a43510b2c3ea3eaa588b56cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 24/26] fix: show date-time groups in UTC when the time zone
 has no letter of its own

---
 functions.go | 12 ++++++++++++
 keys.go      |  4 ++--
 messages.go  |  2 +-
 print.go     |  6 +++---
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/functions.go b/functions.go
index 8588ce5..063bf65 100644
--- a/functions.go
+++ b/functions.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"unicode"
 
+	"github.com/sa6mwa/dtg"
 	"github.com/sa6mwa/krypto431/crand"
 	"golang.org/x/crypto/ssh/terminal"
 )
@@ -30,6 +31,17 @@ func SetMinimumPasswordEntropyBits(entropy float64) {
 	MinimumPasswordEntropyBits = entropy
 }
 
+// formatDTG returns the Date-Time Group of d. A time zone which there is no
+// letter for (e.g +0530 or +1300) would be taken for another one and the DTG
+// would tell another time, UTC is used instead.
+func formatDTG(d dtg.DTG) string {
+	_, offset := d.Zone()
+	if offset%(60*60) != 0 || offset < -12*60*60 || offset > 12*60*60 {
+		d.Time = d.UTC()
+	}
+	return d.String()
+}
+
 // RandomAlnumRunes generates a case-sensitive alpha-numeric string as a rune
 // slice of the length n. Returns a rune slice.
 func RandomAlnumRunes(n int) []rune {
diff --git a/keys.go b/keys.go
index 8614716..65f5ba5 100644
--- a/keys.go
+++ b/keys.go
@@ -318,8 +318,8 @@ func (k *Krypto431) SummaryOfKeys(filter func(key *Key) bool) (header []rune, li
 			columns = append(columns, withPadding([]rune("Anonymous"), predictedColumnSizes[1]+addSpace))
 		}
 		columns = append(columns,
-			withPadding([]rune(kp[i].Created.String()), predictedColumnSizes[2]+addSpace),
-			withPadding([]rune(kp[i].Expires.String()), predictedColumnSizes[3]+addSpace),
+			withPadding([]rune(formatDTG(kp[i].Created)), predictedColumnSizes[2]+addSpace),
+			withPadding([]rune(formatDTG(kp[i].Expires)), predictedColumnSizes[3]+addSpace),
 			withPadding([]rune(kp[i].UsedString()), predictedColumnSizes[4]+addSpace),
 			withPadding([]rune(kp[i].CompromisedString()), predictedColumnSizes[5]+addSpace),
 			withPadding([]rune(kp[i].Comment), predictedColumnSizes[6]+addSpace))
diff --git a/messages.go b/messages.go
index 76a7ee5..b9a2e2c 100644
--- a/messages.go
+++ b/messages.go
@@ -441,7 +441,7 @@ func (k *Krypto431) SummaryOfMessages(filter func(msg *Message) bool) (header []
 		var columns [][]rune
 		columns = append(columns,
 			withPadding(mp[i].Id, predictedColumnSizes[0]+addSpace),
-			withPadding([]rune(mp[i].DTG.String()), predictedColumnSizes[1]+addSpace))
+			withPadding([]rune(formatDTG(mp[i].DTG)), predictedColumnSizes[1]+addSpace))
 		if len(mp[i].Recipients) > 0 {
 			columns = append(columns, withPadding([]rune(mp[i].JoinRecipients(",")), predictedColumnSizes[2]+addSpace))
 		} else {
diff --git a/print.go b/print.go
index eb74727..95ef1da 100644
--- a/print.go
+++ b/print.go
@@ -73,7 +73,7 @@ func (k *Key) String() string {
 		keepers = k.JoinKeepers(",")
 	}
 	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
-		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+		keepers, formatDTG(k.Expires), formatDTG(k.Created), k.UsedOrNotString("X", " "))
 	// Wrap a header which is too long (many keepers) to fit next to the key ID.
 	if width := cols - len(k.Id) - 1; utf8.RuneCountInString(header) > width {
 		header = blox.WrapString(strings.ReplaceAll(header, ",", ", "), uint(width))
@@ -126,7 +126,7 @@ func (m *Message) String(width ...int) string {
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
 		MoveX(tDtgKeyLen).PutText(templateToFrom).PopPos().
-		PutText(m.DTG.String()).MoveX(4).PutText(m.IdString()).
+		PutText(formatDTG(m.DTG)).MoveX(4).PutText(m.IdString()).
 		MoveUp().MoveX(tDtgKeyLen + tToFromLen).
 		PutText(recipientsString).
 		PutText(string(m.From))
@@ -151,7 +151,7 @@ func (m *Message) String(width ...int) string {
 	if utf8.RuneCountInString(wrappedCipherText) > 0 {
 		output += "=CIPHER=" + LineBreak + wrappedCipherText + LineBreak
 		groupCount := len(strings.Fields(wrappedCipherText))
-		traffic := blox.WrapString(strings.TrimSpace(fmt.Sprintf("%s DE %s %s %d = %s = K", m.JoinRecipients(" "), string(m.From), m.DTG.String(), groupCount, groupsPrependedWithKey)), uint(w))
+		traffic := blox.WrapString(strings.TrimSpace(fmt.Sprintf("%s DE %s %s %d = %s = K", m.JoinRecipients(" "), string(m.From), formatDTG(m.DTG), groupCount, groupsPrependedWithKey)), uint(w))
 		output += "=TRAFFIC=EXAMPLE=" + LineBreak + traffic + LineBreak
 	}
 
-- 
2.43.0


From e9bc873f1d39191496efeb2a64d9ba616808c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:50 +0000
Subject: [PATCH 25/26] fix: let --valid take any number of days

---
 cmd/krypto431/functions.go | 15 +++++++++++++++
 cmd/krypto431/keys.go      |  3 +--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/krypto431/functions.go b/cmd/krypto431/functions.go
index 12ee899..27b3710 100644
--- a/cmd/krypto431/functions.go
+++ b/cmd/krypto431/functions.go
@@ -2,7 +2,9 @@ package main
 
 import (
 	"fmt"
+	"math"
 	"os"
+	"time"
 
 	"github.com/AlecAivazis/survey/v2"
 	"github.com/sa6mwa/krypto431"
@@ -194,3 +196,16 @@ func eprintf(format string, a ...any) (int, error) {
 func eprintln(a ...any) (int, error) {
 	return fmt.Fprintln(os.Stderr, a...)
 }
+
+// days returns the duration of n days. More days than fit a time.Duration
+// (about 292 years) are as many as do.
+func days(n int) time.Duration {
+	const most = int64(math.MaxInt64 / (24 * time.Hour))
+	switch {
+	case int64(n) > most:
+		return math.MaxInt64
+	case int64(n) < -most:
+		return math.MinInt64
+	}
+	return time.Duration(n) * 24 * time.Hour
+}
diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index fef4bda..c9c68b6 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"path/filepath"
 	"strings"
-	"time"
 	"unicode"
 	"unicode/utf8"
 
@@ -83,7 +82,7 @@ func keys(c *cli.Context) error {
 			if key.Compromised {
 				return false
 			}
-			if !key.IsValid(time.Duration(o.valid) * 24 * time.Hour) {
+			if !key.IsValid(days(o.valid)) {
 				return false
 			}
 		}
-- 
2.43.0


From fd81915899340abe7e28eaa251a259f11e1aca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:00 +0000
Subject: [PATCH 26/26] fix: refuse small letters that would be deciphered as
 another letter

---
 cipher.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cipher.go b/cipher.go
index ebfb361..c0d6579 100644
--- a/cipher.go
+++ b/cipher.go
@@ -281,6 +281,16 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// find character in one of the tables
 	c := *input
 	toUpper(&c, &c)
+	if isLower(input) {
+		// A few small letters are not the small letter of their capital (e.g ſ and
+		// ı) and would be decoded as another one.
+		var l rune
+		toLower(&c, &l)
+		if l != *input {
+			c = specialOpChar
+		}
+		l = 0
+	}
 	foundIt := false
 	for t := range CharacterTables {
 		for i, tc := range CharacterTables[t] {
-- 
2.43.0

