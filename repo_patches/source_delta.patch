From 32a1e3030cd581e4e9fa2ccc149fa95ccf7669c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 01/86] fix: session: use per exchange ephemeral keys when
 initiating

Initiate generated its ephemeral key pair into the package wide keys that
Respond and every other Initiate use, without holding the mutex, and wiped
them on return.  Exchanges running at the same time in one process failed
each other, and a process that both initiates and responds kept responding
with an all zero ephemeral key until the next rotation.
---
 session/kx.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..63bb706 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -50,8 +50,8 @@ var (
 	ephemeralMutex   sync.Mutex
 )
 
-// regenerateEphemeral rotates the server/client's ephemeral key. It is invoked
-// concurrently to the operation of the server/client, therefore we need to
+// regenerateEphemeral rotates the server's ephemeral key. It is invoked
+// concurrently to the operation of the server, therefore we need to
 // acquire a mutex to ensure noninterference.
 func regenerateEphemeral() error {
 	pk, sk, err := sntrup4591761.GenerateKey(rand.Reader)
@@ -65,13 +65,13 @@ func regenerateEphemeral() error {
 	return nil
 }
 
-// zeroEphemeral erases the contents of ephemeralP{ublic,rivate}.
-func zeroEphemeral() {
-	for i := range ephemeralPublic {
-		ephemeralPublic[i] ^= ephemeralPublic[i]
+// zeroEphemeral erases the contents of the provided ephemeral keys.
+func zeroEphemeral(pk *[sntrup4591761.PublicKeySize]byte, sk *[sntrup4591761.PrivateKeySize]byte) {
+	for i := range pk {
+		pk[i] = 0
 	}
-	for i := range ephemeralPrivate {
-		ephemeralPrivate[i] ^= ephemeralPrivate[i]
+	for i := range sk {
+		sk[i] = 0
 	}
 }
 
@@ -243,13 +243,16 @@ func recvEncryptedIdentity(kx *KX, ek *[32]byte) (*[sntrup4591761.PublicKeySize]
 // c1, c2, c3, c4: NTRU Prime ciphertexts corresponding to k1, k2, k3, k4.
 // From the perspective of the initiator, the process unfolds as follows:
 func (kx *KX) Initiate() error {
-	if err := regenerateEphemeral(); err != nil {
+	// The ephemeral keys belong to this exchange only; they are not shared
+	// with other exchanges nor with the ephemeral keys used by Respond.
+	epk, esk, err := sntrup4591761.GenerateKey(rand.Reader)
+	if err != nil {
 		return err
 	}
-	defer zeroEphemeral()
+	defer zeroEphemeral(epk, esk)
 
-	D(0, "[session.Initiate] ephemeral public:\n%x", ephemeralPublic)
-	D(0, "[session.Initiate] ephemeral private:\n%x", ephemeralPrivate)
+	D(0, "[session.Initiate] ephemeral public:\n%x", *epk)
+	D(0, "[session.Initiate] ephemeral private:\n%x", *esk)
 	D(0, "[session.Initiate] our public key:\n%x", *kx.OurPublicKey)
 	D(0, "[session.Initiate] their public key:\n%x", *kx.TheirPublicKey)
 
@@ -259,13 +262,13 @@ func (kx *KX) Initiate() error {
 		return err
 	}
 	// Step 2: Send our ephemeral public key encrypted with k1.
-	err = kx.writeWithKey(ephemeralPublic[:], k1)
+	err = kx.writeWithKey(epk[:], k1)
 	if err != nil {
 		return err
 	}
 
 	// Step 3: Receive c2 encrypted with k1, obtain k2.
-	k2, ok := recvCipherAndGetKey(kx, &ephemeralPrivate, k1)
+	k2, ok := recvCipherAndGetKey(kx, esk, k1)
 	if ok != 1 {
 		return ErrInvalidKx
 	}
@@ -275,7 +278,7 @@ func (kx *KX) Initiate() error {
 		return err
 	}
 	// Step 5: Receive server's initial proof binding the ephemeral keys to k1.
-	sp, err := recvProof(kx, k1, k2, ephemeralPublic[:], theirEphemeralPub[:])
+	sp, err := recvProof(kx, k1, k2, epk[:], theirEphemeralPub[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 26309793da945aa4f67f4b8f78123262d8f233a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 02/86] fix: session: a message refused for its size must not
 consume a sequence number

writeWithKey advanced the write sequence number before it refused an oversize
message.  Nothing was sent, so every later message of that direction failed to
decrypt at the peer.
---
 session/kx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/kx.go b/session/kx.go
index 63bb706..501054e 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -420,10 +420,11 @@ func (kx *KX) Read() ([]byte, error) {
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
 	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
 	if uint(len(payload)) > kx.MaxMessageSize {
+		// not sent, so the sequence number remains unused
 		return ErrOverflow
 	}
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From a0a093754a321185e443faf1837e579c92c655ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 03/86] fix: ratchet: deliver empty messages that arrive late

trySavedKeys returned a nil slice for an empty message, which Decrypt took
for "no saved key".  The key was deleted and the message refused as a
duplicate.
---
 ratchet/ratchet.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..ebd4538 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -313,7 +313,9 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 
 		sealedMessage := ciphertext[sealedHeaderSize:]
 		copy(nonce[:], header[nonceInHeaderOffset:])
-		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &msgKey.key)
+		// Open into a non-nil slice, nil means that there was no saved
+		// key and an empty message must not be mistaken for that.
+		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
 		if !ok {
 			return nil, errors.New("ratchet: corrupt message")
 		}
-- 
2.43.0


From c6f3d7eb69f39a078e09b6199ff96ee03c316a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 04/86] fix: blobshare: refuse packed data that is too short
 instead of panicking

UnpackSaltNonce and UnpackNonce are handed data that comes from other users;
both sliced it without looking at its length.
---
 blobshare/blobshare.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..acf06b8 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -6,6 +6,7 @@ package blobshare
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 
@@ -17,6 +18,8 @@ var (
 	n = 16384
 	r = 8
 	p = 1
+
+	errShort = errors.New("packed data too short")
 )
 
 func SetNrp(nn, rr, pp int) {
@@ -78,6 +81,9 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		return nil, nil, nil, errShort
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +105,9 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		return nil, nil, errShort
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From 939cf3de9ed4ec90f77091cf2a7cc4febfc6c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 05/86] fix: blobshare: protect the scrypt parameters

SetNrp is called by every key exchange while other goroutines derive keys.
---
 blobshare/blobshare.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index acf06b8..22099f5 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"sync"
 
 	"golang.org/x/crypto/nacl/secretbox"
 	"golang.org/x/crypto/scrypt"
@@ -19,10 +20,14 @@ var (
 	r = 8
 	p = 1
 
+	nrpMutex sync.RWMutex // protects n, r and p
+
 	errShort = errors.New("packed data too short")
 )
 
 func SetNrp(nn, rr, pp int) {
+	nrpMutex.Lock()
+	defer nrpMutex.Unlock()
 	n = nn
 	r = rr
 	p = pp
@@ -55,7 +60,10 @@ func NewKey(password []byte) (*[32]byte, *[32]byte, error) {
 
 func DeriveKey(password []byte, salt *[32]byte) (*[32]byte, error) {
 	var key [32]byte
-	dk, err := scrypt.Key(password, salt[:], n, r, p, len(key))
+	nrpMutex.RLock()
+	cn, cr, cp := n, r, p
+	nrpMutex.RUnlock()
+	dk, err := scrypt.Key(password, salt[:], cn, cr, cp, len(key))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ff770029574b123fbcbbe60b3af131f185ab0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 06/86] fix: inidb: a new table must be saved even when it is
 still empty

---
 inidb/inidb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..1979d9f 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -226,7 +226,11 @@ func (i *INIDB) NewTable(table string) {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
+	if _, ok := i.tables[table]; ok {
+		return
+	}
 	i.tables.Section(table)
+	i.dirty = true
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From e22b84bd9cdc735fb444fb59579f2337301af359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 07/86] fix: inidb: write the default table first and report
 write errors

---
 inidb/inidb.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 1979d9f..5fb07c3 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -10,6 +10,7 @@
 package inidb
 
 import (
+	"bufio"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -107,17 +108,14 @@ func (i *INIDB) Save() error {
 	}
 
 	// save all records
-	fmt.Fprintf(f, "%v\n", auto)
-	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
-		}
-		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
-		}
-		fmt.Fprintf(f, "\n")
+	err = i.write(f)
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
 	}
-	f.Close()
 
 	// backup original
 	if !i.created {
@@ -126,6 +124,7 @@ func (i *INIDB) Save() error {
 			time.Now().Format("20060102.150405.000000000"))
 		err = os.Rename(i.filename, backup)
 		if err != nil {
+			_ = os.Remove(f.Name())
 			return fmt.Errorf("could not rename original file: %v",
 				err)
 		}
@@ -134,6 +133,7 @@ func (i *INIDB) Save() error {
 	// rename new one
 	err = os.Rename(f.Name(), i.filename)
 	if err != nil {
+		_ = os.Remove(f.Name())
 		return fmt.Errorf("could not rename new file: %v", err)
 	}
 
@@ -142,6 +142,29 @@ func (i *INIDB) Save() error {
 	return i.prune()
 }
 
+// write writes all tables and records to f.  The default table does not have a
+// section header and therefore must be first.
+func (i *INIDB) write(f *os.File) error {
+	w := bufio.NewWriter(f)
+	fmt.Fprintf(w, "%v\n", auto)
+	for rk, rv := range i.tables[""] {
+		fmt.Fprintf(w, "%v = %v\n", rk, rv)
+	}
+	fmt.Fprintf(w, "\n")
+	for tk, tv := range i.tables {
+		if tk == "" {
+			continue
+		}
+		fmt.Fprintf(w, "[%v]\n", tk)
+		for rk, rv := range tv {
+			fmt.Fprintf(w, "%v = %v\n", rk, rv)
+		}
+		fmt.Fprintf(w, "\n")
+	}
+
+	return w.Flush()
+}
+
 func (i *INIDB) prune() error {
 	if i.depth < 0 {
 		return nil
-- 
2.43.0


From 7c1cf135e16a923b19522b9a4e72468cdb5b5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 08/86] fix: inidb: do not leave a moment without a database
 while saving

---
 inidb/inidb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 5fb07c3..a2da34e 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -117,12 +117,16 @@ func (i *INIDB) Save() error {
 		return fmt.Errorf("could not write temporary file: %v", err)
 	}
 
-	// backup original
+	// backup original, prefer a link because it does not leave a moment
+	// during which there is no database at all.
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		err = os.Link(i.filename, backup)
+		if err != nil {
+			err = os.Rename(i.filename, backup)
+		}
 		if err != nil {
 			_ = os.Remove(f.Name())
 			return fmt.Errorf("could not rename original file: %v",
-- 
2.43.0


From e7da94ded0e636e08cffc0bd5a386d87c8e5aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 09/86] fix: inidb: refuse records that an ini file can not
 hold

---
 inidb/inidb.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index a2da34e..2cde013 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -30,6 +30,7 @@ const (
 var (
 	ErrNotFound = errors.New("record not found")
 	ErrCreated  = errors.New("database created")
+	ErrInvalid  = errors.New("invalid table, key or value")
 )
 
 // INIDB is an opaque structure that contains the database context.
@@ -216,8 +217,20 @@ func (i *INIDB) Get(table string, key string) (string, error) {
 	return value, nil
 }
 
+// representable returns whether the ini format can hold the record.
+func representable(table, key, value string) bool {
+	for _, s := range []string{table, key, value} {
+		if s != strings.TrimSpace(s) || strings.Contains(s, "\n") {
+			return false
+		}
+	}
+	return !strings.Contains(table, "=") && key != "" &&
+		!strings.Contains(key, "=") && key[0] != '#' && key[0] != ';'
+}
+
 // Set creates/overwrites a record in table.  If table does not exist
-// ErrNotFound is returned.
+// ErrNotFound is returned.  If the record can not be represented in an ini
+// file ErrInvalid is returned.
 func (i *INIDB) Set(table, key, value string) error {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
@@ -226,6 +239,9 @@ func (i *INIDB) Set(table, key, value string) error {
 	if !ok {
 		return ErrNotFound
 	}
+	if !representable(table, key, value) {
+		return ErrInvalid
+	}
 	s[key] = value
 	i.dirty = true
 
-- 
2.43.0


From a90fc0121babfca198bf4d2d219f1b42af7af66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 10/86] fix: zkidentity: an identity must belong to its key to
 verify

---
 zkidentity/zkidentity.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..5776085 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,11 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	// the identity must be the one that belongs to the key
+	identity := sha256.Sum256(p.Key[:])
+	if !bytes.Equal(p.Identity[:], identity[:]) {
+		return false
+	}
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From e936138f5467d80aa25d49a385c0519f792ae889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 11/86] fix: addressbook: do not list an identity under more
 than one nick

---
 zkclient/addressbook/addressbook.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zkclient/addressbook/addressbook.go b/zkclient/addressbook/addressbook.go
index 4dab2c4..67e24c9 100644
--- a/zkclient/addressbook/addressbook.go
+++ b/zkclient/addressbook/addressbook.go
@@ -51,6 +51,14 @@ func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
 		err   error
 	)
 
+	// an identity has a single entry, replace it if it is known already
+	for k, v := range a.identities {
+		if bytes.Equal(identity.Identity[:], v.Identity[:]) {
+			delete(a.identities, k)
+			break
+		}
+	}
+
 	for {
 		i, found = a.identities[identity.Nick]
 		if found {
-- 
2.43.0


From 03265cf6cf690094553711b36135cad9c092a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 12/86] fix: account: a delivery while going online must not
 block the producer

---
 zkserver/account/account.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..3b87b68 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -421,13 +421,13 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 		quit:      make(chan struct{}),
 		processed: make(map[string]struct{}),
 	}
+	// First time around start delivering.  Queue the work before anyone
+	// else can, a full queue must not block the producer.
+	dn.work <- struct{}{}
 	a.online[who] = dn
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
-
 		for {
 			select {
 			case <-dn.quit:
-- 
2.43.0


From 1b3e38a94708bc5db6094796771591836179c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 13/86] fix: account: a message deleted while scanning the
 cache is not an error

---
 zkserver/account/account.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 3b87b68..9891ff9 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -457,6 +457,13 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 
 				filename := path.Join(cache, v.Name())
 				f, err := os.Open(filename)
+				if os.IsNotExist(err) {
+					// Deleted since we read the directory.
+					a.Lock()
+					delete(dn.processed, v.Name())
+					a.Unlock()
+					continue
+				}
 				if err != nil {
 					dn.send(&Notification{
 						Error: fmt.Errorf("%v: %v",
-- 
2.43.0


From 1d3547b4704c44785e8a7a353faa895c50fe20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 14/86] fix: account: deliver messages completely or not at all
 and in order

---
 zkserver/account/account.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 9891ff9..5f98e7f 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -25,6 +25,9 @@ import (
 const (
 	CacheDir             = "cache"
 	UserIdentityFilename = "user.ini"
+
+	// deliverFilename is where a message is assembled prior to delivery
+	deliverFilename = "deliver.tmp"
 )
 
 type ErrAlreadyOnline struct {
@@ -41,7 +44,8 @@ type Account struct {
 
 	// mutexed memebers
 	sync.Mutex
-	online map[[32]byte]diskNotification
+	online    map[[32]byte]diskNotification
+	delivered time.Time // time of last delivery
 }
 
 type diskNotification struct {
@@ -314,9 +318,6 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 	// get directory
 	cache := a.accountFile(to, CacheDir)
 
-	// calculate next filename
-	filename := time.Now().Format("20060102150405.000000000")
-
 	// convert to on disk format
 	dm := diskMessage{
 		From:      from,
@@ -330,19 +331,30 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("could not marshal diskMessage")
 	}
 
-	// sanity
+	a.Lock()
+	defer a.Unlock()
+
+	// calculate next filename, these must be unique and in order
+	now := time.Now()
+	if !now.After(a.delivered) {
+		now = a.delivered.Add(1)
+	}
+	a.delivered = now
+	filename := now.Format("20060102150405.000000000")
 	fullPath := path.Join(cache, filename)
 	_, err = os.Stat(fullPath)
 	if err == nil {
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	a.Lock()
-	defer a.Unlock()
-
-	// and dump it
-	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
+	// and dump it, the cache must only ever contain complete messages
+	tmp := a.accountFile(to, deliverFilename)
+	err = ioutil.WriteFile(tmp, b.Bytes(), 0600)
+	if err == nil {
+		err = os.Rename(tmp, fullPath)
+	}
 	if err != nil {
+		os.Remove(tmp)
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
 
-- 
2.43.0


From 06387c9cd335d9fbd7c3f57ccf4143120b9d5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 15/86] fix: account: do not create an account that exists but
 is disabled

---
 zkserver/account/account.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 5f98e7f..5ec8a4f 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -42,6 +42,8 @@ func (e ErrAlreadyOnline) Error() string {
 type Account struct {
 	root string // root location of all accounts
 
+	createMtx sync.Mutex // serializes account creation
+
 	// mutexed memebers
 	sync.Mutex
 	online    map[[32]byte]diskNotification
@@ -125,10 +127,18 @@ func (a *Account) accountFile(id [zkidentity.IdentitySize]byte,
 // createAccount creates all directories and files associated with an account.
 // It returns a logable and a sanitized error.
 func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
+	// only one at a time or two could pass the checks below
+	a.createMtx.Lock()
+	defer a.createMtx.Unlock()
+
 	_, err := a.Find(pid.Nick)
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
 	}
+	if a.Disabled(pid.Identity) {
+		return fmt.Errorf("account disabled: %v",
+			a.accountDirDisabled(pid.Identity))
+	}
 	// make sure account doesn't exist
 	accountName := a.accountDir(pid.Identity)
 	_, err = os.Stat(accountName)
-- 
2.43.0


From 114fa651ae9dd87cab388b557206c970d9f3bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 16/86] fix: account: one incomplete account must not hide all
 others from Find

---
 zkserver/account/account.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 5ec8a4f..77e836e 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -215,8 +215,8 @@ func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 		dirname := path.Join(a.root, v.Name())
 		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
 		if err != nil {
-			a.Unlock()
-			return nil, fmt.Errorf("could not find user: %v", err)
+			// A stray or incomplete account must not hide others.
+			continue
 		}
 		a.Unlock()
 
@@ -224,17 +224,20 @@ func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 		if err == nil && listed == "1" {
 			b64, err := user.Get("", "identity")
 			if err != nil {
-				return nil, fmt.Errorf("could not get user: %v", err)
+				a.Lock()
+				continue
 			}
 			blob, err := base64.StdEncoding.DecodeString(b64)
 			if err != nil {
-				return nil, fmt.Errorf("could not decode user: %v", err)
+				a.Lock()
+				continue
 			}
 			id := new(zkidentity.PublicIdentity)
 			br := bytes.NewReader(blob)
 			_, err = xdr.Unmarshal(br, &id)
 			if err != nil {
-				return nil, fmt.Errorf("could not unmarshal user: %v", err)
+				a.Lock()
+				continue
 			}
 			if id.Nick == nick {
 				return id, nil
-- 
2.43.0


From bc8a6f9c9b7fda1fd5e38d76c9184b53d3cb6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 17/86] fix: zkserver: a tag must be less than the tag depth

---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..b9a4c19 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -447,7 +447,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From 102dc4fcc0e1821f8a3ec9e16e843c66825f001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 18/86] fix: zkserver: an administration request with a short
 identity must not crash the server

---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..846abad 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity size"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity size"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From 9a9074204aebcb5c1431aaf31435f2ce0382266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 19/86] fix: zkserver: disable must knock the user offline
 however the identity is spelled

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index b9a4c19..2d69808 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -21,6 +21,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -761,7 +762,7 @@ func (z *ZKS) socketHandler(c net.Conn) {
 
 			// knock user offline
 			z.Lock()
-			if sc, ok := z.sessions[jud.Identity]; ok {
+			if sc, ok := z.sessions[strings.ToLower(jud.Identity)]; ok {
 				z.Dbg(idSock, "user disconnected %s",
 					jud.Identity)
 				sc.kx.Close()
-- 
2.43.0


From 745b9f390f50dfd2b880ca9c0c2e49f53acf3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 20/86] fix: zkserver: concurrent logins must not share the
 welcome properties

---
 zkserver/zkserver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 2d69808..e5875fe 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -166,7 +166,9 @@ func (z *ZKS) welcome(kx *session.KX) error {
 		motd = []byte{}
 	}
 
-	properties := rpc.SupportedServerProperties
+	// do not touch the global default properties
+	properties := append([]rpc.ServerProperty{},
+		rpc.SupportedServerProperties...)
 	for k, v := range properties {
 		switch v.Key {
 		case rpc.PropTagDepth:
-- 
2.43.0


From 328dc62123a3982311f4d21ed6d5d4b0ead74fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 21/86] fix: zkserver: always clean up a session and only our
 own

---
 zkserver/zkserver.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index e5875fe..f21fda6 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -386,11 +386,34 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		return fmt.Errorf("handleSession: %v %v", rids, err)
 	}
 
+	// from here on always clean up
+	defer func() {
+		// stop it all
+		close(sc.quit)
+
+		z.account.Offline(rid)
+
+		// mark session offline, unless it has been replaced
+		z.Lock()
+		if z.sessions[rids] == &sc {
+			delete(z.sessions, rids)
+		}
+		z.Unlock()
+
+		z.Dbg(idS, "handleSession exit: %v", rids)
+	}()
+
 	// mark session online
 	z.Lock()
 	z.sessions[rids] = &sc
 	z.Unlock()
 
+	// the account may have been disabled prior to the session being
+	// visible to the administrator
+	if !z.account.Enabled(rid) {
+		return fmt.Errorf("handleSession: account not enabled %v", rids)
+	}
+
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
 	// populate identity in directory
@@ -406,21 +429,6 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 	go z.sessionWriter(&sc)
 	go z.sessionNtfn(&sc)
 
-	// wait for sessionWriter to exit
-	defer func() {
-		// stop it all
-		close(sc.quit)
-
-		z.account.Offline(rid)
-
-		// mark session offline
-		z.Lock()
-		delete(z.sessions, rids)
-		z.Unlock()
-
-		z.Dbg(idS, "handleSession exit: %v", rids)
-	}()
-
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From b6c68ad25da2d32b19c6718baa2a376fca7faeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 22/86] fix: zkserver: a session whose writer failed must not
 hang forever

---
 zkserver/zkserver.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index f21fda6..8567e9d 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -223,6 +223,16 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// discard messages until the session is gone so that nobody
+		// blocks on a writer that is no longer there
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
@@ -329,7 +339,11 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 				r.Message.Command,
 				r.Message.Tag)
 
-			sc.writer <- &r
+			select {
+			case <-sc.quit:
+				return
+			case sc.writer <- &r:
+			}
 		}
 	}
 }
-- 
2.43.0


From b60bf0c7cb0207bb58d10291cbc5d97761f7ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 23/86] fix: zkserver: an acknowledge for nothing must not hang
 the session

---
 zkserver/zkserver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 8567e9d..0a8dc6e 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -547,6 +547,11 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				message.Tag)
 
 			// sanity
+			if m == nil {
+				// Pushing a tag that is not in use blocks.
+				return fmt.Errorf("acknowledge of unused tag: "+
+					"%v %v", message.Tag, rids)
+			}
 			if m != nil && m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
 					"match: %v %v %v",
-- 
2.43.0


From f27ce173307542e4207288a6a75a864ea1e04b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 24/86] fix: zkserver: sessionNtfn must not wait for a tag
 forever

---
 zkserver/zkserver.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 0a8dc6e..cdb5305 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -299,6 +299,13 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 				return
 			}
 
+			// no new tags are needed once the session is over
+			select {
+			case <-sc.quit:
+				return
+			default:
+			}
+
 			// obtain tag
 			tag, err := sc.tagStack.Pop()
 			if err != nil {
@@ -405,6 +412,17 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		// stop it all
 		close(sc.quit)
 
+		// return an outstanding tag in case sessionNtfn waits for one
+		sc.Lock()
+		for tag, m := range sc.tagMessage {
+			if m != nil {
+				sc.tagMessage[tag] = nil
+				_ = sc.tagStack.Push(uint32(tag))
+				break
+			}
+		}
+		sc.Unlock()
+
 		z.account.Offline(rid)
 
 		// mark session offline, unless it has been replaced
-- 
2.43.0


From eaee0d0899b6168b5b5a29c5e614f7bedfc49e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 25/86] fix: zkserver: serialize the use of the pending and
 rendezvous databases

---
 zkserver/pending.go    |  4 ++++
 zkserver/rendezvous.go | 25 +++++++++++++++++--------
 zkserver/zkserver.go   |  3 +++
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..bc362e9 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -39,6 +39,10 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 }
 
 func (z *ZKS) validToken(token string, conn net.Conn) bool {
+	// one at a time or a token may be used more than once
+	z.pendingMtx.Lock()
+	defer z.pendingMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..6a09638 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -71,8 +71,10 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	}
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
+	z.rendezvousMtx.Unlock()
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open rendezvous db: %v", err)
 	}
@@ -140,21 +142,16 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	// do these declarations before goto to shut go compiler up
 	retry := 25
 
-	// open db
+	// open db, one at a time or records of others are lost
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.rendezvousMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -211,6 +208,18 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	// save db back prior to answering
+	err = rz.Save()
+	if err != nil {
+		z.Error(idApp, "could not save rendezvous db: %v", err)
+		if payload.Error == "" {
+			payload.Error = "internal error, contact server " +
+				"administrator"
+			payload.Token = ""
+		}
+	}
+	z.rendezvousMtx.Unlock()
+
 	reply.Payload = payload
 	writer <- &reply
 	return nil
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index cdb5305..ebd6a0b 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -84,6 +84,9 @@ type ZKS struct {
 	sync.Mutex
 	sessions map[string]*sessionContext
 
+	pendingMtx    sync.Mutex // pending database
+	rendezvousMtx sync.Mutex // rendezvous database
+
 	socket net.Listener // socket for zkserverctl
 
 	// Not mutex entries
-- 
2.43.0


From cff5045093ec13e0511d6722141b56e31ab84ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 26/86] fix: zkserver: do not accept a token that could not be
 removed

---
 zkserver/pending.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index bc362e9..8eb34cd 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -13,7 +13,7 @@ import (
 	"github.com/companyzero/zkc/inidb"
 )
 
-func (z *ZKS) prunePending(pending *inidb.INIDB) {
+func (z *ZKS) prunePending(pending *inidb.INIDB) error {
 	r := pending.Records("")
 	for k, v := range r {
 		t, err := strconv.ParseInt(v, 10, 64)
@@ -36,9 +36,10 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 	if err != nil {
 		z.Error(idApp, "could not save pending db: %v", err)
 	}
+	return err
 }
 
-func (z *ZKS) validToken(token string, conn net.Conn) bool {
+func (z *ZKS) validToken(token string, conn net.Conn) (valid bool) {
 	// one at a time or a token may be used more than once
 	z.pendingMtx.Lock()
 	defer z.pendingMtx.Unlock()
@@ -50,7 +51,13 @@ func (z *ZKS) validToken(token string, conn net.Conn) bool {
 		z.Error(idApp, "could not open pending db: %v", err)
 		return false
 	}
-	defer z.prunePending(pending) // kill all expired records
+	defer func() {
+		// kill all expired records, a token that could not be removed
+		// must not be used
+		if z.prunePending(pending) != nil {
+			valid = false
+		}
+	}()
 
 	// get token
 	v, err := pending.Get("", token)
-- 
2.43.0


From ecbc2a7d0f3b8e3ded0052f89b9585cc6d4c88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 27/86] fix: zkserver: do not answer from a directory that is
 disabled

---
 zkserver/account.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 846abad..63df430 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -6,6 +6,7 @@ package main
 
 import (
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"net"
 
@@ -89,7 +90,11 @@ func (z *ZKS) handleIdentityFind(writer chan *RPCWrapper, msg rpc.Message, nick
 	payload := rpc.IdentityFindReply{
 		Nick: nick,
 	}
-	id, err := z.account.Find(nick)
+	var id *zkidentity.PublicIdentity
+	err := errors.New("directory disabled")
+	if z.settings.Directory {
+		id, err = z.account.Find(nick)
+	}
 	if err != nil {
 		payload.Error = fmt.Sprintf("nick not found: %v", nick)
 	} else {
-- 
2.43.0


From 43222aac6bea302a99ce9a44c75f18f7c0f60e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 28/86] fix: zkserver: do not create accounts for identities
 that do not verify

---
 zkserver/account.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/account.go b/zkserver/account.go
index 63df430..a6bb82a 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -38,6 +38,12 @@ func (z *ZKS) handleAccountCreate(conn net.Conn, ca rpc.CreateAccount) error {
 	z.T(idApp, "handleAccountCreate: %v %v",
 		conn.RemoteAddr(),
 		ca.PublicIdentity.Fingerprint())
+	// do not create accounts for what is not a genuine identity
+	if !ca.PublicIdentity.Verify() {
+		z.accountReplyFailure("invalid identity", conn, ca)
+		return fmt.Errorf("invalid identity")
+	}
+
 	// check policy
 	switch z.settings.CreatePolicy {
 	default:
-- 
2.43.0


From 680c8c92409ff924023f45f1c7eefe46a0d96571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 29/86] fix: zkserver: honour the maxmsgsize setting

---
 zkserver/settings/settings.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zkserver/settings/settings.go b/zkserver/settings/settings.go
index 2c6723a..344e21c 100644
--- a/zkserver/settings/settings.go
+++ b/zkserver/settings/settings.go
@@ -149,6 +149,19 @@ func (s *Settings) Load(filename string) error {
 		}
 	}
 
+	// maxmsgsize
+	msz, ok := cfg.Get("", "maxmsgsize")
+	if ok {
+		s.MaxMsgSize, err = strconv.ParseUint(msz, 10, 64)
+		if err != nil {
+			return fmt.Errorf("maxmsgsize invalid: %v", err)
+		}
+	}
+	if s.MaxMsgSize <= s.MaxChunkSize {
+		return fmt.Errorf("maxmsgsize must be larger than " +
+			"maxchunksize")
+	}
+
 	// logging and debug
 	logFile, ok := cfg.Get("log", "logfile")
 	if ok {
-- 
2.43.0


From 6b779a133f9ef3e003a00f67e75eed6897f9acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 30/86] fix: zkserver: refuse messages that are too large to be
 pushed to the recipient

---
 zkserver/cache.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/zkserver/cache.go b/zkserver/cache.go
index fde549c..ad4380e 100644
--- a/zkserver/cache.go
+++ b/zkserver/cache.go
@@ -5,6 +5,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 	"path"
@@ -12,8 +13,29 @@ import (
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
+	xdr "github.com/davecgh/go-xdr/xdr2"
+	"golang.org/x/crypto/nacl/secretbox"
 )
 
+// pushable returns an error if a payload can not be pushed to its recipient
+// because the resulting message exceeds the maximum message size.  If such a
+// message were delivered it would knock the recipient offline every time.
+func (z *ZKS) pushable(payload []byte) error {
+	var bb bytes.Buffer
+	_, err := xdr.Marshal(&bb, rpc.Message{Command: rpc.TaggedCmdPush})
+	if err != nil {
+		return err
+	}
+	_, err = xdr.Marshal(&bb, rpc.Push{Payload: payload})
+	if err != nil {
+		return err
+	}
+	if uint64(bb.Len()+secretbox.Overhead) > z.settings.MaxMsgSize {
+		return fmt.Errorf("payload too large: %v", len(payload))
+	}
+	return nil
+}
+
 // think about establishing whitelist or just blind deliver
 func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Message, cache rpc.Cache) error {
 	// sanity
@@ -30,7 +52,12 @@ func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)
+	var filename string
+	err := z.pushable(cache.Payload)
+	if err == nil {
+		filename, err = z.account.Deliver(cache.To, from,
+			cache.Payload, false)
+	}
 	if err != nil {
 		replyError := "internal error"
 		replyErrorCode := rpc.ErrorCodeInvalid
@@ -99,7 +126,12 @@ func (z *ZKS) handleProxy(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(proxy.To, from, proxy.Payload, true)
+	var filename string
+	err := z.pushable(proxy.Payload)
+	if err == nil {
+		filename, err = z.account.Deliver(proxy.To, from,
+			proxy.Payload, true)
+	}
 	if err != nil {
 		payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
 			proxy.To)
-- 
2.43.0


From e10ae0eaa32bbd4891961a70bcbf2276f95e2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 31/86] fix: account: create accounts completely or not at all

---
 zkserver/account/account.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 77e836e..d14b1d2 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -28,6 +28,9 @@ const (
 
 	// deliverFilename is where a message is assembled prior to delivery
 	deliverFilename = "deliver.tmp"
+
+	// newSuffix identifies a directory that is to become an account
+	newSuffix = ".new"
 )
 
 type ErrAlreadyOnline struct {
@@ -149,9 +152,21 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 		}
 	}
 
+	// a new account is assembled in a temporary directory so that it
+	// either is complete or does not exist
+	dir := accountName
+	exists := err == nil
+	if !exists {
+		dir = accountName + newSuffix
+		err = os.RemoveAll(dir)
+		if err != nil {
+			return fmt.Errorf("could not remove stale account: %v",
+				err)
+		}
+	}
+
 	// open user db
-	user, err := inidb.New(a.accountFile(pid.Identity,
-		UserIdentityFilename), true, 10)
+	user, err := inidb.New(path.Join(dir, UserIdentityFilename), true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open userdb: %v", err)
 	}
@@ -173,11 +188,19 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	}
 
 	// make additional directories
-	err = os.Mkdir(a.accountFile(pid.Identity, CacheDir), 0700)
+	err = os.Mkdir(path.Join(dir, CacheDir), 0700)
 	if err != nil && !os.IsExist(err) {
 		return fmt.Errorf("could not create cache directory: %v", err)
 	}
 
+	// make it available
+	if !exists {
+		err = os.Rename(dir, accountName)
+		if err != nil {
+			return fmt.Errorf("could not create account: %v", err)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0da321d9bc20584fba8b43040b379af3ea43b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 32/86] fix: zkclient: refuse a message whose compression
 header is invalid

---
 zkclient/push.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..f8c479d 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -489,7 +489,10 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		rd, err = zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("invalid zlib stream: %v", err)
+		}
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
-- 
2.43.0


From d52c2262b05733d928f14b3739c3e12d9f11d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 33/86] fix: zkclient: off by one in the acknowledge tag check

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..0ee887a 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1439,7 +1439,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
-- 
2.43.0


From cf7cd5d663bb4a60aa08ba4386a57125eb2df030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 34/86] fix: zkclient: bound the tag depth and chunk size a
 server can set

---
 zkclient/send.go     | 8 ++++++--
 zkclient/zkclient.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/zkclient/send.go b/zkclient/send.go
index 6e83c94..2209a62 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -125,9 +125,13 @@ func (z *ZKC) completeSend(nick string, f *os.File,
 	// reason to believe we are going to be successful so send chunk rpc
 	z.scheduleCRPC(true, &id, *cn)
 
-	// start chunking file
+	// start chunking file, the chunk size is whatever the server says
+	chunkSize := cn.ChunkSize
+	if chunkSize > cn.Size {
+		chunkSize = cn.Size
+	}
 	for offset := 0; ; {
-		chunk := make([]byte, z.chunkSize)
+		chunk := make([]byte, chunkSize)
 		count, err := f.Read(chunk)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 0ee887a..b61a74f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -901,7 +901,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if td == -1 {
 		return nil, fmt.Errorf("server did not provide tag depth")
 	}
-	if td > tagDepth {
+	if td < 1 || td > tagDepth {
 		return nil, fmt.Errorf("invalid tag depth: %v", td)
 	}
 
-- 
2.43.0


From 08e51344fe9cb596e36dc92010f287203486fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 35/86] fix: zkclient: find the own nick without mixing up byte
 positions

---
 zkclient/push.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index f8c479d..6c51bbe 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -15,6 +15,7 @@ import (
 	"path"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/companyzero/sntrup4591761"
 	"github.com/companyzero/zkc/blobshare"
@@ -1219,6 +1220,32 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	return nil
 }
 
+// findNick returns the start and end of the first case insensitive match of
+// nick in s, or -1.  Upper and lower case can be encoded in a different number
+// of bytes so the positions in a converted string are of no use.
+func findNick(s, nick string) (int, int) {
+	n := utf8.RuneCountInString(nick)
+	if n == 0 {
+		return -1, -1
+	}
+	for x := range s {
+		// find the end of the n-th character
+		y, c := x, 0
+		for y < len(s) && c < n {
+			_, width := utf8.DecodeRuneInString(s[y:])
+			y += width
+			c++
+		}
+		if c < n {
+			break
+		}
+		if strings.EqualFold(s[x:y], nick) {
+			return x, y
+		}
+	}
+	return -1, -1
+}
+
 func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	gm rpc.GroupMessage) error {
 
@@ -1265,8 +1292,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 	// see if we were mentioned
 	s := gm.Message
-	if x := strings.Index(strings.ToUpper(gm.Message),
-		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+	if x, y := findNick(gm.Message, z.id.Public.Nick); x != -1 &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
@@ -1277,8 +1303,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 		// color me brah
 		s = gm.Message[:x] + MAGENTABOLD +
-			gm.Message[x:x+len(z.id.Public.Nick)] + RESET +
-			gm.Message[x+len(z.id.Public.Nick):]
+			gm.Message[x:y] + RESET + gm.Message[y:]
 	}
 
 	var n string
-- 
2.43.0


From 14ff28dbfd39725f79dc22d90bb5dce6fe158b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 36/86] fix: zkclient: refuse group lists without their
 administrator

---
 zkclient/push.go     | 3 +++
 zkclient/zkclient.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index 6c51bbe..90b9eb7 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1026,6 +1026,9 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b61a74f..076ae82 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1903,6 +1903,12 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 		return errNotAdmin
 	}
 
+	// the administrator always is the first member
+	if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {
+		return fmt.Errorf("group list without its administrator: %v",
+			gl.Name)
+	}
+
 	// Warn if generation is no moving forward
 	if gl.Generation <= group.Generation {
 		z.Warn(idRPC, "received illegal grouplist generation: %v %v %v",
-- 
2.43.0


From 912762437e293141e4eddde1b0d1485c8007f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 37/86] fix: zkclient: do not hang on a server that is silent
 during session setup

---
 zkclient/zkclient.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 076ae82..6c7292f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -949,6 +949,9 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	return &wmsg, nil
 }
 
+// sessionTimeout is how long a server may take to set up a session.
+const sessionTimeout = 20 * time.Second
+
 // goOnline goes through all phases of a connection with a server.
 // If successful z.kx can be used to send commands back and forth.
 func (z *ZKC) goOnline() (*rpc.Welcome, error) {
@@ -964,6 +967,9 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 		return nil, err
 	}
 
+	// we hold the lock, don't wait forever for a server that is silent
+	conn.SetDeadline(time.Now().Add(sessionTimeout))
+
 	// XXX check cert here
 	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
 		z.provisionalCert = cs.PeerCertificates[0].Raw
@@ -980,6 +986,8 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 		return nil, err
 	}
 
+	conn.SetDeadline(time.Time{})
+
 	go z.handleRPC()
 
 	return welcome, nil
-- 
2.43.0


From 6d8270ca0a158915a64321be37ea8104e16a50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 38/86] fix: zkclient: a connection that ends while it is used
 crashed the client

---
 zkclient/zkclient.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 6c7292f..54bc3ad 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1659,7 +1659,13 @@ func (z *ZKC) parseMyIdentity(server *inidb.INIDB) error {
 }
 
 func (z *ZKC) welcomeUser(welcome *rpc.Welcome) error {
-	remoteId, ok := z.kx.TheirIdentity().([32]byte)
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+	if kx == nil {
+		return fmt.Errorf("not online")
+	}
+	remoteId, ok := kx.TheirIdentity().([32]byte)
 	if !ok {
 		return fmt.Errorf("invalid KX identity type %T", remoteId)
 	}
@@ -1871,7 +1877,13 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+	if kx == nil {
+		return fmt.Errorf("not online")
+	}
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From ab315ee7fe2b65bfc4bb7988a5050d03d52beefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 39/86] fix: zkclient: do not start a key exchange with someone
 already known

---
 zkclient/zkclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 54bc3ad..af0b425 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1059,6 +1059,11 @@ func (z *ZKC) PrintIdentity(id zkidentity.PublicIdentity) {
 }
 
 func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
+	// don't make the other side start over if we already know it
+	if z.identityExists(id.Identity) {
+		return fmt.Errorf("identity already exists")
+	}
+
 	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &id.Key)
 	if err != nil {
 		return fmt.Errorf("could not encapsulate key: %v", err)
-- 
2.43.0


From c269f568061f58cd04f922f185a00b0e199de09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 40/86] fix: zkclient: a length a message claims but does not
 have exhausted memory

---
 zkclient/kxacceptwindow.go |  2 +-
 zkclient/push.go           | 51 ++++++++++++++++++++++++--------------
 zkclient/zkclient.go       | 22 ++++++++--------
 3 files changed, 44 insertions(+), 31 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..ca1ca92 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -133,7 +133,7 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		// unmarshal into public identity
 		var identity zkidentity.PublicIdentity
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &identity)
+		_, err = xdr.UnmarshalLimited(br, &identity, uint(len(decrypted)))
 		if err != nil {
 			ka.Status(w, true, "Could not unmarshal public "+
 				"identity")
diff --git a/zkclient/push.go b/zkclient/push.go
index 90b9eb7..543e294 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -27,6 +27,10 @@ import (
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
+// maxDecompressed is what a compressed message may expand to, unless the
+// server allows for larger messages.
+const maxDecompressed = 16 * 1024 * 1024
+
 // ratchetError is a special error type that is used to determine if a ratchet
 // was wedged.
 type ratchetError struct {
@@ -89,7 +93,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var kx rpc.KX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &kx)
+		_, err = xdr.UnmarshalLimited(br, &kx, uint(len(decrypted)))
 		if err != nil {
 			return fmt.Errorf("could not unmarshal KX")
 		}
@@ -200,7 +204,7 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var idkx rpc.IdentityKX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &idkx)
+		_, err = xdr.UnmarshalLimited(br, &idkx, uint(len(decrypted)))
 		if err != nil {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
@@ -320,7 +324,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 
 	var idkx rpc.IdentityKX
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &idkx)
+	_, err = xdr.UnmarshalLimited(br, &idkx, uint(len(decrypted)))
 	if err != nil {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
@@ -409,7 +413,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if msg.Cleartext {
 		var pc rpc.ProxyCmd
 		brProxy := bytes.NewReader(p.Payload)
-		_, err := xdr.Unmarshal(brProxy, &pc)
+		_, err := xdr.UnmarshalLimited(brProxy, &pc, uint(len(p.Payload)))
 		if err == nil && pc.Command == rpc.ProxyCmdResetRatchet {
 			// We got a ratchet reset command
 			nick := z.nickFromId(p.From)
@@ -479,21 +483,30 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// decode CRPC
 	var crpc rpc.CRPC
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &crpc)
+	_, err = xdr.UnmarshalLimited(br, &crpc, uint(len(decrypted)))
 	if err != nil {
 		return fmt.Errorf("unmarshal crpc failed")
 	}
 
 	// decompress Payload
-	var rd io.Reader
+	var (
+		rd  io.Reader
+		max uint // longest element that can be in Payload
+	)
 	switch crpc.Compression {
 	case rpc.CRPCCompNone:
 		rd = br
+		max = uint(len(decrypted))
 	case rpc.CRPCCompZLIB:
-		rd, err = zlib.NewReader(br)
+		zr, err := zlib.NewReader(br)
 		if err != nil {
 			return fmt.Errorf("invalid zlib stream: %v", err)
 		}
+		max = maxDecompressed
+		if z.msgSize > max && z.msgSize < 1<<30 {
+			max = z.msgSize
+		}
+		rd = io.LimitReader(zr, int64(max))
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
@@ -502,7 +515,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	switch crpc.Command {
 	case rpc.CRPCCmdPrivateMessage:
 		var pm rpc.PrivateMessage
-		_, err = xdr.Unmarshal(rd, &pm)
+		_, err = xdr.UnmarshalLimited(rd, &pm, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal private message")
 		}
@@ -518,7 +531,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupInvite:
 		var gi rpc.GroupInvite
-		_, err = xdr.Unmarshal(rd, &gi)
+		_, err = xdr.UnmarshalLimited(rd, &gi, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat invite")
 		}
@@ -534,7 +547,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupJoin:
 		var gj rpc.GroupJoin
-		_, err = xdr.Unmarshal(rd, &gj)
+		_, err = xdr.UnmarshalLimited(rd, &gj, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat join")
 		}
@@ -550,7 +563,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKill:
 		var gk rpc.GroupKill
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = xdr.UnmarshalLimited(rd, &gk, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kill")
 		}
@@ -566,7 +579,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKick:
 		var gk rpc.GroupKick
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = xdr.UnmarshalLimited(rd, &gk, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kick")
 		}
@@ -582,7 +595,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupPart:
 		var gp rpc.GroupPart
-		_, err = xdr.Unmarshal(rd, &gp)
+		_, err = xdr.UnmarshalLimited(rd, &gp, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat part")
 		}
@@ -598,7 +611,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupList:
 		var gl rpc.GroupList
-		_, err = xdr.Unmarshal(rd, &gl)
+		_, err = xdr.UnmarshalLimited(rd, &gl, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat list")
 		}
@@ -614,7 +627,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupUpdate:
 		var gu rpc.GroupUpdate
-		_, err = xdr.Unmarshal(rd, &gu)
+		_, err = xdr.UnmarshalLimited(rd, &gu, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat update")
 		}
@@ -630,7 +643,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupMessage:
 		var gm rpc.GroupMessage
-		_, err = xdr.Unmarshal(rd, &gm)
+		_, err = xdr.UnmarshalLimited(rd, &gm, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat message")
 		}
@@ -646,7 +659,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunkNew:
 		var cn rpc.ChunkNew
-		_, err = xdr.Unmarshal(rd, &cn)
+		_, err = xdr.UnmarshalLimited(rd, &cn, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk new")
 		}
@@ -662,7 +675,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunk:
 		var c rpc.Chunk
-		_, err = xdr.Unmarshal(rd, &c)
+		_, err = xdr.UnmarshalLimited(rd, &c, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk")
 		}
@@ -677,7 +690,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdJanitorMessage:
 		var jm rpc.JanitorMessage
-		_, err = xdr.Unmarshal(rd, &jm)
+		_, err = xdr.UnmarshalLimited(rd, &jm, max)
 		if err != nil {
 			return fmt.Errorf("unmarshal janitor message")
 		}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index af0b425..d629d7e 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -791,7 +791,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 
 	// unmarshal header
 	br := bytes.NewReader(cmd)
-	_, err = xdr.Unmarshal(br, &command)
+	_, err = xdr.UnmarshalLimited(br, &command, uint(len(cmd)))
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome header failed")
 	}
@@ -802,7 +802,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	case rpc.SessionCmdUnwelcome:
 		// unmarshal payload
 		var umsg rpc.Unwelcome
-		_, err = xdr.Unmarshal(br, &umsg)
+		_, err = xdr.UnmarshalLimited(br, &umsg, uint(len(cmd)))
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal Unwelcome payload " +
 				"failed")
@@ -818,7 +818,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// unmarshal payload
-	_, err = xdr.Unmarshal(br, &wmsg)
+	_, err = xdr.UnmarshalLimited(br, &wmsg, uint(len(cmd)))
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome payload failed")
 	}
@@ -1313,7 +1313,7 @@ func (z *ZKC) handleRPC() {
 
 		// unmarshal header
 		br := bytes.NewReader(cmd)
-		_, err = xdr.Unmarshal(br, &message)
+		_, err = xdr.UnmarshalLimited(br, &message, uint(len(cmd)))
 		if err != nil {
 			exitError = fmt.Errorf("unmarshal header failed")
 			return
@@ -1329,7 +1329,7 @@ func (z *ZKC) handleRPC() {
 		switch message.Command {
 		case rpc.TaggedCmdPong:
 			var p rpc.Pong
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = xdr.UnmarshalLimited(br, &p, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Pong")
 				return
@@ -1353,7 +1353,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousReply:
 			var r rpc.RendezvousReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = xdr.UnmarshalLimited(br, &r, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal RendezvousReply")
 				return
@@ -1372,7 +1372,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousPullReply:
 			var r rpc.RendezvousPullReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = xdr.UnmarshalLimited(br, &r, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"RendezvousPullReply")
@@ -1393,7 +1393,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdPush:
 			var p rpc.Push
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = xdr.UnmarshalLimited(br, &p, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Push")
 				return
@@ -1444,7 +1444,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdAcknowledge:
 			var a rpc.Acknowledge
-			_, err = xdr.Unmarshal(br, &a)
+			_, err = xdr.UnmarshalLimited(br, &a, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"Acknowledge")
@@ -1492,7 +1492,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdIdentityFindReply:
 			var r rpc.IdentityFindReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = xdr.UnmarshalLimited(br, &r, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"IdentityFindReply")
@@ -1526,7 +1526,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdProxyReply:
 			var p rpc.ProxyReply
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = xdr.UnmarshalLimited(br, &p, uint(len(cmd)))
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"ProxyReply")
-- 
2.43.0


From 5623a2b9c6dbe907c1d17d0a244165a6b6109ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 41/86] fix: zkclient: do not ping with a tag that is in use

---
 zkclient/zkclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index d629d7e..f2698c4 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1276,6 +1276,7 @@ func (z *ZKC) handleRPC() {
 						z.kx.Close()
 						return
 					}
+					continue
 				}
 				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
-- 
2.43.0


From fbb23d0383a083ec6806ba3adcbc296d376a5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 42/86] fix: zkclient: do not pass control sequences of others
 to the terminal

---
 zkclient/acceptclientfingerprint.go |  6 +++---
 zkclient/acceptserverfingerprint.go |  2 +-
 zkclient/zkclient.go                | 33 +++++++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/zkclient/acceptclientfingerprint.go b/zkclient/acceptclientfingerprint.go
index c7ebecc..13270c6 100644
--- a/zkclient/acceptclientfingerprint.go
+++ b/zkclient/acceptclientfingerprint.go
@@ -84,11 +84,11 @@ func (aw *acceptCFPWindow) Init(w *ttk.Window) {
 	})
 
 	w.AddLabel(ax, ay+y, "The authenticity of user %v (%v) can't be "+
-		"established.", aw.pid.Name, aw.pid.Fingerprint())
+		"established.", sanitize(aw.pid.Name), aw.pid.Fingerprint())
 	y += 2
-	w.AddLabel(ax, ay+y, "Name: %v", aw.pid.Name)
+	w.AddLabel(ax, ay+y, "Name: %v", sanitize(aw.pid.Name))
 	y++
-	w.AddLabel(ax, ay+y, "Nick: %v", aw.pid.Nick)
+	w.AddLabel(ax, ay+y, "Nick: %v", sanitize(aw.pid.Nick))
 	y++
 	w.AddLabel(ax, ay+y, "Fingerprint: %v", aw.pid.Fingerprint())
 	y++
diff --git a/zkclient/acceptserverfingerprint.go b/zkclient/acceptserverfingerprint.go
index e29259c..2a25964 100644
--- a/zkclient/acceptserverfingerprint.go
+++ b/zkclient/acceptserverfingerprint.go
@@ -93,7 +93,7 @@ func (aw *acceptWindow) Init(w *ttk.Window) {
 	y += 1
 	w.AddLabel(ax, ay+y, "IP address : %v", aw.conn.RemoteAddr())
 	y += 1
-	w.AddLabel(ax, ay+y, "Server name: %v", aw.pid.Name)
+	w.AddLabel(ax, ay+y, "Server name: %v", sanitize(aw.pid.Name))
 	y += 2
 	cert := aw.cs.PeerCertificates[0].Raw
 	w.AddLabel(ax, ay+y, "Outer server fingerprint: %v",
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index f2698c4..37c67c8 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -23,6 +23,8 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/companyzero/sntrup4591761"
 	"github.com/companyzero/ttk"
@@ -148,8 +150,35 @@ func (z *ZKC) FloodfT(nick, format string, args ...interface{}) {
 	}
 }
 
+// sanitize replaces everything a terminal could take for a command.  Only
+// colors pass.
+func sanitize(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); {
+		r, width := utf8.DecodeRuneInString(s[i:])
+		if r == '\x1b' {
+			_, skip, err := ttk.DecodeColor(s[i:])
+			if err == nil {
+				b.WriteString(s[i : i+skip])
+				i += skip
+				continue
+			}
+		}
+		i += width
+		switch {
+		case r == '\t' || r == '\n':
+			b.WriteRune(' ')
+		case unicode.IsControl(r):
+			b.WriteRune('?')
+		default:
+			b.WriteRune(r)
+		}
+	}
+	return b.String()
+}
+
 func (z *ZKC) printf(id int, ts time.Time, localTs bool, format string, args ...interface{}) {
-	output := fmt.Sprintf(format, args...)
+	output := sanitize(fmt.Sprintf(format, args...))
 	ttk.Queue(func() {
 		z.Lock()
 		if id < 0 {
@@ -272,7 +301,7 @@ func (z *ZKC) focus(id int) {
 
 		// update title
 		title := fmt.Sprintf(" %v@%v",
-			z.conversation[id].nick,
+			sanitize(z.conversation[id].nick),
 			z.serverAddress)
 		z.mw.title.SetText(title)
 		z.mw.title.Render()
-- 
2.43.0


From 96dbecc859cfcd50cc7edc48bf5ab2df490b9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 43/86] fix: zkclient: a group could not have an x in its name

---
 zkclient/groupchat.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..ac6f921 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -21,12 +21,17 @@ import (
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
-const validLetters = "abcdefghijklmnopqrstuvwyz" +
-	"ABCDEFGHIJKLMNOPQRSTUVWYZ" +
+const validLetters = "abcdefghijklmnopqrstuvwxyz" +
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZ" +
 	"1234567890" +
 	"_-@."
 
 func validName(name string) error {
+	// these are not files
+	if name == "" || name == "." || name == ".." {
+		return fmt.Errorf("invalid name")
+	}
+
 	var found bool
 	for _, c := range []byte(name) {
 		found = false
-- 
2.43.0


From b80ba73719728d3176414c10fe498c1e3e224fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 44/86] fix: zkclient: a group that could not be saved remained
 until restart

---
 zkclient/groupchat.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ac6f921..612924b 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -117,6 +117,10 @@ func (z *ZKC) gcNew(args []string) error {
 
 	err = z.gcSaveDisk(args[2])
 	if err != nil {
+		// unwind
+		z.Lock()
+		delete(z.groups, args[2])
+		z.Unlock()
 		return fmt.Errorf("could not create new group: %v", args[2])
 	}
 
@@ -198,12 +202,6 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("join not found: %v %v", args[2], args[3])
 	}
 
-	// send RPC
-	z.scheduleCRPC(true, &from, rpc.GroupJoin{
-		Name:  args[2],
-		Token: token,
-	})
-
 	// save group with just name and administrator
 	z.groups[args[2]] = rpc.GroupList{
 		Name:    args[2],
@@ -212,9 +210,17 @@ func (z *ZKC) gcJoin(args []string) error {
 
 	err = z._gcSaveDisk(args[2])
 	if err != nil {
-		return fmt.Errorf("invalid token: %v", err)
+		delete(z.groups, args[2]) // unwind
+		return fmt.Errorf("could not save group chat %v: %v",
+			args[2], err)
 	}
 
+	// send RPC
+	z.scheduleCRPC(true, &from, rpc.GroupJoin{
+		Name:  args[2],
+		Token: token,
+	})
+
 	// delete join from table
 	err = z.delJoin(args[2], token)
 	if err != nil {
-- 
2.43.0


From 7c17173498787bc89056d90fb75bc88699c60b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 45/86] fix: zkclient: a kick was lost if a member was not
 reachable and undid joins

---
 zkclient/groupchat.go | 86 ++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 62 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 612924b..ea87cc5 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -310,77 +310,39 @@ func (z *ZKC) gcKick(args []string) error {
 
 	reason := "you have been a bad boy!" // make setable
 
-	got := 0                    // acks seen
-	want := len(gc.Members) - 1 // acks required
-	f := func() {
-		z.Lock()
-		defer z.Unlock()
-
-		// only do stuff on last ack
-		got++
-		if got != want {
-			return
-		}
-
-		z.Dbg(idZKC, "gcKick: callback")
-
-		// find conversation
-		var (
-			k = -1
-			v *conversation
-		)
-		for k, v = range z.conversation {
-			if v.id.Nick == args[2] {
-				break
-			}
-		}
-
-		// make sure group has not vanished
-		_, found := z.groups[args[2]]
-		if !found {
-			z.PrintfT(0, REDBOLD+
-				"group no longer exists: %v"+
-				RESET, args[2], err)
-			return
-		}
-
-		// set new group in memory
-		z.groups[args[2]] = ngc
-
-		// save to disk
-		err = z._gcSaveDisk(args[2])
-		if err != nil {
-			em := fmt.Sprintf(REDBOLD+
-				"could not save group to disk %v: %v"+
-				RESET, args[2], err)
-			z.PrintfT(0, "%v", em)
-			// echo on conversation window
-			if k > 0 {
-				z.PrintfT(k, "%v", em)
-			}
-			return
-		}
-
-		km := fmt.Sprintf("%v was kicked of group chat %v: %v",
-			z.settings.PmColor+args[3]+RESET,
-			z.settings.GcColor+args[2]+RESET,
-			reason)
-		z.PrintfT(0, "%v", km)
-		// echo on conversation window
-		if k > 0 {
-			z.PrintfT(k, "%v", km)
-		}
+	// Set new group in memory and save it to disk.  This can not wait until
+	// everyone was told since not everyone may be reachable and since the
+	// group can change in the meantime.
+	z.groups[args[2]] = ngc
+	err = z._gcSaveDisk(args[2])
+	if err != nil {
+		z.groups[args[2]] = gc // unwind
+		return fmt.Errorf("could not save group to disk %v: %v",
+			args[2], err)
 	}
 
 	// send new list to everyone including kickee if still part of the list
 	for j := 1; j < len(gc.Members); j++ {
 		z.Dbg(idZKC, "sending kick %v to: %x", args[2], gc.Members[j])
-		z.scheduleCRPCCB(true, &gc.Members[j], rpc.GroupKick{
+		z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
 			Member:       id.Identity,
 			Reason:       reason,
 			Parted:       false,
 			NewGroupList: ngc,
-		}, f)
+		})
+	}
+
+	km := fmt.Sprintf("%v was kicked of group chat %v: %v",
+		z.settings.PmColor+args[3]+RESET,
+		z.settings.GcColor+args[2]+RESET,
+		reason)
+	z.PrintfT(0, "%v", km)
+	// echo on conversation window
+	for k, v := range z.conversation {
+		if v.id.Nick == args[2] {
+			z.PrintfT(k, "%v", km)
+			break
+		}
 	}
 
 	return nil
-- 
2.43.0


From dce0080d95c564660f617bd3a35705a9e427a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 46/86] fix: zkclient: a join failed if there was an invitation
 to a group with the same name

---
 zkclient/groupinvites.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 98f7b0e..63f3d3f 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -286,11 +286,7 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 		return fmt.Errorf("could not open joins db: %v", err)
 	}
 
-	records := jdb.Records(group)
-	if len(records) != 1 {
-		return fmt.Errorf("invalid join table")
-	}
-	for id, r := range records {
+	for id, r := range jdb.Records(group) {
 		// we search for record to make sure everything is cool
 		invite, err := unmarshalInvite(r)
 		if err != nil {
@@ -303,8 +299,8 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 			continue
 		}
 
-		// delete table
-		err = jdb.DelTable(group)
+		// delete record
+		err = jdb.Del(group, id)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a82ecf317d5a9969448284eb0708126ad9e8e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 47/86] fix: zkclient: group invites never expired

---
 zkclient/groupinvites.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 63f3d3f..e3bba44 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -57,6 +57,11 @@ func unmarshalInvite(b64 string) (*rpc.GroupInvite, error) {
 	return &invite, nil
 }
 
+// expired returns true if an invite is of no use any longer.
+func expired(gi *rpc.GroupInvite) bool {
+	return time.Now().After(time.Unix(gi.Expires, 0))
+}
+
 // listJoins  displays all current replied to joins.
 func (z *ZKC) listJoins(args []string) {
 	z.PrintfT(-1, "Pending joins:")
@@ -142,10 +147,13 @@ func (z *ZKC) inviteDBAdd(id [zkidentity.IdentitySize]byte, description string,
 		return nil, fmt.Errorf("could not open invites db: %v", err)
 	}
 
-	_, err = idb.Get(group.Name, ids)
+	r, err := idb.Get(group.Name, ids)
 	if err == nil {
 		// if invite is expired create a new one
-		return nil, fmt.Errorf("already invited, XXX add expiration check here")
+		old, err := unmarshalInvite(r)
+		if err == nil && !expired(old) {
+			return nil, fmt.Errorf("already invited")
+		}
 	}
 
 	// create new token
@@ -212,9 +220,13 @@ func (z *ZKC) joinDBAdd(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("could not open joins db: %v", err)
 	}
 
-	_, err = jdb.Get(gi.Name, froms)
+	r, err := jdb.Get(gi.Name, froms)
 	if err == nil {
-		return fmt.Errorf("join already seen: %v", gi.Name)
+		// an expired invite may be replaced
+		old, err := unmarshalInvite(r)
+		if err == nil && !expired(old) {
+			return fmt.Errorf("join already seen: %v", gi.Name)
+		}
 	}
 
 	// always create table since it is a no-op if it exists
@@ -259,7 +271,7 @@ func (z *ZKC) getJoin(group string, token uint64) ([zkidentity.IdentitySize]byte
 				id)
 			continue
 		}
-		if token != invite.Token {
+		if token != invite.Token || expired(invite) {
 			continue
 		}
 		idx, err := hex.DecodeString(id)
@@ -341,6 +353,9 @@ func (z *ZKC) delInvite(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("invalid token %v %v: %v",
 			gj.Name, froms, gj.Token)
 	}
+	if expired(invite) {
+		return fmt.Errorf("expired invite %v: %v", gj.Name, froms)
+	}
 
 	// delete record
 	err = idb.Del(gj.Name, froms)
-- 
2.43.0


From 36331261832629d64c0a67861f5cbc0d2c6048f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 48/86] fix: zkclient: a group name was used as format, an
 invite was lost on a failed join

---
 zkclient/push.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 543e294..1a61dbf 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -800,18 +800,18 @@ func (z *ZKC) handleGroupJoin(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("not group chat administrator")
 	}
 
-	// check if we had send this user an invite
-	err := z.delInvite(p.From, gj)
-	if err != nil {
-		return fmt.Errorf("join failed: %v", err)
-	}
-
 	id, err := z.ab.FindIdentity(p.From)
 	if err != nil {
 		return fmt.Errorf("received join from unknown identity: %v",
 			hex.EncodeToString(p.From[:]))
 	}
 
+	// check if we had send this user an invite
+	err = z.delInvite(p.From, gj)
+	if err != nil {
+		return fmt.Errorf("join failed: %v", err)
+	}
+
 	// add new member and increment Generation
 	gc, err = z._addIdGroupchat(gj.Name, *id)
 	if err != nil {
@@ -1202,7 +1202,7 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	// update grouplist
 	err = z.updateGroupList(p.From, gl)
 	if err != nil {
-		z.PrintfT(0, "could not update group chat list: %v %v"+
+		z.PrintfT(0, "could not update group chat list: %v %v",
 			z.settings.GcColor+gl.Name+RESET,
 			err)
 	}
@@ -1228,7 +1228,7 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	// update grouplist
 	err = z.updateGroupList(p.From, gu.NewGroupList)
 	if err != nil {
-		z.PrintfT(0, "could not update group chat list: %v %v"+
+		z.PrintfT(0, "could not update group chat list: %v %v",
 			z.settings.GcColor+gu.NewGroupList.Name+RESET,
 			err)
 	}
-- 
2.43.0


From a070f284b4d81d1ca6a79470bbb15892b7ef11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 49/86] fix: zkclient: group messages went to the window of a
 person named like the group

---
 zkclient/groupchat.go |  4 ++--
 zkclient/push.go      | 10 +++++-----
 zkclient/zkclient.go  |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ea87cc5..ce57a73 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -339,7 +339,7 @@ func (z *ZKC) gcKick(args []string) error {
 	z.PrintfT(0, "%v", km)
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == args[2] {
+		if v.group && v.id.Nick == args[2] {
 			z.PrintfT(k, "%v", km)
 			break
 		}
@@ -457,7 +457,7 @@ func (z *ZKC) gcKill(args []string) error {
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == args[2] {
+		if v.group && v.id.Nick == args[2] {
 			z.PrintfT(k, REDBOLD+"group chat killed"+RESET)
 			break
 		}
diff --git a/zkclient/push.go b/zkclient/push.go
index 1a61dbf..1857a07 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -839,7 +839,7 @@ func (z *ZKC) handleGroupJoin(msg rpc.Message, p rpc.Push,
 		z.settings.GcColor+gj.Name+RESET)
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gj.Name {
+		if v.group && v.id.Nick == gj.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				"%v joined group chat",
 				id.Nick)
@@ -918,7 +918,7 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gp.Name {
+			if v.group && v.id.Nick == gp.Name {
 				z.PrintfT(k, "%v left group chat: %v",
 					z.settings.PmColor+nick+RESET,
 					gp.Reason)
@@ -971,7 +971,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gk.NewGroupList.Name {
+			if v.group && v.id.Nick == gk.NewGroupList.Name {
 				if gk.Parted {
 					z.PrintfTS(k, time.Unix(p.Received, 0),
 						"left group chat: %v",
@@ -1010,7 +1010,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.NewGroupList.Name {
+		if v.group && v.id.Nick == gk.NewGroupList.Name {
 			if gk.Parted {
 				z.PrintfTS(k, time.Unix(p.Received, 0),
 					"%v left group chat %v",
@@ -1056,7 +1056,7 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.Name {
+		if v.group && v.id.Nick == gk.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				REDBOLD+"group chat killed"+RESET)
 			break
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 37c67c8..6092cd4 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -404,7 +404,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
+		if v.group && v.id.Nick == group {
 			return v, k, nil
 		}
 		// next free slot
-- 
2.43.0


From 7520db81775879cd5036dd81a8fbcafe5710918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 50/86] fix: zkclient: text went to someone else with the nick
 of whom it was for

---
 zkclient/mainwindow.go | 70 +++++++++++++++++++++++++-----------------
 zkclient/zkclient.go   | 29 +++++++++++------
 2 files changed, 60 insertions(+), 39 deletions(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 1936743..8048726 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -350,6 +350,20 @@ func (mw *mainWindow) appendHistory(cmd string) {
 	fmt.Fprintf(f, "%v\n", cmd)
 }
 
+// pm sends a message to the other side of a conversation and echoes it.
+func (mw *mainWindow) pm(c *conversation, win int, msg string) error {
+	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
+	if err != nil {
+		return err
+	}
+	// echo
+	mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
+		msg)
+
+	return nil
+}
+
 // action executes a user command.
 func (mw *mainWindow) action(cmd string) error {
 	if len(cmd) == 0 {
@@ -359,17 +373,20 @@ func (mw *mainWindow) action(cmd string) error {
 	// see if we got a command
 	if !strings.HasPrefix(cmd, leader) {
 		mw.zkc.RLock()
-		if mw.zkc.active != 0 {
-			var c string
-			if mw.zkc.conversation[mw.zkc.active].group {
-				c = cmdGc + " m "
-			} else {
-				c = cmdM + " "
+		win := mw.zkc.active
+		c := mw.zkc.conversation[win]
+		mw.zkc.RUnlock()
+		if win != 0 {
+			// Do not go by nick, it may contain spaces and it may
+			// be the nick of several.
+			msg := strings.TrimSpace(cmd)
+			if c.group {
+				a := []string{cmdGc, "m", c.nick, msg}
+				return mw.zkc.gcMessage(a, msg,
+					rpc.MessageModeNormal)
 			}
-			cmd = c + mw.zkc.conversation[mw.zkc.active].nick +
-				" " + cmd
+			return mw.pm(c, win, msg)
 		}
-		mw.zkc.RUnlock()
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
 
@@ -537,18 +554,22 @@ func (mw *mainWindow) action(cmd string) error {
 			win int
 			err error
 		)
-		mw.zkc.RLock()
-		for k, v := range mw.zkc.conversation {
-			if v == nil {
-				continue
-			}
-			if args[1] == v.nick {
-				c = v
-				win = k
-				break
+		_, err = mw.zkc.ab.FindNick(args[1])
+		if err != nil {
+			// may be a conversation with someone without nick
+			mw.zkc.RLock()
+			for k, v := range mw.zkc.conversation {
+				if v == nil || k == 0 || v.group {
+					continue
+				}
+				if args[1] == v.nick {
+					c = v
+					win = k
+					break
+				}
 			}
+			mw.zkc.RUnlock()
 		}
-		mw.zkc.RUnlock()
 
 		if c == nil {
 			c, win, err = mw.zkc.addressBookConversation(args[1])
@@ -563,16 +584,7 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 		}
 
-		err = mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
-		if err != nil {
-			return err
-		}
-		// echo
-		mw.zkc.PrintfT(win, "<%v> %v",
-			mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
-			msg)
-
-		return nil
+		return mw.pm(c, win, msg)
 
 	case cmdInfo:
 		if len(args) == 1 {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 6092cd4..3812d83 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -441,6 +441,11 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 		c.nick = hex.EncodeToString(id[:])
 	} else {
 		c.nick = c.id.Nick
+		// the nick in the address book names no one else
+		pid, err := z.ab.FindIdentity(id)
+		if err == nil {
+			c.nick = pid.Nick
+		}
 	}
 
 	// create conversation console in queue
@@ -493,18 +498,22 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 }
 
 func (z *ZKC) query(nick string) {
+	_, err := z.ab.FindNick(nick)
 	z.RLock()
-	//search for active nick
-	for k, v := range z.conversation {
-		if v == nil {
-			continue
-		}
-		if v.nick != nick {
-			continue
+	_, group := z.groups[nick]
+	if !group && err != nil {
+		// neither a group nor someone known, search for active nick
+		for k, v := range z.conversation {
+			if v == nil {
+				continue
+			}
+			if v.nick != nick {
+				continue
+			}
+			z.focus(k)
+			z.RUnlock()
+			return
 		}
-		z.focus(k)
-		z.RUnlock()
-		return
 	}
 	z.RUnlock()
 
-- 
2.43.0


From abe735aa3724f80cd9520da9fc1e361f801ac12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 51/86] fix: zkclient: after a restart a nick could name
 someone else

---
 zkclient/addressbook.go | 25 +++++++++++++++++++++++++
 zkclient/identity.go    |  1 +
 2 files changed, 26 insertions(+)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index ab62e5e..de34393 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -64,6 +64,15 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 	}
 
 	nick, err := z.ab.Add(id)
+
+	// remember nick, it has to name the same identity after a restart
+	filename := path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id.Identity[:]), nickFilename)
+	err2 := ioutil.WriteFile(filename, []byte(nick), 0600)
+	if err2 != nil {
+		return fmt.Errorf("could not save nick %v: %v", nick, err2)
+	}
+
 	if errors.Is(err, addressbook.ErrDuplicateNick) {
 		return fmt.Errorf("warning duplicate nick added: "+
 			"%v -> %v", id.Nick, nick)
@@ -111,6 +120,7 @@ func (z *ZKC) loadIdentities() error {
 		return err
 	}
 
+	var unnamed []zkidentity.PublicIdentity // nick has not been saved
 	for _, v := range fi {
 		// read
 		filename := path.Join(z.settings.Root, inboundDir, v.Name(),
@@ -129,6 +139,13 @@ func (z *ZKC) loadIdentities() error {
 			continue
 		}
 
+		nick, err := ioutil.ReadFile(path.Join(z.settings.Root,
+			inboundDir, v.Name(), nickFilename))
+		if err != nil {
+			unnamed = append(unnamed, idDisk)
+			continue
+		}
+		idDisk.Nick = string(nick)
 		err = z.addressBookAdd(idDisk)
 		if err != nil {
 			z.PrintfT(0, "unable to add to address book: %v", err)
@@ -136,5 +153,13 @@ func (z *ZKC) loadIdentities() error {
 		}
 	}
 
+	for _, v := range unnamed {
+		err = z.addressBookAdd(v)
+		if err != nil {
+			z.PrintfT(0, "unable to add to address book: %v", err)
+			continue
+		}
+	}
+
 	return nil
 }
diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..a239017 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -23,6 +23,7 @@ import (
 const (
 	ratchetFilename     = "ratchet.xdr"
 	halfRatchetFilename = "halfratchet.xdr"
+	nickFilename        = "nick"
 	identityFilename    = "publicidentity.xdr"
 )
 
-- 
2.43.0


From 0a7c88094835fff1c2c96ef977fe20b103582e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 52/86] fix: zkclient: the nick of the other side could place
 the log anywhere

---
 zkclient/zkclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 3812d83..4d1cd2e 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -249,9 +249,12 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 			logsDir, "groupchat."+z.conversation[id].nick+"."+
 				server+".log")
 	default:
+		// the other side made up the nick, it must not select a directory
+		nick := strings.Replace(z.conversation[id].nick,
+			string(os.PathSeparator), "_", -1)
 		filename = path.Join(z.settings.Root,
 			logsDir,
-			z.conversation[id].nick+"."+server+"."+
+			nick+"."+server+"."+
 				z.conversation[id].id.String()+".log")
 	}
 	f, err := os.OpenFile(filename,
-- 
2.43.0


From 8db1a2c42a77b937b4077ea5f8262c3d912f4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 53/86] fix: zkclient: a message was lost after quitting right
 after sending

The ratchet was saved after the message went out.  When the client quit in
between it encrypted the next message with the same key and remote could not
decrypt it.
---
 zkclient/msg.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..1787ef5 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -456,6 +456,12 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return nil
 	}
 
+	// keep the ratchet as it is, in case we can't send
+	previous, err := z.loadRatchet(id, false)
+	if err != nil {
+		return fmt.Errorf("could not load ratchet: %v", err)
+	}
+
 	// compose RPC
 	m, err := z.crpc(r, payload)
 	if err != nil {
@@ -468,6 +474,21 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
+	// Save ratchet before we send.  If we were to quit after the message
+	// went out the next one would be encrypted with the same key and
+	// remote can't decrypt that.
+	err = z.updateRatchet(r, false)
+	if err != nil {
+		// return tag
+		err2 := z.tagStack.Push(tag)
+		if err2 != nil {
+			return fmt.Errorf("could not push tag, internal "+
+				"state corrupt, please quit: %v %v", err, err2)
+		}
+		return fmt.Errorf("critical error: could not update ratchet: %v",
+			err)
+	}
+
 	z.Lock()
 	z.tagCallback[tag] = &cb{
 		callback: f,
@@ -505,14 +526,14 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 				"state corrupt, please quit: %v %v", err, err2)
 		}
 
-		return err
-	}
+		// the ratchet only moves if we sent
+		err2 = z.updateRatchet(previous, false)
+		if err2 != nil {
+			return fmt.Errorf("critical error: could not restore "+
+				"ratchet: %v %v", err, err2)
+		}
 
-	// save ratchet only if we sent
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		return fmt.Errorf("critical error: could not update ratchet: %v",
-			err)
+		return err
 	}
 
 	return nil
-- 
2.43.0


From d9d6365488b90ee88d13c01883c18ba4d6ee0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 54/86] fix: zkclient: someone with the nick of the user could
 not be reached

Their nick in the address book was the same as ours and commands refused it as
"self".
---
 zkclient/addressbook.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index de34393..9550cf2 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -63,6 +63,11 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("can't add self to address book")
 	}
 
+	// our nick is never that of someone else
+	theirs := id.Nick
+	if id.Nick == z.id.Public.Nick {
+		id.Nick += "_"
+	}
 	nick, err := z.ab.Add(id)
 
 	// remember nick, it has to name the same identity after a restart
@@ -73,11 +78,14 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("could not save nick %v: %v", nick, err2)
 	}
 
-	if errors.Is(err, addressbook.ErrDuplicateNick) {
+	if err != nil && !errors.Is(err, addressbook.ErrDuplicateNick) {
+		return err
+	}
+	if nick != theirs {
 		return fmt.Errorf("warning duplicate nick added: "+
-			"%v -> %v", id.Nick, nick)
+			"%v -> %v", theirs, nick)
 	}
-	return err
+	return nil
 }
 
 // addressBookConversation returns an existing conversation from nick.
-- 
2.43.0


From b9bfec4792efb0b16b0f0d0b30d1d10087ebeee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 55/86] fix: zkclient: a group list of someone who may not
 change the group was shown

Everyone could make the client tell that members joined or left a group and
switch to its window although the list itself was ignored.
---
 zkclient/push.go     | 22 ++++++++++++++++++++--
 zkclient/zkclient.go | 23 ++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 1857a07..de218a2 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1187,6 +1187,15 @@ func (z *ZKC) warnGroupListMissingKeys(print bool, gl rpc.GroupList) error {
 func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	gl rpc.GroupList) error {
 
+	// do not show what is going to be ignored
+	err := z.checkGroupList(p.From, gl)
+	if err != nil {
+		z.PrintfT(0, "could not update group chat list: %v %v",
+			z.settings.GcColor+gl.Name+RESET,
+			err)
+		return nil
+	}
+
 	z.PrintfT(0, "Received new group chat list (%v): %v",
 		gl.Generation,
 		z.settings.GcColor+gl.Name+RESET)
@@ -1194,7 +1203,7 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	z.diffGroupListPrint(gl)
 
 	// warn about missing keys
-	err := z.warnGroupListMissingKeys(true, gl)
+	err = z.warnGroupListMissingKeys(true, gl)
 	if err != nil {
 		z.PrintfT(0, "could not warn about missing keys: %v", err)
 	}
@@ -1213,6 +1222,15 @@ func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	gu rpc.GroupUpdate) error {
 
+	// do not show what is going to be ignored
+	err := z.checkGroupList(p.From, gu.NewGroupList)
+	if err != nil {
+		z.PrintfT(0, "could not update group chat list: %v %v",
+			z.settings.GcColor+gu.NewGroupList.Name+RESET,
+			err)
+		return nil
+	}
+
 	z.PrintfT(0, "Received group chat update (%v): %v",
 		gu.NewGroupList.Generation,
 		z.settings.GcColor+gu.NewGroupList.Name+RESET)
@@ -1220,7 +1238,7 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	z.diffGroupListPrint(gu.NewGroupList)
 
 	// warn about missing keys
-	err := z.warnGroupListMissingKeys(true, gu.NewGroupList)
+	err = z.warnGroupListMissingKeys(true, gu.NewGroupList)
 	if err != nil {
 		z.PrintfT(0, "could not warn about missing keys: %v", err)
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4d1cd2e..5148d92 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1955,7 +1955,8 @@ func (z *ZKC) updateGroupList(id [zkidentity.IdentitySize]byte,
 	return z._updateGroupList(id, gl)
 }
 
-func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
+// _checkGroupList verifies that a group list came from the administrator.
+func (z *ZKC) _checkGroupList(id [zkidentity.IdentitySize]byte,
 	gl rpc.GroupList) error {
 
 	group, found := z.groups[gl.Name]
@@ -1976,6 +1977,26 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 			gl.Name)
 	}
 
+	return nil
+}
+
+func (z *ZKC) checkGroupList(id [zkidentity.IdentitySize]byte,
+	gl rpc.GroupList) error {
+	z.RLock()
+	defer z.RUnlock()
+
+	return z._checkGroupList(id, gl)
+}
+
+func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
+	gl rpc.GroupList) error {
+
+	err := z._checkGroupList(id, gl)
+	if err != nil {
+		return err
+	}
+	group := z.groups[gl.Name]
+
 	// Warn if generation is no moving forward
 	if gl.Generation <= group.Generation {
 		z.Warn(idRPC, "received illegal grouplist generation: %v %v %v",
-- 
2.43.0


From 1d102a80712994361454a29e6cdf727c98cdf5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 56/86] fix: zkclient: invitations were lost if they arrived
 during a join

The database of joins was read and written without a lock when an invitation
came in.
---
 zkclient/push.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index de218a2..90b8d7c 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -745,8 +745,10 @@ func (z *ZKC) handleGroupInvite(msg rpc.Message, p rpc.Push,
 		return nil
 	}
 
-	// add invite to join database
+	// add invite to join database, someone may be using it to join
+	z.Lock()
 	err = z.joinDBAdd(p.From, gi)
+	z.Unlock()
 	if err != nil {
 		z.PrintfT(0, "could not join %v: %v",
 			gi.Name, err)
-- 
2.43.0


From a6ff08c05680c2ad547a40eb02b2a441a1f6705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 57/86] fix: zkclient: key exchange secrets were logged

---
 zkclient/push.go     | 2 --
 zkclient/zkclient.go | 3 ---
 2 files changed, 5 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 90b8d7c..1a2dcf1 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -303,8 +303,6 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("server sent a short payload")
 	}
 
-	z.Log(0, "[step2IDKX]: payload = %v", p.Payload)
-
 	c := new([sntrup4591761.CiphertextSize]byte)
 	copy(c[:], p.Payload)
 	k, ok := sntrup4591761.Decapsulate(c, &z.id.PrivateKey)
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 5148d92..1849a5b 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1140,9 +1140,6 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	packed := blobshare.PackNonce(nonce, encrypted)
 	payload := append(nc[:], packed...)
 
-	z.Dbg(0, "[InitiateKX]: nk = %v", nk)
-	z.Dbg(0, "[InitiateKX]: nc = %v", nc)
-
 	err = z.cache(id.Identity, payload)
 	if err != nil {
 		return fmt.Errorf("could not send IdentityKX: %v", err)
-- 
2.43.0


From 0730a2561e1b9b0303e608379da6092a6db1061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 58/86] fix: zkclient: a key exchange could name the identity
 of someone else

The identity in a key exchange was neither verified nor compared with that of
its sender. Anyone could thus register as someone else.
---
 zkclient/kxacceptwindow.go |  5 +++++
 zkclient/push.go           | 27 +++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index ca1ca92..f6de8a4 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -140,6 +140,11 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		if !identity.Verify() {
+			ka.Status(w, true, "Invalid public identity")
+			return
+		}
+
 		// make sure we don't add ourselves
 		if bytes.Equal(ka.zkc.id.Public.Identity[:], identity.Identity[:]) {
 			ka.Status(w, true, "can't add self to address book")
diff --git a/zkclient/push.go b/zkclient/push.go
index 1a2dcf1..37ce1a2 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -164,6 +164,23 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 	return fmt.Errorf("kx step 3 not complete with: %v", nick)
 }
 
+// verifyKXIdentity returns an error unless id is the valid identity of the
+// sender of a key exchange.
+func (z *ZKC) verifyKXIdentity(id *zkidentity.PublicIdentity,
+	from [zkidentity.IdentitySize]byte) error {
+	if bytes.Equal(id.Identity[:], z.id.Public.Identity[:]) {
+		return fmt.Errorf("can't kx with self")
+	}
+	if !bytes.Equal(id.Identity[:], from[:]) {
+		return fmt.Errorf("kx of %x names another identity: %x",
+			from, id.Identity)
+	}
+	if !id.Verify() {
+		return fmt.Errorf("kx with an invalid identity: %x", from)
+	}
+	return nil
+}
+
 func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 	if p.Payload == nil {
 		return fmt.Errorf("server sent a message without a payload")
@@ -209,8 +226,9 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
 
-		if bytes.Equal(idkx.Identity.Identity[:], z.id.Public.Identity[:]) {
-			return fmt.Errorf("can't kx with self")
+		err = z.verifyKXIdentity(&idkx.Identity, p.From)
+		if err != nil {
+			return err
 		}
 
 		// create a new ratchet from idkx
@@ -327,8 +345,9 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
 
-	if bytes.Equal(idkx.Identity.Identity[:], z.id.Public.Identity[:]) {
-		return fmt.Errorf("can't kx with self")
+	err = z.verifyKXIdentity(&idkx.Identity, p.From)
+	if err != nil {
+		return err
 	}
 
 	// create a new ratchet from idkx
-- 
2.43.0


From 00d2d8549bb890b41b54ddb6e92bce878b3bd0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 59/86] fix: zkclient: any identity the server returned was
 exchanged keys with

---
 zkclient/zkclient.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 1849a5b..52bd327 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1538,12 +1538,12 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
+			z.pendingIdentitiesMutex.Lock()
+			_, pending := z.pendingIdentities[r.Nick]
+			delete(z.pendingIdentities, r.Nick)
+			z.pendingIdentitiesMutex.Unlock()
 			if r.Nick == "" {
 				z.PrintfT(0, "Server did not return nick")
-			} else {
-				z.pendingIdentitiesMutex.Lock()
-				delete(z.pendingIdentities, r.Nick)
-				z.pendingIdentitiesMutex.Unlock()
 			}
 
 			err = z.tagStack.Push(message.Tag)
@@ -1556,6 +1556,13 @@ func (z *ZKC) handleRPC() {
 			if r.Error != "" {
 				// Server error is verbose so just print it
 				z.PrintfT(0, "%v", r.Error)
+			} else if !pending {
+				z.PrintfT(0, "Server returned an identity "+
+					"that was not looked up: %v", r.Nick)
+			} else if r.Identity.Nick != r.Nick ||
+				!r.Identity.Verify() {
+				z.PrintfT(0, "Server returned an invalid "+
+					"identity for: %v", r.Nick)
 			} else {
 				err = z.step1IDKX(r.Identity)
 				if err != nil {
-- 
2.43.0


From 083481270298e5ccc23976b5a4e29b2dc93ce450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 60/86] fix: zkclient: a key exchange could be answered before
 it was saved

What is needed to complete a key exchange was only saved after it was sent.
The exchange failed if the other side was quick to reply.
---
 zkclient/acceptclientfingerprint.go | 40 +++--------------------------
 zkclient/kxacceptwindow.go          | 28 +++++---------------
 zkclient/zkclient.go                | 29 +++++++++++++++++----
 3 files changed, 34 insertions(+), 63 deletions(-)

diff --git a/zkclient/acceptclientfingerprint.go b/zkclient/acceptclientfingerprint.go
index 13270c6..5b303c9 100644
--- a/zkclient/acceptclientfingerprint.go
+++ b/zkclient/acceptclientfingerprint.go
@@ -28,9 +28,8 @@ type acceptCFPWindow struct {
 	status        *ttk.Label
 
 	// parameters
-	pid         *zkidentity.PublicIdentity // fetched Public Identity
-	dk          *[32]byte                  // blob derived key
-	newIdentity bool                       // save identity if true
+	pid *zkidentity.PublicIdentity // fetched Public Identity
+	dk  *[32]byte                  // blob derived key
 }
 
 var (
@@ -164,44 +163,13 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
 
 		// send cache command, step 2 of idkx
-		err = aw.zkc.cache(aw.pid.Identity,
+		err = aw.zkc.sendIDKX(*aw.pid, r, aw.dk,
 			blobshare.PackNonce(nonce, encrypted))
 		if err != nil {
-			aw.Status(w, true, "could not send IdentityKX %v", err)
+			aw.Status(w, true, "%v", err)
 			return
 		}
 
-		//
-		// if we get here save off identity, half ratchet and derived key
-		//
-
-		// store public identity if this is a new identity
-		if aw.newIdentity {
-			err = aw.zkc.saveIdentity(*aw.pid)
-			if err != nil {
-				aw.Status(w, true, "Could not save identity: %v",
-					err)
-				return
-			}
-		}
-
-		// save derived key, needed in step 3 of idkx
-		err = aw.zkc.saveKey(aw.dk)
-		if err != nil {
-			aw.Status(w, true, "Could not save key: %v", err)
-			return
-		}
-
-		// save half ratchet, needed in step 3 of idkx
-		aw.zkc.ratchetMtx.Lock()
-		err = aw.zkc.updateRatchet(r, true)
-		if err != nil {
-			aw.zkc.ratchetMtx.Unlock()
-			aw.Status(w, true, "Could not half ratchet: %v", err)
-			return
-		}
-		aw.zkc.ratchetMtx.Unlock()
-
 		aw.zkc.PrintfT(0, "Accepted user %v nick %v "+
 			"fingerprint %v", aw.pid.Name, aw.pid.Nick,
 			aw.pid.Fingerprint())
diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index f6de8a4..bfa7596 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -6,9 +6,6 @@ package main
 
 import (
 	"bytes"
-	"encoding/hex"
-	"os"
-	"path"
 
 	"github.com/companyzero/ttk"
 	"github.com/companyzero/zkc/blobshare"
@@ -152,30 +149,17 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		}
 
 		// see if identity exists
-		newIdentity := true
 		if ka.zkc.identityExists(identity.Identity) {
-			// under ratchet reset conditions there are no files
-			ids := hex.EncodeToString(identity.Identity[:])
-			fullPath := path.Join(ka.zkc.settings.Root, inboundDir, ids)
-			_, err1 := os.Stat(path.Join(fullPath, ratchetFilename))
-			_, err2 := os.Stat(path.Join(fullPath, halfRatchetFilename))
-			if !(err1 == nil || err2 == nil) {
-				// make sure keys are the same
-				ka.zkc.PrintfT(-1, "pretend keys are the same")
-				newIdentity = false // skip saving identity
-			} else {
-				// complain
-				ka.Status(w, true, "identity already exists")
-				return
-			}
+			// complain
+			ka.Status(w, true, "identity already exists")
+			return
 		}
 
 		// accept fingerprint
 		acfpw := &acceptCFPWindow{
-			zkc:         ka.zkc,
-			pid:         &identity,
-			dk:          dk,
-			newIdentity: newIdentity,
+			zkc: ka.zkc,
+			pid: &identity,
+			dk:  dk,
 		}
 		ka.zkc.ttkACFPW = ttk.NewWindow(acfpw)
 		ttk.Focus(ka.zkc.ttkACFPW)
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 52bd327..a2c8180 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1140,21 +1140,29 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	packed := blobshare.PackNonce(nonce, encrypted)
 	payload := append(nc[:], packed...)
 
-	err = z.cache(id.Identity, payload)
-	if err != nil {
-		return fmt.Errorf("could not send IdentityKX: %v", err)
-	}
+	return z.sendIDKX(id, r, nk, payload)
+}
+
+// sendIDKX sends the first message of a key exchange. Everything that is
+// needed in order to complete the exchange is saved before the other side can
+// reply.
+func (z *ZKC) sendIDKX(id zkidentity.PublicIdentity, r *ratchet.Ratchet,
+	key *[32]byte, payload []byte) error {
+	_, err := z.loadIdentity(id.Identity)
+	known := err == nil
 
 	err = z.saveIdentity(id)
 	if err != nil {
 		return fmt.Errorf("could not save identity: %v", err)
 	}
 
-	err = z.saveKey(nk)
+	// save derived key, needed in step 3 of idkx
+	err = z.saveKey(key)
 	if err != nil {
 		return fmt.Errorf("could not save key: %v", err)
 	}
 
+	// save half ratchet, needed in step 3 of idkx
 	z.ratchetMtx.Lock()
 	defer z.ratchetMtx.Unlock()
 	err = z.updateRatchet(r, true)
@@ -1162,6 +1170,17 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("could not save half ratchet: %v", err)
 	}
 
+	err = z.cache(id.Identity, payload)
+	if err != nil {
+		// the exchange has not started
+		_ = z.removeRatchet(id.Identity, true)
+		if !known {
+			_ = os.RemoveAll(path.Join(z.settings.Root, inboundDir,
+				hex.EncodeToString(id.Identity[:])))
+		}
+		return fmt.Errorf("could not send IdentityKX: %v", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From dc46e678dac5943e61e284aa05f16f2619c2ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 61/86] fix: zkclient: key exchanges that both sides started
 never completed

Both sides took the exchange of the other one for an answer to theirs, which
it is not, and neither side could start over.
---
 zkclient/push.go | 57 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 37ce1a2..eb1abeb 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -31,6 +31,9 @@ import (
 // server allows for larger messages.
 const maxDecompressed = 16 * 1024 * 1024
 
+// errNoAnswer is returned if a message does not answer a key exchange.
+var errNoAnswer = errors.New("not complete with")
+
 // ratchetError is a special error type that is used to determine if a ratchet
 // was wedged.
 type ratchetError struct {
@@ -161,7 +164,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 	if err == nil {
 		nick = id.Nick
 	}
-	return fmt.Errorf("kx step 3 not complete with: %v", nick)
+	return fmt.Errorf("kx step 3 %w: %v", errNoAnswer, nick)
 }
 
 // verifyKXIdentity returns an error unless id is the valid identity of the
@@ -313,39 +316,69 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 	return fmt.Errorf("kx step 2 not complete with: %v", nick)
 }
 
-func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
+// openIDKX2 returns the first message of a key exchange and its key.
+func (z *ZKC) openIDKX2(p rpc.Push) (*rpc.IdentityKX, *[32]byte, error) {
 	if p.Payload == nil {
-		return fmt.Errorf("server sent a message without a payload")
+		return nil, nil, fmt.Errorf("server sent a message without a payload")
 	}
 	if len(p.Payload) < sntrup4591761.CiphertextSize {
-		return fmt.Errorf("server sent a short payload")
+		return nil, nil, fmt.Errorf("server sent a short payload")
 	}
 
 	c := new([sntrup4591761.CiphertextSize]byte)
 	copy(c[:], p.Payload)
 	k, ok := sntrup4591761.Decapsulate(c, &z.id.PrivateKey)
 	if ok != 1 {
-		return fmt.Errorf("could not decap key")
+		return nil, nil, fmt.Errorf("could not decap key")
 	}
 
 	nonce, encrypted, err := blobshare.UnpackNonce(p.Payload[sntrup4591761.CiphertextSize:])
 	if err != nil {
-		return fmt.Errorf("could not unpack IdentityKX")
+		return nil, nil, fmt.Errorf("could not unpack IdentityKX")
 	}
 
 	decrypted, err := blobshare.Decrypt(k, nonce, encrypted)
 	if err != nil {
-		return fmt.Errorf("could not decrypt half ratchet: %v", err)
+		return nil, nil, fmt.Errorf("could not decrypt half ratchet: %v", err)
 	}
 
 	var idkx rpc.IdentityKX
 	br := bytes.NewReader(decrypted)
 	_, err = xdr.UnmarshalLimited(br, &idkx, uint(len(decrypted)))
 	if err != nil {
-		return fmt.Errorf("could not unmarshal IdentityKX")
+		return nil, nil, fmt.Errorf("could not unmarshal IdentityKX")
 	}
 
 	err = z.verifyKXIdentity(&idkx.Identity, p.From)
+	if err != nil {
+		return nil, nil, err
+	}
+	return &idkx, k, nil
+}
+
+// crossedIDKX handles a push of someone that a key exchange was started with.
+// If they started one at the same time then the one of the lower identity is
+// completed and the other one is dropped. err is returned if it isn't a key
+// exchange.
+func (z *ZKC) crossedIDKX(msg rpc.Message, p rpc.Push, err error) error {
+	_, _, err2 := z.openIDKX2(p)
+	if err2 != nil {
+		return err
+	}
+	if bytes.Compare(z.id.Public.Identity[:], p.From[:]) < 0 {
+		z.Dbg(idZKC, "crossed kx, ours is completed: %x", p.From)
+		return nil
+	}
+
+	err = z.removeRatchet(p.From, true)
+	if err != nil {
+		return fmt.Errorf("could not remove half ratchet: %v", err)
+	}
+	return z.step2IDKX2(msg, p)
+}
+
+func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
+	idkx, k, err := z.openIDKX2(p)
 	if err != nil {
 		return err
 	}
@@ -395,7 +428,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 	}
 
 	// encrypt kx
-	encrypted, nonce, err = blobshare.Encrypt(kxXDR.Bytes(), k)
+	encrypted, nonce, err := blobshare.Encrypt(kxXDR.Bytes(), k)
 	if err != nil {
 		return fmt.Errorf("could not encrypt KX %v", err)
 	}
@@ -465,7 +498,11 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if !z.ratchetExists(p.From) {
 		// step 3 of idkx
 		z.Dbg(idZKC, "step 3 (push) idkx")
-		return z.step3IDKX(msg, p)
+		err := z.step3IDKX(msg, p)
+		if errors.Is(err, errNoAnswer) && z.directory {
+			return z.crossedIDKX(msg, p, err)
+		}
+		return err
 	}
 
 	//
-- 
2.43.0


From 9e0b93fb7a7c09786f818fd648bdc243055de638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 62/86] fix: zkclient: the key of a key exchange was saved
 after it was sent

---
 zkclient/kxwindow.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zkclient/kxwindow.go b/zkclient/kxwindow.go
index 59da69c..6cbb84f 100644
--- a/zkclient/kxwindow.go
+++ b/zkclient/kxwindow.go
@@ -128,6 +128,13 @@ func (kw *kxWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 
 		packed := blobshare.PackSaltNonce(salt, nonce, encrypted)
 
+		// save key
+		err = kw.zkc.saveKey(key)
+		if err != nil {
+			kw.Status(w, true, "Could not save key: %v", err)
+			return
+		}
+
 		// send to server
 		kw.Status(w, false, "contacting server")
 		err = kw.zkc.rendezvous(packed)
@@ -137,13 +144,6 @@ func (kw *kxWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
-		// save key
-		err = kw.zkc.saveKey(key)
-		if err != nil {
-			kw.Status(w, true, "Could not save key: %v", err)
-			return
-		}
-
 		kw.zkc.Dbg(idZKC, "step 1 (initiate) idkx")
 
 		fallthrough
-- 
2.43.0


From ef80ee3e8bde6fdadb324e80288245b55f8c158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 63/86] fix: zkclient: a refused reset broke the key exchange
 in progress

The half ratchet was removed before the reset was refused, nothing could
complete the exchange any more.
---
 zkclient/zkclient.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index a2c8180..6b2ccf5 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1887,9 +1887,6 @@ func (z *ZKC) reset(nick string) error {
 	ids := hex.EncodeToString(id.Identity[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
-	// always remove half ratchet
-	os.Remove(path.Join(fullPath, halfRatchetFilename))
-
 	// assert any ratchet file exists for sanity
 	ratchet := path.Join(fullPath, ratchetFilename)
 	_, err = os.Stat(ratchet)
@@ -1897,6 +1894,9 @@ func (z *ZKC) reset(nick string) error {
 		return fmt.Errorf("ratchet file does not exists for %v", nick)
 	}
 
+	// always remove half ratchet
+	os.Remove(path.Join(fullPath, halfRatchetFilename))
+
 	z.FloodfT(nick, REDBOLD+"Ratchet reset initiated with: %v %v"+RESET,
 		nick, ids)
 
-- 
2.43.0


From 392ba467e8c2f539c802ab566564b6f6d1b442df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 64/86] fix: zkclient: a reset without directory ended the
 conversation

The key exchange that follows a reset was only understood if the server has a
directory.
---
 zkclient/push.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index eb1abeb..fcbd7ef 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -377,6 +377,17 @@ func (z *ZKC) crossedIDKX(msg rpc.Message, p rpc.Push, err error) error {
 	return z.step2IDKX2(msg, p)
 }
 
+// resetIDKX returns true if p is the key exchange that follows the reset of a
+// ratchet. It is the same in all modes of the server.
+func (z *ZKC) resetIDKX(p rpc.Push) bool {
+	_, err := z.loadIdentity(p.From)
+	if err != nil {
+		return false
+	}
+	_, _, err = z.openIDKX2(p)
+	return err == nil
+}
+
 func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 	idkx, k, err := z.openIDKX2(p)
 	if err != nil {
@@ -487,7 +498,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if !z.identityExists(p.From) {
 		// step 2 of idkx
 		z.Dbg(idZKC, "step 2 (push) idkx")
-		if z.directory {
+		if z.directory || z.resetIDKX(p) {
 			return z.step2IDKX2(msg, p)
 		} else {
 			return z.step2IDKX(msg, p)
@@ -499,7 +510,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 		// step 3 of idkx
 		z.Dbg(idZKC, "step 3 (push) idkx")
 		err := z.step3IDKX(msg, p)
-		if errors.Is(err, errNoAnswer) && z.directory {
+		if errors.Is(err, errNoAnswer) {
 			return z.crossedIDKX(msg, p, err)
 		}
 		return err
-- 
2.43.0


From 56c03c262dee0bcfed66ef7f88338e7b2955e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 65/86] fix: zkclient: sending a message could undo a reset

A message that was being sent during a reset wrote the old ratchet back. The
key exchange that followed then failed.
---
 zkclient/reset.go    | 5 +++++
 zkclient/zkclient.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/zkclient/reset.go b/zkclient/reset.go
index ad010be..2cc899a 100644
--- a/zkclient/reset.go
+++ b/zkclient/reset.go
@@ -58,12 +58,17 @@ func (z *ZKC) handleResetRatchet(from [32]byte) error {
 	ids := hex.EncodeToString(from[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
+	// a message that is being sent must not bring the ratchet back
+	z.ratchetMtx.Lock()
+
 	// always remove half ratchet
 	os.Remove(path.Join(fullPath, halfRatchetFilename))
 
 	// delete ratchet from disk
 	os.Remove(path.Join(fullPath, ratchetFilename))
 
+	z.ratchetMtx.Unlock()
+
 	z.FloodfT(pid.Nick, REDBOLD+"Requesting key exchange with: %v %v"+RESET,
 		pid.Nick, ids)
 
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 6b2ccf5..24dbd87 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1887,6 +1887,10 @@ func (z *ZKC) reset(nick string) error {
 	ids := hex.EncodeToString(id.Identity[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
+	// a message that is being sent must not bring the ratchet back
+	z.ratchetMtx.Lock()
+	defer z.ratchetMtx.Unlock()
+
 	// assert any ratchet file exists for sanity
 	ratchet := path.Join(fullPath, ratchetFilename)
 	_, err = os.Stat(ratchet)
-- 
2.43.0


From 5601ed8d171f79d0caef83d42e09b053f6af8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 66/86] fix: zkclient: received files could be saved outside of
 the spool

The name of a received file is chosen by the sender and was joined to
the spool directory as is, a name such as "../../x" was written wherever
the sender liked.  A name that is equal to the landing zone of someone
else kept that person from sending files.
---
 zkclient/chunk.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..c92e0bb 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -10,8 +10,10 @@ import (
 	"fmt"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/zkidentity"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/marcopeereboom/goutil"
 )
@@ -156,8 +158,14 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 				pid.Nick, cn.Filename)
 		}
 
+		// the name is whatever the sender says, only use the last
+		// element of it and stay clear of the landing zones
 		var fullpath, filename string
-		filename = cn.Filename
+		filename = filepath.Base(cn.Filename)
+		id, err := hex.DecodeString(filename)
+		if err == nil && len(id) == zkidentity.IdentitySize {
+			filename = "1" + filename
+		}
 		for {
 			fullpath = path.Join(z.settings.Root, spoolDir,
 				filename)
-- 
2.43.0


From 501804669b12970c5421ec6986fec551133f9000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 67/86] fix: zkclient: files sent at the same time were mixed
 up

There was one descriptor for all files someone sent, the second of two
files that were sent at the same time replaced the descriptor of the
first one; neither was completed.  Sending a file again while it was
still under way threw away what had been received.
---
 zkclient/chunk.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index c92e0bb..329077e 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -18,7 +18,7 @@ import (
 	"github.com/marcopeereboom/goutil"
 )
 
-const descriptor = "descriptor.xdr"
+const descriptor = ".xdr"
 
 func (z *ZKC) handleChunkNew(msg rpc.Message, p rpc.Push,
 	cn rpc.ChunkNew) error {
@@ -38,7 +38,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + descriptor
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
@@ -54,8 +54,8 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 		return err
 	}
 
-	// create empty spool
-	fs, err := os.Create(spool)
+	// create spool, the same file may be in flight already
+	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -91,29 +91,30 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + descriptor
 
 	// open spool
-	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
+	fs, err := os.OpenFile(spool, os.O_WRONLY, 0600)
 	if err != nil {
 		return err
 	}
 
-	// validate offset
+	// validate offset, the chunk may have been seen before
 	fi, err := fs.Stat()
 	if err != nil {
 		fs.Close()
 		return err
 	}
-	if fi.Size() != int64(c.Offset) {
+	if c.Offset > uint64(fi.Size()) {
 		fs.Close()
 		return fmt.Errorf("unexpected offset got %v wanted %v",
-			fi.Size(), c.Offset)
+			c.Offset, fi.Size())
 	}
 
 	// write payload
-	_, err = fs.Write(c.Payload)
+	_, err = fs.WriteAt(c.Payload, int64(c.Offset))
 	if err != nil {
+		fs.Close()
 		return err
 	}
 
@@ -140,7 +141,8 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	}
 
 	// check sizes
-	if fi.Size() == int64(cn.Size) {
+	if fi.Size() == int64(cn.Size) &&
+		c.Offset+uint64(len(c.Payload)) == cn.Size {
 		// nick
 		pid, err := z.ab.FindIdentity(p.From)
 		if err != nil {
-- 
2.43.0


From 8f4e8caa3fa9ca911864f681593ab7706e54ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 68/86] fix: zkclient: received files could grow past their
 size

Chunks were appended for as long as they kept coming, nothing compared
them to the size that was announced.  What did not match its digest was
left behind.
---
 zkclient/chunk.go | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 329077e..b035e06 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -74,6 +74,25 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	return nil
 }
 
+// readChunkNew returns the chunk information that was stored when the
+// transfer was initiated.
+func readChunkNew(desc string) (*rpc.ChunkNew, error) {
+	f, err := os.Open(desc)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+
+	d := xdr.NewDecoder(f)
+	var cn rpc.ChunkNew
+	_, err = d.Decode(&cn)
+	if err != nil {
+		return nil, err
+	}
+
+	return &cn, nil
+}
+
 func (z *ZKC) handleChunk(msg rpc.Message, p rpc.Push,
 	c rpc.Chunk) error {
 
@@ -111,6 +130,17 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 			c.Offset, fi.Size())
 	}
 
+	// never store more than was announced
+	cn, err := readChunkNew(desc)
+	if err != nil {
+		fs.Close()
+		return err
+	}
+	if c.Offset+uint64(len(c.Payload)) > cn.Size {
+		fs.Close()
+		return fmt.Errorf("chunk exceeds file size: %v", cn.Filename)
+	}
+
 	// write payload
 	_, err = fs.WriteAt(c.Payload, int64(c.Offset))
 	if err != nil {
@@ -127,20 +157,6 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	fs.Close() // windows
 
 	// determine if this is the last chunk
-	f, err := os.Open(desc)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
-	d := xdr.NewDecoder(f)
-	var cn rpc.ChunkNew
-	_, err = d.Decode(&cn)
-	if err != nil {
-		return err
-	}
-
-	// check sizes
 	if fi.Size() == int64(cn.Size) &&
 		c.Offset+uint64(len(c.Payload)) == cn.Size {
 		// nick
@@ -156,6 +172,8 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 				spool, err)
 		}
 		if !bytes.Equal(fd[:], cn.Digest[:]) {
+			os.Remove(spool)
+			os.Remove(desc)
 			return fmt.Errorf("Incoming file from %v corrupt: %v",
 				pid.Nick, cn.Filename)
 		}
-- 
2.43.0


From 6b447dc182f92c75418f11d6a21048aec5a709f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 69/86] fix: zkclient: empty files could not be sent

The MIME type of an empty file could not be determined and the receiver
waited for a chunk that never came.
---
 zkclient/chunk.go | 108 ++++++++++++++++++++++++++--------------------
 zkclient/send.go  |   9 ++--
 2 files changed, 66 insertions(+), 51 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index b035e06..e49f03b 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -71,6 +71,11 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 		"size: %v description: %v",
 		pid.Nick, cn.Filename, cn.Size, cn.Description)
 
+	// no chunks follow when there is nothing to send
+	if cn.Size == 0 {
+		return z.completeChunks(p, &cn, spool, desc)
+	}
+
 	return nil
 }
 
@@ -159,62 +164,71 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	// determine if this is the last chunk
 	if fi.Size() == int64(cn.Size) &&
 		c.Offset+uint64(len(c.Payload)) == cn.Size {
-		// nick
-		pid, err := z.ab.FindIdentity(p.From)
-		if err != nil {
-			return err
-		}
+		return z.completeChunks(p, cn, spool, desc)
+	}
 
-		// assembly complete, check digest and move into place
-		fd, err := goutil.FileSHA256(spool)
-		if err != nil {
-			return fmt.Errorf("could not digest %v: %v",
-				spool, err)
-		}
-		if !bytes.Equal(fd[:], cn.Digest[:]) {
-			os.Remove(spool)
-			os.Remove(desc)
-			return fmt.Errorf("Incoming file from %v corrupt: %v",
-				pid.Nick, cn.Filename)
-		}
+	return nil
+}
 
-		// the name is whatever the sender says, only use the last
-		// element of it and stay clear of the landing zones
-		var fullpath, filename string
-		filename = filepath.Base(cn.Filename)
-		id, err := hex.DecodeString(filename)
-		if err == nil && len(id) == zkidentity.IdentitySize {
-			filename = "1" + filename
-		}
-		for {
-			fullpath = path.Join(z.settings.Root, spoolDir,
-				filename)
-			_, err = os.Stat(fullpath)
-			if err != nil {
-				break
-			}
-			filename = "1" + filename
-		}
+// completeChunks moves a file that was received in full into place.
+func (z *ZKC) completeChunks(p rpc.Push, cn *rpc.ChunkNew, spool,
+	desc string) error {
+
+	// nick
+	pid, err := z.ab.FindIdentity(p.From)
+	if err != nil {
+		return err
+	}
 
-		err = os.Rename(spool, fullpath)
+	// assembly complete, check digest and move into place
+	fd, err := goutil.FileSHA256(spool)
+	if err != nil {
+		return fmt.Errorf("could not digest %v: %v",
+			spool, err)
+	}
+	if !bytes.Equal(fd[:], cn.Digest[:]) {
+		os.Remove(spool)
+		os.Remove(desc)
+		return fmt.Errorf("Incoming file from %v corrupt: %v",
+			pid.Nick, cn.Filename)
+	}
+
+	// the name is whatever the sender says, only use the last
+	// element of it and stay clear of the landing zones
+	var fullpath, filename string
+	filename = filepath.Base(cn.Filename)
+	id, err := hex.DecodeString(filename)
+	if err == nil && len(id) == zkidentity.IdentitySize {
+		filename = "1" + filename
+	}
+	for {
+		fullpath = path.Join(z.settings.Root, spoolDir,
+			filename)
+		_, err = os.Stat(fullpath)
 		if err != nil {
-			return err
+			break
 		}
+		filename = "1" + filename
+	}
 
-		z.FloodfT(pid.Nick, "File transfer complete from: %v type: %v "+
-			"saved to: %v",
-			pid.Nick,
-			cn.MIME,
-			fullpath)
+	err = os.Rename(spool, fullpath)
+	if err != nil {
+		return err
+	}
 
-		// annoy people
-		if z.settings.Beep {
-			fmt.Printf("\a")
-		}
+	z.FloodfT(pid.Nick, "File transfer complete from: %v type: %v "+
+		"saved to: %v",
+		pid.Nick,
+		cn.MIME,
+		fullpath)
 
-		// cleanup
-		os.Remove(desc)
+	// annoy people
+	if z.settings.Beep {
+		fmt.Printf("\a")
 	}
 
+	// cleanup
+	os.Remove(desc)
+
 	return nil
 }
diff --git a/zkclient/send.go b/zkclient/send.go
index 2209a62..dd5eb24 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -28,8 +28,8 @@ func FileMIME(f *os.File) (string, error) {
 
 	// determine mime
 	b := make([]byte, 512) // all that's needed for mime per doco
-	_, err = f.Read(b)
-	if err != nil {
+	n, err := f.Read(b)
+	if err != nil && !errors.Is(err, io.EOF) {
 		return "", err
 	}
 
@@ -39,7 +39,7 @@ func FileMIME(f *os.File) (string, error) {
 		return "", err
 	}
 
-	return http.DetectContentType(b), nil
+	return http.DetectContentType(b[:n]), nil
 }
 
 func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
@@ -64,6 +64,7 @@ func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
 		return fmt.Errorf("could not stat %v: %v", filename, err)
 	}
 	if uint64(fi.Size()) > z.attachmentSize {
+		f.Close()
 		return fmt.Errorf("file too large %v: %v, max allowed %v",
 			filename, fi.Size(), z.attachmentSize)
 	}
@@ -130,7 +131,7 @@ func (z *ZKC) completeSend(nick string, f *os.File,
 	if chunkSize > cn.Size {
 		chunkSize = cn.Size
 	}
-	for offset := 0; ; {
+	for offset := 0; chunkSize != 0; {
 		chunk := make([]byte, chunkSize)
 		count, err := f.Read(chunk)
 		if err != nil {
-- 
2.43.0


From b5dbd0feb1a659fed02ff093dce7e85297db75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 70/86] fix: zkimport: identities of clients could not be
 imported

The account was required to exist before it was created, and could not
be overwritten because its own nick was considered to be taken.
---
 tools/zkimport/zkimport.go  | 8 --------
 zkserver/account/account.go | 4 ++--
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index b85dffc..08c35b5 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -7,7 +7,6 @@ package main
 import (
 	"bufio"
 	"encoding/base64"
-	"encoding/hex"
 	"errors"
 	"flag"
 	"fmt"
@@ -99,13 +98,6 @@ func importClientRecord(root string, force bool, cr tools.ClientRecord) error {
 		return fmt.Errorf("invalid zkserver directory")
 	}
 
-	// see if user already exists
-	i := hex.EncodeToString(cr.PublicIdentity.Identity[:])
-	user := path.Join(dir, tools.ZKSHome, i)
-	_, err = os.Stat(user)
-	if err != nil {
-		return err
-	}
 	a, err := account.New(home)
 	if err != nil {
 		return err
diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index d14b1d2..607e53a 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -134,8 +134,8 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	a.createMtx.Lock()
 	defer a.createMtx.Unlock()
 
-	_, err := a.Find(pid.Nick)
-	if err == nil {
+	other, err := a.Find(pid.Nick)
+	if err == nil && !(force && other.Identity == pid.Identity) {
 		return fmt.Errorf("nickname already in use")
 	}
 	if a.Disabled(pid.Identity) {
-- 
2.43.0


From 12237c7fce7e3fbc61b9690d8c0e7793a361b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 71/86] fix: zkimport: altered identities were imported

The signature of an identity was not verified.
---
 tools/zkimport/zkimport.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index 08c35b5..33683e2 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -254,6 +254,11 @@ func _main() error {
 
 		switch r := record.(type) {
 		case tools.ClientRecord:
+			if !r.PublicIdentity.Verify() {
+				fmt.Fprintf(os.Stderr, "Import failed %v: "+
+					"invalid identity\n", v)
+				os.Exit(1)
+			}
 			if *verbose {
 				spew.Config.ContinueOnMethod = true
 				spew.Dump(r)
@@ -265,6 +270,11 @@ func _main() error {
 				os.Exit(1)
 			}
 		case tools.ServerRecord:
+			if !r.PublicIdentity.Verify() {
+				fmt.Fprintf(os.Stderr, "Import failed %v: "+
+					"invalid identity\n", v)
+				os.Exit(1)
+			}
 			if *verbose {
 				spew.Config.ContinueOnMethod = true
 				spew.Dump(r)
-- 
2.43.0


From f818feefbb8e08ebd15d7acb0625f99995794d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 72/86] fix: zkserverdump: one unreadable account ended the
 list

Such as one that is being created.
---
 tools/zkserverdump/zkserverdump.go | 45 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/tools/zkserverdump/zkserverdump.go b/tools/zkserverdump/zkserverdump.go
index 8e9b74c..4ef4ab8 100644
--- a/tools/zkserverdump/zkserverdump.go
+++ b/tools/zkserverdump/zkserverdump.go
@@ -53,6 +53,30 @@ func ObtainSettings() (*settings.Settings, error) {
 	return s, nil
 }
 
+// readIdentity returns the identity of the account that is in dir.
+func readIdentity(dir string) (*zkidentity.PublicIdentity, error) {
+	user, err := inidb.New(filepath.Join(dir, account.UserIdentityFilename),
+		false, 1)
+	if err != nil {
+		return nil, err
+	}
+	b64, err := user.Get("", "identity")
+	if err != nil {
+		return nil, fmt.Errorf("could not get user: %v", err)
+	}
+	blob, err := base64.StdEncoding.DecodeString(b64)
+	if err != nil {
+		return nil, fmt.Errorf("could not decode user: %v", err)
+	}
+	id := new(zkidentity.PublicIdentity)
+	br := bytes.NewReader(blob)
+	_, err = xdr.Unmarshal(br, &id)
+	if err != nil {
+		return nil, fmt.Errorf("could not unmarshal user: %v", err)
+	}
+	return id, nil
+}
+
 func _main() error {
 	// flags and settings
 	var err error
@@ -69,24 +93,11 @@ func _main() error {
 	}
 
 	for _, v := range fi {
-		user, err := inidb.New(filepath.Join(settings.Users, v.Name(),
-			account.UserIdentityFilename), false, 1)
-		if err != nil {
-			return err
-		}
-		b64, err := user.Get("", "identity")
-		if err != nil {
-			return fmt.Errorf("could not get user: %v", err)
-		}
-		blob, err := base64.StdEncoding.DecodeString(b64)
-		if err != nil {
-			return fmt.Errorf("could not decode user: %v", err)
-		}
-		id := new(zkidentity.PublicIdentity)
-		br := bytes.NewReader(blob)
-		_, err = xdr.Unmarshal(br, &id)
+		id, err := readIdentity(filepath.Join(settings.Users, v.Name()))
 		if err != nil {
-			return fmt.Errorf("could not unmarshal user: %v", err)
+			// show the others regardless
+			fmt.Fprintf(os.Stderr, "skipping %v: %v\n", v.Name(), err)
+			continue
 		}
 		fmt.Printf("%v %v\n", v.Name(), id.Nick)
 	}
-- 
2.43.0


From 4403c13a0ec74fa6708521952bf226b84fc21976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 73/86] fix: zkservertoken: tokens of many hours were expired
 when issued

The duration overflowed.
---
 tools/zkservertoken/zkservertoken.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/zkservertoken/zkservertoken.go b/tools/zkservertoken/zkservertoken.go
index 21cb0ac..dd4f09c 100644
--- a/tools/zkservertoken/zkservertoken.go
+++ b/tools/zkservertoken/zkservertoken.go
@@ -24,6 +24,8 @@ import (
 const (
 	pendingDir  = "pending"
 	pendingFile = "pending.ini"
+
+	maxHours = 100 * 365 * 24 // does not overflow a duration
 )
 
 var (
@@ -43,6 +45,10 @@ func _main() error {
 	hours := flag.Uint("hours", 24, "hours before expiration")
 	flag.Parse()
 
+	if *hours > maxHours {
+		return fmt.Errorf("hours may not exceed %v", maxHours)
+	}
+
 	// parse file
 	cfg, err := ini.LoadFile(*filename)
 	if err != nil && *filename != flag.Lookup("cfg").DefValue {
-- 
2.43.0


From c7ae99fda394c81706c0d355aa814e32004bd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 74/86] fix: zkserverdump: accounts that were never completed
 were listed

---
 tools/zkserverdump/zkserverdump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/zkserverdump/zkserverdump.go b/tools/zkserverdump/zkserverdump.go
index 4ef4ab8..211f068 100644
--- a/tools/zkserverdump/zkserverdump.go
+++ b/tools/zkserverdump/zkserverdump.go
@@ -11,9 +11,11 @@ import (
 	"path"
 	"path/filepath"
 	"runtime"
+	"strings"
 
 	"github.com/companyzero/zkc/inidb"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/tools"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/companyzero/zkc/zkserver/account"
 	"github.com/companyzero/zkc/zkserver/settings"
@@ -93,6 +95,10 @@ func _main() error {
 	}
 
 	for _, v := range fi {
+		_, err := tools.ValidateIdentity(strings.TrimPrefix(v.Name(), "."))
+		if err != nil {
+			continue // neither account nor disabled account
+		}
 		id, err := readIdentity(filepath.Join(settings.Users, v.Name()))
 		if err != nil {
 			// show the others regardless
-- 
2.43.0


From 3f19f14ac7161eceafec56a1d17422e8755dd0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 75/86] fix: zkserverdump: a nick could forge lines of the list

Users choose their nicks, control characters reached the terminal.
---
 tools/zkserverdump/zkserverdump.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/zkserverdump/zkserverdump.go b/tools/zkserverdump/zkserverdump.go
index 211f068..21bec05 100644
--- a/tools/zkserverdump/zkserverdump.go
+++ b/tools/zkserverdump/zkserverdump.go
@@ -12,6 +12,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
+	"unicode"
 
 	"github.com/companyzero/zkc/inidb"
 	"github.com/companyzero/zkc/rpc"
@@ -79,6 +80,14 @@ func readIdentity(dir string) (*zkidentity.PublicIdentity, error) {
 	return id, nil
 }
 
+// printable replaces what a terminal could take for a command.
+func printable(r rune) rune {
+	if unicode.IsControl(r) {
+		return '?'
+	}
+	return r
+}
+
 func _main() error {
 	// flags and settings
 	var err error
@@ -105,7 +114,7 @@ func _main() error {
 			fmt.Fprintf(os.Stderr, "skipping %v: %v\n", v.Name(), err)
 			continue
 		}
-		fmt.Printf("%v %v\n", v.Name(), id.Nick)
+		fmt.Printf("%v %v\n", v.Name(), strings.Map(printable, id.Nick))
 	}
 
 	return nil
-- 
2.43.0


From 2793ed247e099241c68bcc47afbf197391bf48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 76/86] fix: zkclient: acknowledgements and requests used the
 tags of an ended session

A PRPC that could not be sent because the connection ended was sent in the
next session, with a tag of the previous one.  An acknowledgement then
deleted a message that was not read yet, or the server ended the session
because the tag was not in use.
---
 zkclient/msg.go      | 45 ++++++++++++++++++++++++++++++++++++++++++--
 zkclient/zkclient.go |  6 +++++-
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 1787ef5..2056fbf 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/companyzero/zkc/ratchet"
@@ -35,7 +36,8 @@ type wireMsg struct {
 	// id != nil payload -> CRPC
 	id *[zkidentity.IdentitySize]byte
 
-	msg rpc.Message // PRPC
+	msg     rpc.Message // PRPC
+	session uint32      // session the tag of the PRPC is of
 
 	payload interface{} // always set
 
@@ -163,6 +165,13 @@ func (z *ZKC) scheduler() {
 								err)
 							break
 						}
+					} else if m.session != atomic.LoadUint32(&z.session) &&
+						(m.msg.Command == rpc.TaggedCmdAcknowledge ||
+							m.msg.Command == rpc.TaggedCmdPing) {
+						// means nothing once the session
+						// it was for ended
+						z.Dbg(idZKC, "drop %v of ended session",
+							m.msg.Command)
 					} else {
 						if z.settings.Debug &&
 							m.msg.Command != rpc.TaggedCmdPing {
@@ -170,7 +179,7 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.msg),
 								spew.Sdump(m.payload))
 						}
-						err = z.writeMessage(&m.msg, m.payload)
+						err = z.writePRPC(&m)
 						if err != nil {
 							z.PrintfT(-1, REDBOLD+
 								"PRPC (rescheduled): %v"+
@@ -238,6 +247,7 @@ func (z *ZKC) scheduleCRPC(hi bool, id *[zkidentity.IdentitySize]byte, payload i
 func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
 	m := wireMsg{
 		msg:     msg,
+		session: atomic.LoadUint32(&z.session),
 		payload: payload,
 	}
 	if hi {
@@ -250,6 +260,37 @@ func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
 	//z.Dbg(idSnd, "sending PRPC done")
 }
 
+// writePRPC sends a PRPC.  If the session it was scheduled in ended it obtains
+// a tag of the current one.
+func (z *ZKC) writePRPC(m *wireMsg) error {
+	msg := m.msg
+	session := atomic.LoadUint32(&z.session)
+	if m.session == session {
+		return z.writeMessage(&msg, m.payload)
+	}
+
+	if !z.isOnline() {
+		return fmt.Errorf("not online")
+	}
+	tag, err := z.tagStack.Pop()
+	if err != nil {
+		return fmt.Errorf("could not obtain tag: %v", err)
+	}
+	msg.Tag = tag
+	err = z.writeMessage(&msg, m.payload)
+	if err != nil {
+		// return tag
+		err2 := z.tagStack.Push(tag)
+		if err2 != nil {
+			return fmt.Errorf("could not push tag, internal "+
+				"state corrupt, please quit: %v %v", err, err2)
+		}
+		return err
+	}
+
+	return nil
+}
+
 func (z *ZKC) compress(payload interface{}) ([]byte, string, error) {
 	var (
 		bb  bytes.Buffer
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 24dbd87..4f602d4 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -22,6 +22,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 	"unicode"
 	"unicode/utf8"
@@ -685,6 +686,9 @@ type ZKC struct {
 	depth  chan struct{}    // return queue depth
 	queueW chan *queueDepth // return queue depth
 
+	// session counts sessions, tags are only valid in the one they are of
+	session uint32
+
 	// online is a hint to indicate if we are in session phase
 	online  bool // currently online
 	offline bool // forced offline
@@ -978,6 +982,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// at this point we are going to use tags
+	atomic.AddUint32(&z.session, 1)
 	z.tagStack = tagstack.New(int(td))
 	z.tagCallback = make([]*cb, int(td))
 	z.kx = kx
@@ -1034,7 +1039,6 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	return welcome, nil
 }
 
-//
 func (z *ZKC) goOnlineAndPrint() error {
 	welcome, err := z.goOnline()
 	switch {
-- 
2.43.0


From 8de8d1643bf5c3b2f6bdabef94e952182de6ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 77/86] fix: zkclient: a lookup whose reply was lost could not
 be repeated

---
 zkclient/zkclient.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4f602d4..b9bca9e 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -704,7 +704,7 @@ type ZKC struct {
 
 	ratchetMtx             sync.Mutex
 	pendingIdentitiesMutex sync.Mutex
-	pendingIdentities      map[string]*time.Time
+	pendingIdentities      map[string]uint32
 }
 
 const (
@@ -1824,10 +1824,12 @@ func (z *ZKC) find(nick string) error {
 	defer z.pendingIdentitiesMutex.Unlock()
 
 	if z.pendingIdentities == nil {
-		z.pendingIdentities = make(map[string]*time.Time)
+		z.pendingIdentities = make(map[string]uint32)
 	}
 
-	if z.pendingIdentities[nick] != nil {
+	// a reply that was lost with its session does not come anymore
+	session := atomic.LoadUint32(&z.session)
+	if z.pendingIdentities[nick] == session {
 		return fmt.Errorf("lookup already in progress")
 	}
 
@@ -1845,8 +1847,7 @@ func (z *ZKC) find(nick string) error {
 			Nick: nick,
 		})
 
-	t := time.Now()
-	z.pendingIdentities[nick] = &t
+	z.pendingIdentities[nick] = session
 
 	return nil
 }
-- 
2.43.0


From 26cedd9af6215bd49042466597aa4a942973bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 78/86] fix: zkclient: groups and identities were lost when
 killed while they were saved

They were truncated before they were written again, also the identity of
someone known during a reset and all nicks at every start.
---
 zkclient/addressbook.go |  2 +-
 zkclient/groupchat.go   |  3 +--
 zkclient/identity.go    | 30 +++++++++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index 9550cf2..5150164 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -73,7 +73,7 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 	// remember nick, it has to name the same identity after a restart
 	filename := path.Join(z.settings.Root, inboundDir,
 		hex.EncodeToString(id.Identity[:]), nickFilename)
-	err2 := ioutil.WriteFile(filename, []byte(nick), 0600)
+	err2 := z.writeFile(filename, []byte(nick))
 	if err2 != nil {
 		return fmt.Errorf("could not save nick %v: %v", nick, err2)
 	}
diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ce57a73..dd94e67 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -9,7 +9,6 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path"
 	"strconv"
@@ -85,7 +84,7 @@ func (z *ZKC) _gcSaveDisk(name string) error {
 	}
 
 	// lay on disk
-	return ioutil.WriteFile(filename, bb.Bytes(), 0600)
+	return z.writeFile(filename, bb.Bytes())
 }
 
 func (z *ZKC) gcNew(args []string) error {
diff --git a/zkclient/identity.go b/zkclient/identity.go
index a239017..a2321b3 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -170,6 +170,34 @@ func (z *ZKC) updateRatchet(r *ratchet.Ratchet, half bool) error {
 	return nil
 }
 
+// writeFile replaces filename with a file that contains data.  If we were to
+// quit while that happens filename either is what it was or is complete.
+func (z *ZKC) writeFile(filename string, data []byte) error {
+	// all files in the directories that are saved to are loaded, so keep
+	// the temporary file out of there
+	f, err := ioutil.TempFile(z.settings.Root, ".tmp")
+	if err != nil {
+		return err
+	}
+	// we can't defer f.Close() here because of windows
+
+	_, err = f.Write(data)
+	if err != nil {
+		f.Close()
+		os.Remove(f.Name())
+		return err
+	}
+	f.Sync()
+	f.Close()
+
+	err = os.Rename(f.Name(), filename)
+	if err != nil {
+		os.Remove(f.Name())
+	}
+
+	return err
+}
+
 func (z *ZKC) loadIdentity(id [zkidentity.IdentitySize]byte) (*zkidentity.PublicIdentity,
 	error) {
 	ids := hex.EncodeToString(id[:])
@@ -210,7 +238,7 @@ func (z *ZKC) saveIdentity(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("marshal public identity")
 	}
 	filename := path.Join(fullPath, identityFilename)
-	err = ioutil.WriteFile(filename, pidXDR, 0600)
+	err = z.writeFile(filename, pidXDR)
 	if err != nil {
 		return fmt.Errorf("write to %v: %v", filename, err)
 	}
-- 
2.43.0


From dc94976d5a2a1bb92c1fdecc6d205b9e458c6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 79/86] fix: zkclient: the password of an exchange was left in
 the window for the next one

---
 zkclient/kxacceptwindow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index bfa7596..3deebc8 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -162,6 +162,14 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			dk:  dk,
 		}
 		ka.zkc.ttkACFPW = ttk.NewWindow(acfpw)
+
+		// clear password edit and status for next call
+		ttk.Queue(func() {
+			ka.password = ""
+			ka.passwordInput.SetText(&ka.password, true)
+		})
+		ka.Status(w, false, defaultKXStatus)
+
 		ttk.Focus(ka.zkc.ttkACFPW)
 
 	case termbox.KeyF10:
-- 
2.43.0


From 2028011972e89133dc8445c766b7bd16824803f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 80/86] fix: inidb: a save without hard links left a moment
 without any database

---
 inidb/inidb.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 2cde013..6b4355c 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -126,7 +126,8 @@ func (i *INIDB) Save() error {
 			time.Now().Format("20060102.150405.000000000"))
 		err = os.Link(i.filename, backup)
 		if err != nil {
-			err = os.Rename(i.filename, backup)
+			// not all file systems have links
+			err = copyFile(i.filename, backup)
 		}
 		if err != nil {
 			_ = os.Remove(f.Name())
@@ -147,6 +148,29 @@ func (i *INIDB) Save() error {
 	return i.prune()
 }
 
+// copyFile copies src to dst.  There is either no dst or a complete one.
+func copyFile(src, dst string) error {
+	b, err := ioutil.ReadFile(src)
+	if err != nil {
+		return err
+	}
+	f, err := ioutil.TempFile(path.Dir(dst), path.Base(src))
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), dst)
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+	}
+	return err
+}
+
 // write writes all tables and records to f.  The default table does not have a
 // section header and therefore must be first.
 func (i *INIDB) write(f *os.File) error {
-- 
2.43.0


From e0dbffa38675b06443ad1f4acd1b527387ac341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 81/86] fix: zkclient: a server could show the fingerprint of
 another

On the first start the user is asked to accept the fingerprint that the
server sent, but nobody looked whether it is the one of the key that is
then used. Refuse identities that are not genuine.
---
 zkclient/welcome.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 702d95c..2e426b5 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -175,6 +175,14 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 				return
 			}
 
+			// the fingerprint must be the one of the key that is
+			// going to be used
+			if !pid.Verify() {
+				conn.Close()
+				ww.Status(w, true, "Remote identity is invalid")
+				return
+			}
+
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
 
-- 
2.43.0


From e92757b22bc4477d4847ba30d8189033ee32743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 82/86] fix: zkclient: an account was lost with the connection
 it was created on

The identity was saved only after the first session was complete. If the
connection was lost before that the account existed but nobody had its key.
---
 zkclient/zkclient.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b9bca9e..468542c 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2145,19 +2145,20 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	z.serverIdentity = pid
 	z.cert = cs.PeerCertificates[0].Raw
 
-	// tell remote we want to go full session
-	kx, err := z.sessionPhase(conn)
+	// the account exists, it must outlive this connection
+	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
 	if err != nil {
 		return err
 	}
 
-	// go through welcome phase
-	welcome, err := z.welcomePhase(kx)
+	// tell remote we want to go full session
+	kx, err := z.sessionPhase(conn)
 	if err != nil {
 		return err
 	}
 
-	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
+	// go through welcome phase
+	welcome, err := z.welcomePhase(kx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From eb224850b68e8ec5db3410319db74e693cb119f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 83/86] fix: zkclient: a silent server froze the first start

The window waits for the server, the user could not even quit.
---
 zkclient/welcome.go  | 6 ++++++
 zkclient/zkclient.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 2e426b5..a929952 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -7,6 +7,7 @@ package main
 import (
 	"fmt"
 	"strings"
+	"time"
 
 	"github.com/companyzero/ttk"
 	"github.com/companyzero/zkc/rpc"
@@ -159,6 +160,10 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		if ww.zkc.serverIdentity == nil {
 			// awful hack to get fingerprint
 
+			// we hold up the user, don't wait forever for a server
+			// that is silent
+			conn.SetDeadline(time.Now().Add(sessionTimeout))
+
 			// tell remote we want its public identity
 			_, err = xdr.Marshal(conn, rpc.InitialCmdIdentify)
 			if err != nil {
@@ -174,6 +179,7 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 					"Could not obtain remote identity")
 				return
 			}
+			conn.SetDeadline(time.Time{})
 
 			// the fingerprint must be the one of the key that is
 			// going to be used
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 468542c..acee1bf 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2108,6 +2108,9 @@ func (z *ZKC) loadGroupchat() error {
 
 func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	pid *zkidentity.PublicIdentity, token string) error {
+	// we hold up the user, don't wait forever for a server that is silent
+	conn.SetDeadline(time.Now().Add(sessionTimeout))
+
 	// tell server we want to create an account
 	_, err := xdr.Marshal(conn, rpc.InitialCmdCreateAccount)
 	if err != nil {
@@ -2163,6 +2166,8 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 		return err
 	}
 
+	conn.SetDeadline(time.Time{})
+
 	go z.handleRPC()
 
 	z.mw.welcomeMessage()
-- 
2.43.0


From a8b8b459c30bb6aa5eeee2fac66f85f3577d8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 84/86] fix: zkserver: identity and certificate were replaced
 when not readable

Any error while they were read made the server a new identity or a new
certificate, which replaced the old one for good. Only do that if there is
none. Also a server that was killed while it wrote them could not be started
again.
---
 zkserver/zkserver.go | 46 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index ebd6a0b..d8af48e 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -910,6 +910,31 @@ func (z *ZKS) listen() error {
 	return nil
 }
 
+// createFile creates filename with data.  If we were to quit while that happens
+// filename either does not exist or is complete.
+func createFile(filename string, data []byte) error {
+	f, err := ioutil.TempFile(filepath.Dir(filename), ".tmp")
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+
+	return err
+}
+
 func _main() error {
 	z := &ZKS{
 		sessions: make(map[string]*sessionContext),
@@ -948,6 +973,10 @@ func _main() error {
 	id, err := ioutil.ReadFile(filepath.Join(z.settings.Root,
 		tools.ZKSIdentityFilename))
 	if err != nil {
+		// do not replace an identity that can't be read right now
+		if !os.IsNotExist(err) {
+			return err
+		}
 		z.Info(idApp, "Creating a new identity")
 		fid, err := zkidentity.New("zkserver", "zkserver")
 		if err != nil {
@@ -957,8 +986,8 @@ func _main() error {
 		if err != nil {
 			return err
 		}
-		err = ioutil.WriteFile(filepath.Join(z.settings.Root,
-			tools.ZKSIdentityFilename), id, 0600)
+		err = createFile(filepath.Join(z.settings.Root,
+			tools.ZKSIdentityFilename), id)
 		if err != nil {
 			return err
 		}
@@ -973,6 +1002,11 @@ func _main() error {
 		tools.ZKSCertFilename),
 		filepath.Join(z.settings.Root, tools.ZKSKeyFilename))
 	if err != nil {
+		// do not replace a cert that can't be read right now
+		if !os.IsNotExist(err) {
+			return fmt.Errorf("could not load cert: %v", err)
+		}
+
 		// create a new cert
 		valid := time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC)
 		cp, kp, err := newTLSCertPair("", valid, []string{})
@@ -982,13 +1016,13 @@ func _main() error {
 		}
 
 		// save on disk
-		err = ioutil.WriteFile(filepath.Join(z.settings.Root,
-			tools.ZKSCertFilename), cp, 0600)
+		err = createFile(filepath.Join(z.settings.Root,
+			tools.ZKSCertFilename), cp)
 		if err != nil {
 			return fmt.Errorf("could not save cert: %v", err)
 		}
-		err = ioutil.WriteFile(filepath.Join(z.settings.Root,
-			tools.ZKSKeyFilename), kp, 0600)
+		err = createFile(filepath.Join(z.settings.Root,
+			tools.ZKSKeyFilename), kp)
 		if err != nil {
 			return fmt.Errorf("could not save key: %v", err)
 		}
-- 
2.43.0


From 3fa5dfc947e3fb1456588cd52ba81e2b85449abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:02 +0000
Subject: [PATCH 85/86] fix: account: messages were out of order when the clock
 was set back

---
 zkserver/account/account.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 607e53a..2d90f9f 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -29,6 +29,9 @@ const (
 	// deliverFilename is where a message is assembled prior to delivery
 	deliverFilename = "deliver.tmp"
 
+	// messageLayout is what a stored message is named after
+	messageLayout = "20060102150405.000000000"
+
 	// newSuffix identifies a directory that is to become an account
 	newSuffix = ".new"
 )
@@ -108,9 +111,37 @@ func New(root string) (*Account, error) {
 		return nil, err
 	}
 
+	a.delivered, err = lastDelivered(root)
+	if err != nil {
+		return nil, err
+	}
+
 	return &a, nil
 }
 
+// lastDelivered returns the latest time that a stored message is named after.
+// New messages are stored behind it, whatever the clock says by now.
+func lastDelivered(root string) (time.Time, error) {
+	var last time.Time
+	accounts, err := ioutil.ReadDir(root)
+	if err != nil {
+		return last, err
+	}
+	for _, a := range accounts {
+		fi, err := ioutil.ReadDir(path.Join(root, a.Name(), CacheDir))
+		if err != nil {
+			continue // not an account
+		}
+		for _, v := range fi {
+			t, err := time.Parse(messageLayout, v.Name())
+			if err == nil && t.After(last) {
+				last = t
+			}
+		}
+	}
+	return last, nil
+}
+
 // AccountDirDisabled return the account directory for a given disabled identity.
 func (a *Account) accountDirDisabled(id [zkidentity.IdentitySize]byte) string {
 	return path.Join(a.root, "."+hex.EncodeToString(id[:]))
@@ -371,12 +402,12 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 	defer a.Unlock()
 
 	// calculate next filename, these must be unique and in order
-	now := time.Now()
+	now := time.Now().UTC().Round(0) // wall clock only
 	if !now.After(a.delivered) {
 		now = a.delivered.Add(1)
 	}
 	a.delivered = now
-	filename := now.Format("20060102150405.000000000")
+	filename := now.Format(messageLayout)
 	fullPath := path.Join(cache, filename)
 	_, err = os.Stat(fullPath)
 	if err == nil {
-- 
2.43.0


From de6c35ebd7ac73f4edd496f304a359ba66c1bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 86/86] fix: ratchet: the halves of a completed key exchange
 were kept and opened the first messages

---
 ratchet/ratchet.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index ebd4538..5c1881a 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -178,6 +178,10 @@ func validateECDHpoint(p []byte) error {
 // CompleteKeyExchange takes a KeyExchange message from the other party and
 // establishes the ratchet.
 func (r *Ratchet) CompleteKeyExchange(kx *KeyExchange, alice bool) error {
+	if r.MyHalf == nil {
+		return errors.New("CompleteKeyExchange: not in a key exchange")
+	}
+
 	k, ok := sntrup4591761.Decapsulate(&kx.Cipher, r.MyPrivateKey)
 	if ok != 1 {
 		return errors.New("CompleteKeyExchange: decapsulation error")
@@ -234,6 +238,11 @@ func (r *Ratchet) CompleteKeyExchange(kx *KeyExchange, alice bool) error {
 	r.ratchet = alice
 	r.kxPrivate = nil
 
+	// The keys this conversation begins with follow from both halves, don't
+	// keep what decrypts its first messages.
+	r.MyHalf = nil
+	r.TheirHalf = nil
+
 	return nil
 }
 
@@ -627,6 +636,12 @@ func (r *Ratchet) Unmarshal(s *disk.RatchetState) error {
 		r.TheirHalf = nil
 	}
 
+	if r.kxPrivate == nil {
+		// completed by a version that kept the halves
+		r.MyHalf = nil
+		r.TheirHalf = nil
+	}
+
 	for _, saved := range s.SavedKeys {
 		var headerKey [32]byte
 		if !unmarshalKey(&headerKey, saved.HeaderKey) {
-- 
2.43.0

