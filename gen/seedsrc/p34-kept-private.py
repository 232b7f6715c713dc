PROP='P34'
NEEDS='keys copied once from a device, then watched traffic over several round trips'
BREAKS='a side keeps one ratchet private key for the whole conversation, so whoever copied it once reads everything it is sent ever after'
PKG='ratchet'
KIT=['ratkit']
EDITS=[('ratchet/ratchet.go',[('''	for i := range r.sendRatchetPrivate {
		r.sendRatchetPrivate[i] = 0
	}
''',''),('''		r.randBytes(r.sendRatchetPrivate[:])
		copy(r.sendHeaderKey''','''		if isZeroKey(&r.sendRatchetPrivate) {
			r.randBytes(r.sendRatchetPrivate[:])
		}
		copy(r.sendHeaderKey''')])]
DEMO='''package ratchet

import (
	"bytes"
	"crypto/rand"
	"testing"
	"time"

	"github.com/companyzero/zkc/ratchet/disk"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func TestZZ(t *testing.T) {
	a, b := zzPair(t)
	for i := 0; i < 2; i++ {
		zzDec(t, b, zzEnc(t, a, 1, "m")[0], "m0")
		zzDec(t, a, zzEnc(t, b, 1, "n")[0], "n0")
	}
	// the thief takes what a saved
	var buf bytes.Buffer
	if _, err := xdr.Marshal(&buf, a.Marshal(time.Now(), 1000000000000)); err != nil {
		t.Fatal(err)
	}
	var s disk.RatchetState
	if _, err := xdr.Unmarshal(&buf, &s); err != nil {
		t.Fatal(err)
	}
	thief := New(rand.Reader)
	if err := thief.Unmarshal(&s); err != nil {
		t.Fatal(err)
	}
	thief.MyPrivateKey, thief.TheirPublicKey = a.MyPrivateKey, a.TheirPublicKey
	for i := 0; i < 6; i++ {
		zzDec(t, b, zzEnc(t, a, 1, "m")[0], "m0")
		zzEnc(t, thief, 1, "")
		m := zzEnc(t, b, 1, "n")[0]
		zzDec(t, a, m, "n0")
		if _, err := thief.Decrypt(m); err == nil && i > 2 {
			t.Errorf("message %v read with stolen keys", i)
		}
	}
}
'''
