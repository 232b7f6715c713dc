PROP='P05'
NEEDS='messages of two different chains are missing when the ratchet is saved, and are delivered after it was loaded'
BREAKS='only the missing messages of one of the chains survive saving and loading'
PKG='ratchet'
KIT=['ratkit']
EDITS=[('ratchet/ratchet.go',[('''	for headerKey, messageKeys := range r.saved {
		keys := make([]disk.RatchetState_SavedKeys_MessageKey, 0, len(messageKeys))
''','''	keys := make([]disk.RatchetState_SavedKeys_MessageKey, 0, len(r.saved))
	for headerKey, messageKeys := range r.saved {
		keys = keys[:0]
''')])]
DEMO='''package ratchet

import (
	"crypto/rand"
	"testing"
	"time"
)

func zzReload(t *testing.T, r *Ratchet) *Ratchet {
	n := New(rand.Reader)
	n.MyPrivateKey, n.TheirPublicKey = r.MyPrivateKey, r.TheirPublicKey
	if err := n.Unmarshal(r.Marshal(time.Now(), time.Hour)); err != nil {
		t.Fatal(err)
	}
	return n
}

func TestZZ(t *testing.T) {
	for i := 0; i < 8; i++ {
		a, b := zzPair(t)
		m := zzEnc(t, a, 3, "m")
		zzDec(t, b, m[2], "m2")
		r := zzEnc(t, b, 1, "r")
		zzDec(t, a, r[0], "r0")
		n := zzEnc(t, a, 3, "n")
		zzDec(t, b, n[2], "n2")
		b = zzReload(t, b)
		zzDec(t, b, n[1], "n1")
		zzDec(t, b, n[0], "n0")
		zzDec(t, b, m[1], "m1")
		zzDec(t, b, m[0], "m0")
	}
}
'''
