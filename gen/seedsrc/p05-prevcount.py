PROP='P05'
NEEDS='the sender restores its ratchet after the first message of a new sending chain, that message is delayed, and messages of the previous chain are still missing'
BREAKS='the length of the previous chain is not restored: the peer is told that nothing is missing, or refuses the message'
PKG='ratchet'
KIT=['ratkit']
EDITS=[('ratchet/ratchet.go',[('''	r.prevSendCount = s.PrevSendCount
''','')])]
DEMO='''package ratchet

import (
	"crypto/rand"
	"testing"
	"time"
)

func zzReload(t *testing.T, r *Ratchet) *Ratchet {
	n := New(rand.Reader)
	n.MyPrivateKey, n.TheirPublicKey = r.MyPrivateKey, r.TheirPublicKey
	if err := n.Unmarshal(r.Marshal(time.Now(), time.Hour)); err != nil {
		t.Fatal(err)
	}
	return n
}

func TestZZ(t *testing.T) {
	a, b := zzPair(t)
	m := zzEnc(t, a, 4, "m")
	zzDec(t, b, m[0], "m0")
	r := zzEnc(t, b, 1, "r")
	zzDec(t, a, r[0], "r0")
	n := zzEnc(t, a, 1, "n")
	a = zzReload(t, a)
	n = append(n, zzEnc(t, a, 1, "x")...)
	zzDec(t, b, n[1], "x0")
	zzDec(t, b, n[0], "n0")
	for i := 1; i < 4; i++ {
		zzDec(t, b, m[i], "m"+string(rune('0'+i)))
	}
}
'''
