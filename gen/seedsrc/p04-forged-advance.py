PROP='P04'
NEEDS='a message whose body was altered in transit arrives before the genuine message'
BREAKS='an altered message advances the receiving chain before it is authenticated, after which the genuine message is refused as a duplicate'
PKG='ratchet'
KIT=['ratkit']
EDITS=[('ratchet/ratchet.go',[('''		copy(nonce[:], header[nonceInHeaderOffset:])
		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}

		copy(r.recvChainKey[:], provisionalChainKey[:])
		r.mergeSavedKeys(savedKeys)
		r.recvCount = messageNum + 1
		return msg, nil
''','''		copy(r.recvChainKey[:], provisionalChainKey[:])
		r.mergeSavedKeys(savedKeys)
		r.recvCount = messageNum + 1

		copy(nonce[:], header[nonceInHeaderOffset:])
		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &messageKey)
		if !ok {
			return nil, errors.New("ratchet: corrupt message")
		}

		return msg, nil
''')])]
DEMO='''package ratchet

import "testing"

func TestZZ(t *testing.T) {
	a, b := zzPair(t)
	m := zzEnc(t, a, 3, "m")
	zzDec(t, b, m[0], "m0")
	bad := append([]byte{}, m[1]...)
	bad[len(bad)-1] ^= 1
	if _, err := b.Decrypt(bad); err == nil {
		t.Error("altered message accepted")
	}
	zzDec(t, b, m[1], "m1")
	zzDec(t, b, m[2], "m2")
}
'''
