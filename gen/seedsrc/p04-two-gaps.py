PROP='P04'
NEEDS='two separate gaps in the messages of one receiving chain, and the messages of the first gap arriving after the second gap was seen'
BREAKS='the keys of the messages skipped first are forgotten when more messages of the same chain are skipped: those messages can never be decrypted'
PKG='ratchet'
KIT=['ratkit']
EDITS=[('ratchet/ratchet.go',[('''		messageKeys, ok := r.saved[headerKey]
		if !ok {
			r.saved[headerKey] = newMessageKeys
			continue
		}

		for n, messageKey := range newMessageKeys {
			messageKeys[n] = messageKey
		}
''','''		// the chain key moved past all older messages
		r.saved[headerKey] = newMessageKeys
''')])]
DEMO='''package ratchet

import "testing"

func TestZZ(t *testing.T) {
	a, b := zzPair(t)
	m := zzEnc(t, a, 8, "m")
	for _, i := range []int{0, 2, 3, 6, 1, 7, 5, 4} {
		zzDec(t, b, m[i], "m"+string(rune('0'+i)))
	}
}
'''
