package main

import (
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"io"

	"github.com/companyzero/sntrup4591761"
	"golang.org/x/crypto/nacl/secretbox"
)

// An independent implementation of the documented handshake (doc/session.txt)
// used as honest reference peer and as attacker.

const (
	ntruPub = sntrup4591761.PublicKeySize
	ntruSec = sntrup4591761.PrivateKeySize
	ntruCt  = sntrup4591761.CiphertextSize
)

type refKey struct {
	pub *[ntruPub]byte
	sec *[ntruSec]byte
}

func newRefKey() refKey {
	p, s, err := sntrup4591761.GenerateKey(rand.Reader)
	must(err)
	return refKey{p, s}
}

func (k refKey) id() [32]byte { return sha256.Sum256(k.pub[:]) }

type refChan struct {
	rw           io.ReadWriter
	rseq, wseq   [24]byte
	rkey, wkey   [32]byte
	frameMutator func(n int, f []byte) []byte // for sent frames
	sent         int
}

func bump(s *[24]byte) {
	for i := 0; i < 8; i++ {
		s[i]++
		if s[i] != 0 {
			return
		}
	}
}

func (c *refChan) send(data []byte, k *[32]byte) error {
	ct := secretbox.Seal(nil, data, &c.wseq, k)
	bump(&c.wseq)
	return c.raw(mkFrame(ct))
}

func (c *refChan) raw(f []byte) error {
	if c.frameMutator != nil {
		f = c.frameMutator(c.sent, f)
	}
	c.sent++
	_, err := c.rw.Write(f)
	return err
}

var errRef = errors.New("reference peer: verification failed")

func (c *refChan) recv(k *[32]byte) ([]byte, error) {
	f, err := readFrame(c.rw)
	if err != nil {
		return nil, err
	}
	d, ok := secretbox.Open(nil, frameData(f), &c.rseq, k)
	bump(&c.rseq)
	if !ok {
		return nil, errRef
	}
	return d, nil
}

func mac(k *[32]byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k[:])
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func kdf(parts ...[]byte) (a, b [32]byte) {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	s := h.Sum(nil)
	copy(a[:], s[:32])
	copy(b[:], s[32:])
	return
}

// refOpts says how an attacking reference peer departs from the protocol.
type refOpts struct {
	eph       *[]byte        // where the responder notes the ephemeral key of the initiator
	claimPub  *[ntruPub]byte // public key claimed as own
	badProof  int            // 1: first own proof wrong, 2: second own proof wrong
	proofAlt  string         // alternative proof contents
	guessLast []byte         // value used for a key that cannot be known
	wrongSize int            // index of the encrypted handshake message sent with a wrong size
	sizeDelta int
}

// refInitiate runs the initiator side; the returned channel has keys set.
func refInitiate(rw io.ReadWriter, our refKey, their *[ntruPub]byte, o refOpts) (*refChan, error) {
	c := &refChan{rw: rw}
	pub := our.pub
	if o.claimPub != nil {
		pub = o.claimPub
	}
	n := 0
	sz := func(b []byte) []byte {
		n++
		if o.wrongSize == n {
			if o.sizeDelta < 0 {
				return b[:max(len(b)+o.sizeDelta, 0)]
			}
			return append(append([]byte{}, b...), make([]byte, max(o.sizeDelta, 0))...)
		}
		return b
	}
	eph := newRefKey()
	c1, k1, err := sntrup4591761.Encapsulate(rand.Reader, their)
	if err != nil {
		return nil, err
	}
	f := make([]byte, ntruCt+(4-ntruCt%4)%4)
	copy(f, c1[:])
	if err = c.raw(f); err != nil {
		return nil, err
	}
	if err = c.send(sz(eph.pub[:]), k1); err != nil { // 1
		return nil, err
	}
	x, err := c.recv(k1)
	if err != nil {
		return nil, err
	}
	if len(x) != ntruCt {
		return nil, errRef
	}
	k2, ok := sntrup4591761.Decapsulate((*[ntruCt]byte)(x), eph.sec)
	if ok != 1 {
		return nil, errRef
	}
	te, err := c.recv(k2)
	if err != nil {
		return nil, err
	}
	if len(te) != ntruPub {
		return nil, errRef
	}
	sp, err := c.recv(k2)
	if err != nil {
		return nil, err
	}
	if !hmac.Equal(sp, mac(k1, eph.pub[:], te)) {
		return nil, errRef
	}
	c3, k3, err := sntrup4591761.Encapsulate(rand.Reader, (*[ntruPub]byte)(te))
	if err != nil {
		return nil, err
	}
	if err = c.send(sz(c3[:]), k2); err != nil { // 2
		return nil, err
	}
	if err = c.send(sz(pub[:]), k3); err != nil { // 3
		return nil, err
	}
	cp := mac(k2, sp, pub[:])
	if o.badProof == 1 {
		switch o.proofAlt {
		case "zero":
			cp = make([]byte, 32)
		case "nokey":
			cp = mac(k2, sp)
		case "nosp":
			cp = mac(k2, pub[:])
		case "k1":
			cp = mac(k1, sp, pub[:])
		case "k3":
			cp = mac(k3, sp, pub[:])
		case "reflect":
			cp = sp
		case "otherid":
			cp = mac(k2, sp, eph.pub[:])
		default:
			cp[len(cp)-1] ^= 1
		}
	}
	if err = c.send(sz(cp), k3); err != nil { // 4
		return nil, err
	}
	var k4 *[32]byte
	x, err = c.recv(k3)
	if err != nil {
		return nil, err
	}
	if o.claimPub != nil {
		// cannot open c4: guess
		k4 = new([32]byte)
		switch string(o.guessLast) {
		case "k1":
			k4 = k1
		case "k2":
			k4 = k2
		case "k3":
			k4 = k3
		case "omit":
			k4 = nil
		case "own":
			if kk, ok := sntrup4591761.Decapsulate((*[ntruCt]byte)(x), our.sec); kk != nil {
				_ = ok
				k4 = kk
			}
		default:
			copy(k4[:], o.guessLast)
		}
		if _, err := readFrame(rw); err != nil { // last proof, unreadable
			return nil, err
		}
		bump(&c.rseq)
		parts := [][]byte{k1[:], k2[:], k3[:]}
		if k4 != nil {
			parts = append(parts, k4[:])
		}
		c.rkey, c.wkey = kdf(parts...)
		return c, nil
	}
	if len(x) != ntruCt {
		return nil, errRef
	}
	k4, ok = sntrup4591761.Decapsulate((*[ntruCt]byte)(x), our.sec)
	if ok != 1 {
		return nil, errRef
	}
	fp, err := c.recv(k4)
	if err != nil {
		return nil, err
	}
	if !hmac.Equal(fp, mac(k3, cp, their[:])) {
		return nil, errRef
	}
	c.rkey, c.wkey = kdf(k1[:], k2[:], k3[:], k4[:])
	return c, nil
}

// refRespond runs the responder side.
func refRespond(rw io.ReadWriter, our refKey, o refOpts) (*refChan, *[ntruPub]byte, error) {
	c := &refChan{rw: rw}
	eph := newRefKey()
	n := 0
	sz := func(b []byte) []byte {
		n++
		if o.wrongSize == n {
			if o.sizeDelta < 0 {
				return b[:max(len(b)+o.sizeDelta, 0)]
			}
			return append(append([]byte{}, b...), make([]byte, max(o.sizeDelta, 0))...)
		}
		return b
	}
	pub := our.pub
	if o.claimPub != nil {
		pub = o.claimPub
	}
	f, err := readFixed(rw, ntruCt)
	if err != nil {
		return nil, nil, err
	}
	k1, ok := sntrup4591761.Decapsulate((*[ntruCt]byte)(f[:ntruCt]), our.sec)
	if o.claimPub != nil {
		// the initiator used a key we do not own
		if k1 == nil || ok != 1 {
			k1 = new([32]byte)
			copy(k1[:], o.guessLast)
		}
	} else if ok != 1 {
		return nil, nil, errRef
	}
	te, err := c.recv(k1)
	if err != nil {
		if o.claimPub == nil {
			return nil, nil, err
		}
		te = eph.pub[:] // unknown
	}
	if len(te) != ntruPub {
		return nil, nil, errRef
	}
	if o.eph != nil {
		*o.eph = append([]byte{}, te...)
	}
	c2, k2, err := sntrup4591761.Encapsulate(rand.Reader, (*[ntruPub]byte)(te))
	if err != nil {
		return nil, nil, err
	}
	if err = c.send(sz(c2[:]), k1); err != nil { // 1
		return nil, nil, err
	}
	if err = c.send(sz(eph.pub[:]), k2); err != nil { // 2
		return nil, nil, err
	}
	sp := mac(k1, te, eph.pub[:])
	if o.badProof == 1 {
		switch o.proofAlt {
		case "zero":
			sp = make([]byte, 32)
		case "k2":
			sp = mac(k2, te, eph.pub[:])
		case "swap":
			sp = mac(k1, eph.pub[:], te)
		case "noeph":
			sp = mac(k1, te)
		default:
			sp[0] ^= 0x80
		}
	}
	if err = c.send(sz(sp), k2); err != nil { // 3
		return nil, nil, err
	}
	x, err := c.recv(k2)
	if err != nil {
		return nil, nil, err
	}
	if len(x) != ntruCt {
		return nil, nil, errRef
	}
	k3, ok := sntrup4591761.Decapsulate((*[ntruCt]byte)(x), eph.sec)
	if ok != 1 {
		return nil, nil, errRef
	}
	tp, err := c.recv(k3)
	if err != nil {
		return nil, nil, err
	}
	if len(tp) != ntruPub {
		return nil, nil, errRef
	}
	cp, err := c.recv(k3)
	if err != nil {
		return nil, nil, err
	}
	if !hmac.Equal(cp, mac(k2, sp, tp)) {
		return nil, nil, errRef
	}
	tpk := (*[ntruPub]byte)(tp)
	c4, k4, err := sntrup4591761.Encapsulate(rand.Reader, tpk)
	if err != nil {
		return nil, nil, err
	}
	if err = c.send(sz(c4[:]), k3); err != nil { // 4
		return nil, nil, err
	}
	fp := mac(k3, cp, pub[:])
	if o.badProof == 2 {
		switch o.proofAlt {
		case "zero":
			fp = make([]byte, 32)
		case "k4":
			fp = mac(k4, cp, pub[:])
		case "nokey":
			fp = mac(k3, cp)
		case "reflect":
			fp = cp
		default:
			fp[31] ^= 1
		}
	}
	if err = c.send(sz(fp), k4); err != nil { // 5
		return nil, nil, err
	}
	c.wkey, c.rkey = kdf(k1[:], k2[:], k3[:], k4[:])
	return c, tpk, nil
}
