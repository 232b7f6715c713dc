package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"sync"
	"time"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
)

func newID(nick string) *zkidentity.FullIdentity {
	f, err := zkidentity.New("Name of "+nick, nick)
	must(err)
	return f
}

func rawRatchet(me *zkidentity.FullIdentity, peer *zkidentity.PublicIdentity) *ratchet.Ratchet {
	r := ratchet.New(rand.Reader)
	r.MyPrivateKey = &me.PrivateKey
	r.MySigningPublic = &me.Public.SigKey
	r.TheirIdentityPublic = &peer.Identity
	r.TheirSigningPublic = &peer.SigKey
	r.TheirPublicKey = &peer.Key
	return r
}

// pairRatchets performs a genuine key exchange.
func pairRatchets(a, b *zkidentity.FullIdentity) (ra, rb *ratchet.Ratchet, err error) {
	ra, rb = rawRatchet(a, &b.Public), rawRatchet(b, &a.Public)
	var ka, kb ratchet.KeyExchange
	if err = ra.FillKeyExchange(&ka); err != nil {
		return
	}
	if err = rb.FillKeyExchange(&kb); err != nil {
		return
	}
	if err = ra.CompleteKeyExchange(&kb, false); err != nil {
		return
	}
	err = rb.CompleteKeyExchange(&ka, true)
	return
}

// a reference model of what the double ratchet must deliver
const gapLimit = 80

type rmsg struct {
	id        int
	from      int // sending side
	chain     int
	num       int
	prev      int // messages in the sender's previous chain
	ct        []byte
	pt        []byte
	delivered bool
	saved     bool // skipped over by a later message, key kept
	savedAt   int64
	expired   bool
}

type rside struct {
	r         *ratchet.Ratchet
	sendChain int // -1: none yet
	sendCount int
	prevSend  int
	pending   bool // next message starts a new chain
	recvChain int
	recvCount int
}

type rworld struct {
	s     [2]*rside
	msgs  []*rmsg
	now   int64
	rg    *mrand.Rand
	log   []string
	stats map[string]int
	lim   int64 // lifetime of saved keys in seconds at restore
	nrest int
}

func newRworld(ra, rb *ratchet.Ratchet, rg *mrand.Rand) *rworld {
	w := &rworld{rg: rg, now: 1_600_000_000, stats: map[string]int{}}
	// side 0 completed with alice=false: has a sending chain, no receiving one
	w.s[0] = &rside{r: ra, sendChain: 0, recvChain: -1}
	// side 1 completed with alice=true: receives chain 0, starts its own
	w.s[1] = &rside{r: rb, sendChain: -1, pending: true, recvChain: 0}
	for _, s := range w.s {
		s.r.Now = w.clock
	}
	return w
}

func (w *rworld) clock() time.Time { return time.Unix(w.now, 0) }

func (w *rworld) note(f string, a ...any) {
	if len(w.log) > 400 {
		w.log = w.log[200:]
	}
	w.log = append(w.log, fmt.Sprintf(f, a...))
}

func (w *rworld) send(side int, pt []byte) (*rmsg, error) {
	s := w.s[side]
	if s.pending {
		s.pending = false
		s.sendChain++
		s.prevSend, s.sendCount = s.sendCount, 0
		w.stats["new_chains"]++
	}
	m := &rmsg{id: len(w.msgs), from: side, chain: s.sendChain, num: s.sendCount, prev: s.prevSend, pt: pt}
	s.sendCount++
	var err error
	m.ct, err = s.r.Encrypt(nil, append([]byte{}, pt...))
	if err != nil {
		return nil, fmt.Errorf("Encrypt: %v", err)
	}
	if bytes.Equal(m.ct, pt) || (len(pt) >= 16 && bytes.Contains(m.ct, pt[:16])) {
		return nil, fmt.Errorf("plaintext visible in ciphertext")
	}
	w.msgs = append(w.msgs, m)
	w.stats["sent"]++
	w.note("send#%d side=%d chain=%d num=%d len=%d", m.id, side, m.chain, m.num, len(pt))
	return m, nil
}

// expect predicts whether the receiver must accept m now.
func (w *rworld) expect(m *rmsg) bool {
	d := w.s[1-m.from]
	if m.delivered || m.expired {
		return false
	}
	switch {
	case m.chain == d.recvChain:
		if m.num >= d.recvCount {
			return m.num-d.recvCount <= gapLimit
		}
		return m.saved
	case m.chain == d.recvChain+1:
		return m.prev-d.recvCount <= gapLimit && m.num <= gapLimit
	case m.chain < d.recvChain:
		return m.saved
	}
	return false
}

// apply updates the model for an accepted m.
func (w *rworld) apply(m *rmsg) {
	d := w.s[1-m.from]
	save := func(chain, lo, hi int) {
		for _, o := range w.msgs {
			if o.from == m.from && o.chain == chain && o.num >= lo && o.num < hi && !o.delivered {
				o.saved = true
				o.savedAt = w.now
				w.stats["skipped"]++
			}
		}
	}
	m.delivered = true
	switch {
	case m.chain == d.recvChain && m.num >= d.recvCount:
		save(m.chain, d.recvCount, m.num)
		d.recvCount = m.num + 1
	case m.chain == d.recvChain+1:
		save(d.recvChain, d.recvCount, m.prev)
		save(m.chain, 0, m.num)
		d.recvChain = m.chain
		d.recvCount = m.num + 1
		d.pending = true
	default:
		w.stats["late_deliveries"]++
	}
}

// deliver hands m to its receiver and compares with the model.
func (w *rworld) deliver(m *rmsg) error {
	want := w.expect(m)
	d := w.s[1-m.from]
	in := append([]byte{}, m.ct...)
	got, err := d.r.Decrypt(in)
	w.note("deliver#%d want=%v err=%v", m.id, want, err)
	if want {
		if err != nil {
			return fmt.Errorf("message %d (chain %d num %d, %d bytes) must be delivered but was refused: %v", m.id, m.chain, m.num, len(m.pt), err)
		}
		if !bytes.Equal(got, m.pt) {
			return fmt.Errorf("message %d delivered altered", m.id)
		}
		w.apply(m)
		w.stats["delivered"]++
		return nil
	}
	if err == nil {
		why := "beyond the tolerated gap"
		if m.delivered {
			why = "already delivered"
		} else if m.expired {
			why = "expired"
		}
		return fmt.Errorf("message %d (%s) was accepted again or out of tolerance", m.id, why)
	}
	w.stats["refused"]++
	return nil
}

func (w *rworld) hostile() error {
	side := w.rg.Intn(2)
	var in []byte
	what := w.rg.Intn(11)
	var src *rmsg
	if len(w.msgs) > 0 {
		src = w.msgs[w.rg.Intn(len(w.msgs))]
		for k := 0; k < 10 && src.delivered; k++ { // prefer undelivered
			src = w.msgs[len(w.msgs)-1-w.rg.Intn(min(len(w.msgs), 40))]
		}
		in = append([]byte{}, src.ct...)
		side = 1 - src.from
	}
	switch {
	case src == nil || what == 0:
		in = randBytes(w.rg, w.rg.Intn(300))
	case what == 1: // header part
		in[w.rg.Intn(104)] ^= 1 << w.rg.Intn(8)
	case what == 2: // body
		in[104+w.rg.Intn(len(in)-104)] ^= 1 << w.rg.Intn(8)
	case what == 3:
		in = in[:w.rg.Intn(len(in))]
	case what == 4:
		in = append(in, randBytes(w.rg, 1+w.rg.Intn(20))...)
	case what == 5: // reflected to its sender
		side = src.from
	case what == 6: // header of one, body of another
		o := w.msgs[w.rg.Intn(len(w.msgs))]
		if o == src {
			return nil
		}
		in = append(in[:104:104], o.ct[104:]...)
	case what == 7:
		in = in[:104]
	case what == 9: // made with keys that are all zeros, as in an empty state
		side = w.rg.Intn(2)
		n := w.rg.Intn(4)
		in = forgeWith(w.rg, make([]byte, 32), make([]byte, 32), uint32(n), 0, n)
	case what == 10: // the header is genuine, the body is not: by a peer gone mad
		st := w.s[1-side].r.Marshal(w.clock(), 1<<40)
		hk := st.SendHeaderKey
		if w.rg.Intn(2) == 0 {
			hk = st.NextSendHeaderKey
		}
		nums := []uint32{0, 1, uint32(w.s[1-side].sendCount), uint32(w.s[1-side].sendCount) + 1, 80, 81, 1 << 31, ^uint32(0), ^uint32(0) - 80}
		in = forgeWith(w.rg, hk, randBytes(w.rg, 32), nums[w.rg.Intn(len(nums))], nums[w.rg.Intn(len(nums))], 0)
	default:
		in = nil
	}
	got, err := w.s[side].r.Decrypt(in)
	w.note("hostile %d to side %d: err=%v", what, side, err)
	w.stats["hostile"]++
	if err == nil {
		return fmt.Errorf("a forged or damaged message (kind %d) was accepted as %d bytes", what, len(got))
	}
	return nil
}

// forgeWith makes a message with the given header key and the message key that
// is steps further in the chain.
func forgeWith(rg *mrand.Rand, hk, chain []byte, num, prev uint32, steps int) []byte {
	for i := 0; i < steps; i++ {
		h := hmac.New(sha256.New, chain)
		h.Write([]byte("chain key step"))
		chain = h.Sum(nil)
	}
	h := hmac.New(sha256.New, chain)
	h.Write(messageLabel)
	var k, mk [32]byte
	copy(k[:], hk)
	copy(mk[:], h.Sum(nil))
	var hd [64]byte
	var hn, bn [24]byte
	copy(hn[:], randBytes(rg, 24))
	copy(bn[:], randBytes(rg, 24))
	binary.LittleEndian.PutUint32(hd[:], num)
	binary.LittleEndian.PutUint32(hd[4:], prev)
	if rg.Intn(3) != 0 { // else a point of small order
		copy(hd[8:40], randBytes(rg, 32))
	}
	copy(hd[40:], bn[:])
	out := append([]byte{}, hn[:]...)
	out = secretbox.Seal(out, hd[:], &hn, &k)
	return secretbox.Seal(out, randBytes(rg, rg.Intn(50)), &bn, &mk)
}

func xdrState(s *disk.RatchetState) (*disk.RatchetState, error) {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, s); err != nil {
		return nil, err
	}
	var o disk.RatchetState
	_, err := xdr.Unmarshal(&b, &o)
	return &o, err
}

// restore replaces a side by a copy restored from its serialized state.
func (w *rworld) restore(side int, life int64) error {
	s := w.s[side]
	st, err := xdrState(s.r.Marshal(w.clock(), time.Duration(life)*time.Second))
	if err != nil {
		return err
	}
	n := ratchet.New(rand.Reader)
	n.MyPrivateKey, n.MySigningPublic = s.r.MyPrivateKey, s.r.MySigningPublic
	n.TheirIdentityPublic, n.TheirSigningPublic, n.TheirPublicKey = s.r.TheirIdentityPublic, s.r.TheirSigningPublic, s.r.TheirPublicKey
	n.Now = w.clock
	if err := n.Unmarshal(st); err != nil {
		return fmt.Errorf("restore of a saved state failed: %v", err)
	}
	s.r = n
	w.stats["restores"]++
	for _, m := range w.msgs {
		if m.from == 1-side && m.saved && !m.delivered && !m.expired && w.now-m.savedAt > life {
			m.expired = true
			w.stats["expired"]++
		}
	}
	w.note("restore side=%d life=%d now=%d", side, life, w.now)
	return nil
}

// forwardSecrecy checks that no key in the current state of the receiver
// opens the body of a delivered message.
func (w *rworld) forwardSecrecy(m *rmsg) error {
	st := w.s[1-m.from].r.Marshal(w.clock(), 1<<40)
	keys := [][]byte{st.RootKey, st.SendHeaderKey, st.RecvHeaderKey, st.NextSendHeaderKey, st.NextRecvHeaderKey, st.SendChainKey, st.RecvChainKey, st.SendRatchetPrivate}
	var hk [][]byte
	hk = append(hk, keys...)
	for _, s := range st.SavedKeys {
		hk = append(hk, s.HeaderKey)
		for _, k := range s.MessageKeys {
			keys = append(keys, k.Key)
		}
	}
	var n [24]byte
	copy(n[:], m.ct)
	for _, h := range hk {
		var k [32]byte
		copy(k[:], h)
		hd, ok := secretbox.Open(nil, m.ct[24:104], &n, &k)
		if !ok {
			continue
		}
		var bn [24]byte
		copy(bn[:], hd[40:])
		num := int(binary.LittleEndian.Uint32(hd[:4]))
		if num != m.num {
			return fmt.Errorf("message %d carries number %d, is number %d", m.id, num, m.num)
		}
		for ki, base := range keys {
			cur := append([]byte{}, base...)
			for step := 0; step < 4; step++ {
				var mk [32]byte
				copy(mk[:], cur)
				if _, ok := secretbox.Open(nil, m.ct[104:], &bn, &mk); ok {
					return fmt.Errorf("key %d of the receiver's state after delivery opens message %d", ki, m.id)
				}
				h := hmac.New(sha256.New, cur)
				h.Write([]byte("message key"))
				copy(mk[:], h.Sum(nil))
				if _, ok := secretbox.Open(nil, m.ct[104:], &bn, &mk); ok {
					return fmt.Errorf("a key derived from key %d of the receiver's state after delivery opens message %d", ki, m.id)
				}
				h = hmac.New(sha256.New, cur)
				h.Write([]byte("chain key step"))
				cur = h.Sum(nil)
			}
		}
		w.stats["forward_secrecy_probes"]++
	}
	return nil
}

func (w *rworld) undelivered(keepWindow int) []*rmsg {
	var u []*rmsg
	for i := len(w.msgs) - 1; i >= 0 && len(u) < keepWindow; i-- {
		if !w.msgs[i].delivered {
			u = append(u, w.msgs[i])
		}
	}
	return u
}

var ratchetPairs struct {
	once sync.Once
	p    [][2]*ratchet.Ratchet
	err  error
}

// makePairs performs n genuine key exchanges.
func makePairs(n int) ([][2]*ratchet.Ratchet, error) {
	out := make([][2]*ratchet.Ratchet, n)
	var mu sync.Mutex
	var ferr error
	parallel(n, 4, func(i int) {
		a, b := newID(fmt.Sprintf("a%d", i)), newID(fmt.Sprintf("b%d", i))
		ra, rb, err := pairRatchets(a, b)
		mu.Lock()
		if err != nil {
			ferr = err
		}
		mu.Unlock()
		out[i] = [2]*ratchet.Ratchet{ra, rb}
	})
	return out, ferr
}

func cloneRatchet(r *ratchet.Ratchet, now time.Time) (*ratchet.Ratchet, error) {
	st, err := xdrState(r.Marshal(now, 1<<40))
	if err != nil {
		return nil, err
	}
	n := ratchet.New(rand.Reader)
	n.MyPrivateKey, n.MySigningPublic = r.MyPrivateKey, r.MySigningPublic
	n.TheirIdentityPublic, n.TheirSigningPublic, n.TheirPublicKey = r.TheirIdentityPublic, r.TheirSigningPublic, r.TheirPublicKey
	return n, n.Unmarshal(st)
}
