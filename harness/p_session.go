package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/companyzero/zkc/session"
)

func init() {
	register("P01", checkHandshake)
	register("P02", checkChannel)
	register("P03", checkConcurrentHandshakes)
}

const sessMax = 64 * 1024

// mitm relays frames between two connections. Frame 0 from the initiator is
// the fixed size first ciphertext.
type mitm struct {
	act  func(fromInit bool, idx int, f []byte) (out [][]byte, stop bool)
	wire struct {
		sync.Mutex
		i2r, r2i [][]byte
	}
	a, b *memConn // towards the initiator, towards the responder
	wg   sync.WaitGroup
}

func (m *mitm) run(firstFixed bool) {
	pump := func(src, dst *memConn, fromInit bool) {
		defer m.wg.Done()
		for n := 0; ; n++ {
			var f []byte
			var err error
			if n == 0 && fromInit && firstFixed {
				f, err = readFixed(src, ntruCt)
			} else {
				f, err = readFrame(src)
			}
			if err != nil {
				dst.w.Close()
				return
			}
			m.wire.Lock()
			if fromInit {
				m.wire.i2r = append(m.wire.i2r, f)
			} else {
				m.wire.r2i = append(m.wire.r2i, f)
			}
			m.wire.Unlock()
			out, stop := [][]byte{f}, false
			if m.act != nil {
				out, stop = m.act(fromInit, n, append([]byte{}, f...))
			}
			for _, o := range out {
				dst.w.Write(o)
			}
			if stop {
				m.a.Close()
				m.b.Close()
				return
			}
		}
	}
	m.wg.Add(2)
	go pump(m.a, m.b, true)
	go pump(m.b, m.a, false)
}

// link makes initiator and responder connections with m between them.
func (m *mitm) link() (ci, cr *memConn) {
	ci, m.a = memPair()
	m.b, cr = memPair()
	m.run(true)
	return
}

func newKX(c net.Conn, our refKey, their *[ntruPub]byte) *session.KX {
	return &session.KX{Conn: c, MaxMessageSize: sessMax, OurPrivateKey: our.sec,
		OurPublicKey: our.pub, TheirPublicKey: their}
}

// handshake runs both sides to their end; errors leave the connection closed.
func handshake(i, r *session.KX) (ei, er error, pan any) {
	var wg sync.WaitGroup
	var pi, pr any
	side := func(f func() error, k *session.KX, e *error, p *any) {
		defer wg.Done()
		defer func() {
			if x := recover(); x != nil {
				*p = x
				k.Close()
			}
		}()
		*e = f()
		if *e != nil {
			k.Close()
		}
	}
	wg.Add(2)
	go side(i.Initiate, i, &ei, &pi)
	go side(r.Respond, r, &er, &pr)
	wg.Wait()
	if pi != nil {
		return ei, er, fmt.Sprintf("Initiate: %v", pi)
	}
	if pr != nil {
		return ei, er, fmt.Sprintf("Respond: %v", pr)
	}
	return
}

type chatter interface {
	Read() ([]byte, error)
	Write([]byte) error
}

type refChat struct{ c *refChan }

func (r refChat) Read() ([]byte, error) { return r.c.recv(&r.c.rkey) }
func (r refChat) Write(b []byte) error  { return r.c.send(b, &r.c.wkey) }

// talk exchanges messages both ways and reports the first mismatch.
func talk(rg *rand.Rand, a, b chatter, n int) error {
	for k := 0; k < n; k++ {
		x, y := a, b
		if rg.Intn(2) == 0 {
			x, y = b, a
		}
		sz := []int{0, 1, 2, 3, 4, 15, 16, 17, 100, 1024, 4096, sessMax - 16}[rg.Intn(12)]
		m := randBytes(rg, sz)
		if err := x.Write(m); err != nil {
			return fmt.Errorf("write of %d bytes: %v", sz, err)
		}
		g, err := y.Read()
		if err != nil {
			return fmt.Errorf("read of %d bytes: %v", sz, err)
		}
		if !bytes.Equal(g, m) {
			return fmt.Errorf("message of %d bytes arrived altered", sz)
		}
	}
	return nil
}

// flights tells, per direction, whether frame idx is the last before the
// other side has to speak.
func lastOfFlight(fromInit bool, idx int) bool {
	if fromInit {
		return idx == 1 || idx == 4
	}
	return idx == 2 || idx == 4
}

func kid(k *session.KX) [32]byte { return k.TheirIdentity().([32]byte) }

func checkHandshake(r *Report) {
	r.Rule = "one case = one handshake between the real initiator and/or responder and an honest, impostor or tampering counterpart; distinct by role, attack and position; trivial: none"
	r.Assume = []string{"the NTRU Prime and NaCl primitives are sound", "an attacker does not hold the victim's private key"}
	session.Init()
	rg := sub(r.Seed, "P01")
	keys := make([]refKey, 5)
	parallel(len(keys), 5, func(i int) { keys[i] = newRefKey() })
	cl, sv, other, evil := keys[0], keys[1], keys[2], keys[3]
	wd := 120 * time.Second

	// --- honest runs, against the real code and the reference peer
	type sess struct{ i2r, r2i [][]byte }
	var old []sess
	for n := 0; n < r.pick(12, 60); n++ {
		c, s := keys[n%5], keys[(n+1+n/5)%5]
		if c == s {
			continue
		}
		for _, mode := range []string{"real-real", "ref-real", "real-ref"} {
			m := &mitm{}
			ci, cr := m.link()
			key := fmt.Sprintf("honest/%s/%d", mode, n)
			var err error
			ok := withTimeout(wd, func() {
				r.Guard("panic:honest", key, func() {
					switch mode {
					case "real-real":
						ki, kr := newKX(ci, c, s.pub), newKX(cr, s, nil)
						ei, er, p := handshake(ki, kr)
						if p != nil {
							panic(p)
						}
						if ei != nil || er != nil {
							err = fmt.Errorf("handshake refused: initiator %v, responder %v", ei, er)
							return
						}
						if kid(ki) != s.id() || kid(kr) != c.id() {
							err = fmt.Errorf("wrong identity reported")
							return
						}
						err = talk(rg, ki, kr, 12)
					case "ref-real":
						kr := newKX(cr, s, nil)
						var rc *refChan
						var e1, e2 error
						var wg sync.WaitGroup
						wg.Add(1)
						go func() { defer wg.Done(); rc, e1 = refInitiate(ci, c, s.pub, refOpts{}) }()
						if e2 = kr.Respond(); e2 != nil {
							kr.Close()
						}
						wg.Wait()
						if e1 != nil || e2 != nil {
							err = fmt.Errorf("reference initiator %v, responder %v", e1, e2)
							return
						}
						if kid(kr) != c.id() {
							err = fmt.Errorf("wrong identity reported")
							return
						}
						err = talk(rg, refChat{rc}, kr, 12)
					case "real-ref":
						ki := newKX(ci, c, s.pub)
						var rc *refChan
						var tp *[ntruPub]byte
						var e1, e2 error
						var wg sync.WaitGroup
						wg.Add(1)
						go func() { defer wg.Done(); rc, tp, e2 = refRespond(cr, s, refOpts{}) }()
						if e1 = ki.Initiate(); e1 != nil {
							ki.Close()
						}
						wg.Wait()
						if e1 != nil || e2 != nil {
							err = fmt.Errorf("initiator %v, reference responder %v", e1, e2)
							return
						}
						if *tp != *c.pub || kid(ki) != s.id() {
							err = fmt.Errorf("wrong identity")
							return
						}
						err = talk(rg, ki, refChat{rc}, 12)
					}
				})
			})
			r.Case(key)
			r.Count("honest_handshakes", 1)
			if !ok {
				r.Violate("honest-hang", key+": did not finish", nil)
			}
			if err != nil {
				r.Violate("honest", key+": "+err.Error(), nil)
			}
			// identities and traffic keys must not show on the wire
			m.wire.Lock()
			all := append(append([][]byte{}, m.wire.i2r...), m.wire.r2i...)
			m.wire.Unlock()
			for _, f := range all {
				if bytes.Contains(f, c.pub[:64]) || bytes.Contains(f, s.pub[:64]) {
					r.Violate("identity-in-clear", key+": an identity key crosses the wire in clear", nil)
				}
			}
			if mode == "real-real" && c.pub == cl.pub && s.pub == sv.pub {
				old = append(old, sess{m.wire.i2r, m.wire.r2i})
			}
			ci.Close()
			cr.Close()
		}
	}
	r.Sample("honest/real-real/0: initiator and responder complete, identities match, 12 messages each way intact")
	if len(old) == 0 {
		m := &mitm{}
		ci, cr := m.link()
		ki, kr := newKX(ci, cl, sv.pub), newKX(cr, sv, nil)
		handshake(ki, kr)
		old = append(old, sess{m.wire.i2r, m.wire.r2i})
	}

	// --- tampering with the handshake between honest parties
	type tcase struct {
		init bool
		idx  int
		op   string
		pos  int
	}
	var tcs []tcase
	sizes := map[bool][]int{true: {ntruCt, ntruPub + 16, ntruCt + 16, ntruPub + 16, 48},
		false: {ntruCt + 16, ntruPub + 16, 48, ntruCt + 16, 48}}
	for _, in := range []bool{true, false} {
		for idx := 0; idx < 5; idx++ {
			dl := sizes[in][idx]
			off := 4
			if in && idx == 0 {
				off = 0
			}
			pos := []int{off, off + 15, off + 16, off + dl/2, off + dl - 1}
			for k := 0; k < r.pick(3, 60); k++ {
				pos = append(pos, off+rg.Intn(dl))
			}
			if off == 4 {
				pos = append(pos, 3) // length
			}
			for _, p := range pos {
				tcs = append(tcs, tcase{in, idx, "flip", p})
			}
			for _, op := range []string{"zero", "random", "drop", "dup", "old", "truncate", "empty", "huge", "reflect", "short", "long"} {
				tcs = append(tcs, tcase{in, idx, op, rg.Intn(1 << 20)})
			}
		}
	}
	parallel(len(tcs), 8, func(n int) {
		tc := tcs[n]
		lrg := sub(r.Seed, "P01t", n)
		key := fmt.Sprintf("tamper/init=%v/frame=%d/%s/%d", tc.init, tc.idx, tc.op, tc.pos)
		var tampered atomic.Bool
		var lastSeen [2][]byte
		m := &mitm{}
		m.act = func(fi bool, i int, f []byte) ([][]byte, bool) {
			d := 0
			if fi {
				d = 1
			}
			m.wire.Lock()
			lastSeen[d] = f
			opp := lastSeen[1-d]
			m.wire.Unlock()
			if fi != tc.init || i != tc.idx {
				stop := tampered.Load() && fi == tc.init && (tc.op == "drop") && lastOfFlight(fi, i)
				return [][]byte{f}, stop
			}
			tampered.Store(true)
			fixed := fi && i == 0
			switch tc.op {
			case "flip":
				f[tc.pos] ^= 1 << lrg.Intn(8)
				if tc.pos < 4 && !fixed {
					return [][]byte{f}, true // length changed: cut the stream after it
				}
				return [][]byte{f}, false
			case "zero":
				o := 4
				if fixed {
					o = 0
				}
				for k := o; k < len(f); k++ {
					f[k] = 0
				}
				return [][]byte{f}, false
			case "random":
				o := 4
				if fixed {
					o = 0
				}
				lrg.Read(f[o:])
				return [][]byte{f}, false
			case "drop":
				return nil, lastOfFlight(fi, i)
			case "dup":
				return [][]byte{f, f}, false
			case "old":
				s := old[lrg.Intn(len(old))]
				if fi {
					return [][]byte{s.i2r[i]}, false
				}
				return [][]byte{s.r2i[i]}, false
			case "truncate":
				return [][]byte{f[:tc.pos%len(f)]}, true
			case "empty":
				return [][]byte{mkFrame(nil)}, true
			case "huge":
				var h [8]byte
				binary.BigEndian.PutUint32(h[:], 0x7fffffff)
				return [][]byte{h[:]}, true
			case "reflect":
				if opp == nil {
					opp = mkFrame(make([]byte, 48))
				}
				return [][]byte{opp}, true
			case "short":
				if fixed {
					return [][]byte{f[:len(f)-4]}, true
				}
				d := frameData(f)
				return [][]byte{mkFrame(d[:len(d)-1])}, false
			case "long":
				if fixed {
					f[len(f)-2] ^= 1
					return [][]byte{f}, false
				}
				d := frameData(f)
				return [][]byte{mkFrame(append(append([]byte{}, d...), 0))}, false
			}
			return [][]byte{f}, false
		}
		ci, cr := m.link()
		ki, kr := newKX(ci, cl, sv.pub), newKX(cr, sv, nil)
		var ei, er error
		var p any
		ok := withTimeout(wd, func() { ei, er, p = handshake(ki, kr) })
		r.Case(key)
		if !ok {
			ci.Close()
			cr.Close()
			r.Violate("tamper-hang", key+": neither side gave up although the peer was gone", tc)
			return
		}
		if p != nil {
			r.Violate("tamper-panic", fmt.Sprintf("%s: %v", key, p), tc)
			return
		}
		if !tampered.Load() {
			r.Count("tamper_not_reached", 1)
			return
		}
		r.Count("tampered_handshakes", 1)
		rcv := er
		if !tc.init {
			rcv = ei
		}
		// a duplicate of the last frame arrives after the handshake
		if tc.op == "dup" && tc.idx == 4 {
			var k *session.KX = kr
			if !tc.init {
				k = ki
			}
			if rcv == nil {
				if d, err := k.Read(); err == nil {
					r.Violate("tamper-dup-data", fmt.Sprintf("%s: a repeated handshake frame was read as %d bytes of data", key, len(d)), tc)
				}
			}
			ci.Close()
			cr.Close()
			return
		}
		ci.Close()
		cr.Close()
		if rcv == nil {
			r.Violate("tamper-accepted", key+": the side that received the altered message completed the handshake", tc)
		}
	})
	r.Sample(fmt.Sprintf("%+v: receiver must refuse", tcs[0]))
	r.Sample(fmt.Sprintf("%+v: receiver must refuse", tcs[len(tcs)/2]))

	// --- replay of a whole recorded handshake
	for n := 0; n < r.pick(4, 30); n++ {
		s := old[n%len(old)]
		a, b := memPair()
		kr := newKX(b, sv, nil)
		for _, f := range s.i2r {
			a.Write(f)
		}
		a.w.Close()
		var err error
		r.Guard("replay-panic", nil, func() { err = kr.Respond() })
		r.Case(fmt.Sprintf("replay/i2r/%d", n))
		r.Count("replayed_handshakes", 1)
		if err == nil {
			r.Violate("replay-accepted", "the responder completed a replayed handshake", nil)
		}
		a, b = memPair()
		ki := newKX(a, cl, sv.pub)
		for _, f := range s.r2i {
			b.Write(f)
		}
		b.w.Close()
		r.Guard("replay-panic", nil, func() { err = ki.Initiate() })
		r.Case(fmt.Sprintf("replay/r2i/%d", n))
		if err == nil {
			r.Violate("replay-accepted", "the initiator completed a replayed handshake", nil)
		}
	}

	// --- impostors
	type icase struct {
		name    string
		init    bool // the attacker plays the initiator
		o       refOpts
		refuse  bool // the real side must refuse the handshake
		attKey  refKey
		expects refKey // key the real initiator expects
	}
	var ics []icase
	for _, g := range []string{"k1", "k2", "k3", "omit", "own", "", "\x01\x02"} {
		ics = append(ics, icase{name: "client-without-key/" + g, init: true,
			o: refOpts{claimPub: cl.pub, guessLast: []byte(g)}, attKey: evil})
	}
	for _, alt := range []string{"", "zero", "nokey", "nosp", "k1", "k3", "reflect", "otherid"} {
		ics = append(ics, icase{name: "client-bad-proof/" + alt, init: true,
			o: refOpts{badProof: 1, proofAlt: alt}, attKey: evil, refuse: true})
	}
	for _, alt := range []string{"", "zero", "k2", "swap", "noeph"} {
		ics = append(ics, icase{name: "server-bad-proof1/" + alt, o: refOpts{badProof: 1, proofAlt: alt}, attKey: sv, expects: sv, refuse: true})
	}
	for _, alt := range []string{"", "zero", "k4", "nokey", "reflect"} {
		ics = append(ics, icase{name: "server-bad-proof2/" + alt, o: refOpts{badProof: 2, proofAlt: alt}, attKey: sv, expects: sv, refuse: true})
	}
	for _, g := range []string{"", "\x01", "abcdefghabcdefghabcdefghabcdefgh"} {
		ics = append(ics, icase{name: "server-without-key/" + g, o: refOpts{claimPub: sv.pub, guessLast: []byte(g)}, attKey: evil, expects: sv, refuse: true})
	}
	ics = append(ics, icase{name: "server-other-key", attKey: other, expects: sv, refuse: true})
	for w := 1; w <= 5; w++ {
		for _, d := range []int{-1, 1, -40, 17, -2000, 2000} {
			if w <= 4 {
				ics = append(ics, icase{name: fmt.Sprintf("client-size/%d/%d", w, d), init: true, o: refOpts{wrongSize: w, sizeDelta: d}, attKey: evil, refuse: true})
			}
			ics = append(ics, icase{name: fmt.Sprintf("server-size/%d/%d", w, d), o: refOpts{wrongSize: w, sizeDelta: d}, attKey: sv, expects: sv, refuse: true})
		}
	}
	parallel(len(ics), 8, func(n int) {
		ic := ics[n]
		// a size change of zero net effect is no attack
		a, b := memPair()
		r.Case("impostor/" + ic.name)
		r.Count("impostor_handshakes", 1)
		var rc *refChan
		var aerr, verr error
		var victim *session.KX
		var pan any
		ok := withTimeout(wd, func() {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				if ic.init {
					rc, aerr = refInitiate(a, ic.attKey, sv.pub, ic.o)
				} else {
					rc, _, aerr = refRespond(b, ic.attKey, ic.o)
				}
				if aerr != nil {
					if ic.init {
						a.Close()
					} else {
						b.Close()
					}
				}
			}()
			func() {
				defer func() { pan = recover() }()
				if ic.init {
					victim = newKX(b, sv, nil)
					verr = victim.Respond()
				} else {
					victim = newKX(a, cl, ic.expects.pub)
					verr = victim.Initiate()
				}
			}()
			if verr != nil || pan != nil {
				a.Close()
				b.Close()
			}
			wg.Wait()
		})
		if !ok {
			a.Close()
			b.Close()
			r.Violate("impostor-hang", ic.name+": did not finish", nil)
			return
		}
		if pan != nil {
			r.Violate("impostor-panic", fmt.Sprintf("%s: %v", ic.name, pan), nil)
			return
		}
		if ic.refuse && verr == nil {
			r.Violate("impostor-accepted", ic.name+": the handshake was completed", nil)
		}
		if verr == nil && rc != nil && aerr == nil {
			// completed on the victim's side: nothing the impostor sends
			// may be taken as data of the claimed identity
			msg := []byte("forged message from the impostor")
			for k := 0; k < 3; k++ {
				rc.send(msg, &rc.wkey)
			}
			rc.send(msg, &rc.rkey)
			a.w.Close()
			b.w.Close()
			for k := 0; k < 4; k++ {
				d, err := victim.Read()
				if err == nil {
					r.Violate("impostor-data", fmt.Sprintf("%s: %q was accepted as data of the claimed identity", ic.name, d), nil)
				}
			}
			r.Count("impostor_data_attempts", 4)
		}
		a.Close()
		b.Close()
	})
	r.Sample("impostor/" + ics[0].name)
	r.Sample("impostor/" + ics[8].name)

	// --- garbage
	for n := 0; n < r.pick(150, 3000); n++ {
		lrg := sub(r.Seed, "P01g", n)
		a, b := memPair()
		g := randBytes(lrg, lrg.Intn(3000))
		if n%3 == 0 && len(g) > 1052 { // plausible second frame length
			binary.BigEndian.PutUint32(g[1048:], uint32(lrg.Intn(2500)))
		}
		var err error
		if n%2 == 0 {
			a.Write(g)
			a.w.Close()
			k := newKX(b, sv, nil)
			r.Guard("garbage-panic", g, func() { err = k.Respond() })
		} else {
			b.Write(g)
			b.w.Close()
			k := newKX(a, cl, sv.pub)
			if n%20 == 1 { // Initiate generates keys: fewer of these
				r.Guard("garbage-panic", g, func() { err = k.Initiate() })
			} else {
				err = errRef
			}
		}
		r.Case(fmt.Sprintf("garbage/%d", n))
		if err == nil {
			r.Violate("garbage-accepted", "random bytes completed a handshake", g)
		}
	}
	r.Need("honest_handshakes", 20)
	r.Need("tampered_handshakes", 100)
	r.Need("impostor_handshakes", 20)
}

// connected returns a real handshaken pair with m in the middle.
func connected(m *mitm, cl, sv refKey, maxI, maxR uint) (*session.KX, *session.KX, *memConn, *memConn, error) {
	ci, cr := m.link()
	ki, kr := newKX(ci, cl, sv.pub), newKX(cr, sv, nil)
	ki.MaxMessageSize, kr.MaxMessageSize = maxI, maxR
	ei, er, p := handshake(ki, kr)
	if ei != nil || er != nil || p != nil {
		return nil, nil, nil, nil, fmt.Errorf("handshake: %v %v %v", ei, er, p)
	}
	return ki, kr, ci, cr, nil
}

func checkChannel(r *Report) {
	r.Rule = "one case = one established channel driven by a random schedule of sends in both directions through an adversarial wire; distinct by schedule; non-trivial when at least one frame was tampered with, reordered, replayed, dropped or refused for its size"
	session.Init()
	keys := make([]refKey, 2)
	parallel(2, 2, func(i int) { keys[i] = newRefKey() })
	cl, sv := keys[0], keys[1]
	n := r.pick(160, 4000)
	var prevMu sync.Mutex
	var prev [][]byte // frames of earlier sessions
	ctSeen := map[string]bool{}

	parallel(n, 8, func(c int) {
		rg := sub(r.Seed, "P02", c)
		var armed atomic.Bool
		// the adversary works on the frames of the data phase
		type held struct{ f []byte }
		var mu sync.Mutex
		var ops []string
		var queue [2][][]byte // recorded frames per direction
		var pending [2][]byte
		attacked := false
		mode := []string{"clean", "one", "many", "size"}[c%4]
		budget := map[string]int{"clean": 0, "one": 1, "many": 8, "size": 0}[mode]
		startAt := rg.Intn(6)
		m := &mitm{}
		arg := sub(r.Seed, "P02a", c) // the adversary's own choices
		frames := 0
		m.act = func(fi bool, i int, f []byte) ([][]byte, bool) {
			if !armed.Load() {
				return [][]byte{f}, false
			}
			d := 0
			if fi {
				d = 1
			}
			mu.Lock()
			defer mu.Unlock()
			frames++
			rec := append([]byte{}, f...)
			queue[d] = append(queue[d], rec)
			if pending[d] != nil {
				p := pending[d]
				pending[d] = nil
				return [][]byte{f, p}, false
			}
			if budget == 0 || frames < startAt || arg.Intn(3) != 0 {
				return [][]byte{f}, false
			}
			budget--
			attacked = true
			op := []string{"flip", "drop", "dup", "swap", "replay", "reflect", "old", "inject", "trunc", "extend", "zerolen", "splice"}[arg.Intn(12)]
			ops = append(ops, fmt.Sprintf("%v@%d:%s", fi, i, op))
			r.Count("attack_"+op, 1)
			switch op {
			case "flip":
				dl := len(frameData(f))
				f[4+arg.Intn(dl)] ^= 1 << arg.Intn(8)
				return [][]byte{f}, false
			case "drop":
				return nil, false
			case "dup":
				return [][]byte{f, f}, false
			case "swap":
				pending[d] = f
				return nil, false
			case "replay":
				return [][]byte{queue[d][arg.Intn(len(queue[d]))], f}, false
			case "reflect":
				if len(queue[1-d]) == 0 {
					return [][]byte{mkFrame(randBytes(arg, 40)), f}, false
				}
				return [][]byte{queue[1-d][arg.Intn(len(queue[1-d]))]}, false
			case "old":
				prevMu.Lock()
				defer prevMu.Unlock()
				if len(prev) == 0 {
					return [][]byte{mkFrame(randBytes(arg, 40)), f}, false
				}
				return [][]byte{prev[arg.Intn(len(prev))]}, false
			case "inject":
				return [][]byte{mkFrame(randBytes(arg, arg.Intn(100))), f}, false
			case "trunc":
				fd := frameData(f)
				return [][]byte{mkFrame(fd[:arg.Intn(len(fd))])}, false
			case "extend":
				fd := frameData(f)
				return [][]byte{mkFrame(append(append([]byte{}, fd...), randBytes(arg, 1+arg.Intn(9))...))}, false
			case "zerolen":
				return [][]byte{mkFrame(nil)}, false
			default: // splice: authenticator of one frame, body of another
				q := queue[d][arg.Intn(len(queue[d]))]
				fd, qd := frameData(f), frameData(q)
				if len(qd) >= 16 && len(fd) > 16 {
					x := append(append([]byte{}, qd[:16]...), fd[16:]...)
					if bytes.Equal(x, fd) {
						x[0] ^= 1
					}
					return [][]byte{mkFrame(x)}, false
				}
				return nil, false
			}
		}
		mx := uint(4096)
		if c%8 >= 4 {
			mx = 1500 + uint(rg.Intn(3000))
		}
		ki, kr, ci, cr, err := connected(m, cl, sv, mx, mx)
		if err != nil {
			r.Violate("handshake", err.Error(), nil)
			return
		}
		armed.Store(true)
		defer func() { ci.Close(); cr.Close() }()
		// sends in both directions; frames go to unbounded buffers, so
		// sends never block
		type dir struct {
			from, to *session.KX
			sent     [][]byte
			refused  int
		}
		ds := []*dir{{from: ki, to: kr}, {from: kr, to: ki}}
		total := 6 + rg.Intn(20)
		for k := 0; k < total; k++ {
			d := ds[rg.Intn(2)]
			sz := rg.Intn(200)
			over := false
			switch rg.Intn(8) {
			case 0:
				sz = 0
			case 1:
				sz = int(mx) - 16 // largest allowed
			case 2:
				sz = int(mx) - 16 - rg.Intn(8)
			case 3, 4:
				if mode == "size" {
					sz = int(mx) - 15 + []int{0, 0, 1, 17, 5000}[rg.Intn(5)]
					over = true
				}
			}
			msg := randBytes(rg, sz)
			if rg.Intn(4) == 0 { // repeat an earlier plaintext
				if len(d.sent) > 0 && !over {
					msg = d.sent[rg.Intn(len(d.sent))]
				}
			}
			var werr error
			if !r.Guard("write-panic", nil, func() { werr = d.from.Write(msg) }) {
				return
			}
			if over {
				d.refused++
				r.Count("oversize_refused", 1)
				if werr == nil {
					r.Violate("oversize-accepted", fmt.Sprintf("a message of %d bytes was accepted with a limit of %d", len(msg), mx), nil)
					return
				}
				if !errors.Is(werr, session.ErrOverflow) {
					r.Violate("oversize-error", fmt.Sprintf("oversize write reported %v", werr), nil)
				}
				continue
			}
			if werr != nil {
				r.Violate("write-refused", fmt.Sprintf("a message of %d bytes was refused with a limit of %d after %d refused ones: %v", len(msg), mx, d.refused, werr), nil)
				return
			}
			d.sent = append(d.sent, msg)
		}
		// end of stream after everything written
		ci.w.Close()
		cr.w.Close()
		m.wg.Wait()
		mu.Lock()
		att, opl := attacked, append([]string{}, ops...)
		mu.Unlock()
		key := fmt.Sprintf("%s/%d/%v", mode, c, opl)
		if !att && ds[0].refused+ds[1].refused == 0 {
			r.Case("")
		} else {
			r.Case(key)
		}
		r.Count("channels", 1)
		for di, d := range ds {
			pos := 0
			fails := 0
			for reads := 0; reads < 200; reads++ {
				var g []byte
				var err error
				if !r.Guard("read-panic", opl, func() { g, err = d.to.Read() }) {
					return
				}
				if err != nil {
					fails++
					if isEOF(err) {
						break
					}
					if fails > 60 {
						break
					}
					continue
				}
				r.Count("messages_delivered", 1)
				// position based: delivered messages are sent messages, in order
				found := -1
				for p := pos; p < len(d.sent); p++ {
					if bytes.Equal(d.sent[p], g) {
						found = p
						break
					}
				}
				if found < 0 {
					r.Violate("foreign-data", fmt.Sprintf("%s: direction %d delivered %d bytes that were not sent at or after position %d", key, di, len(g), pos), opl)
					return
				}
				if fails == 0 && found != pos {
					r.Violate("gap", fmt.Sprintf("%s: direction %d delivered message %d where %d was due, without an error", key, di, found, pos), opl)
					return
				}
				pos = found + 1
			}
			if !att && pos != len(d.sent) {
				r.Violate("lost", fmt.Sprintf("%s: direction %d delivered %d of %d messages on an untouched wire (%d refused for size)", key, di, pos, len(d.sent), d.refused), nil)
			}
		}
		// equal plaintexts never give equal wire data
		m.wire.Lock()
		for _, fs := range [][][]byte{m.wire.i2r, m.wire.r2i} {
			for _, f := range fs {
				fd := frameData2(f)
				if len(fd) < 16 {
					continue
				}
				prevMu.Lock()
				if ctSeen[string(fd)] {
					r.Violate("repeated-ciphertext", key+": the same ciphertext appeared twice on the wire", nil)
				}
				ctSeen[string(fd)] = true
				if len(prev) < 500 && armed.Load() {
					prev = append(prev, f)
				}
				prevMu.Unlock()
			}
		}
		for _, d := range ds {
			for _, s := range d.sent {
				if len(s) < 24 {
					continue
				}
				for _, fs := range [][][]byte{m.wire.i2r, m.wire.r2i} {
					for _, f := range fs {
						if bytes.Contains(f, s[:24]) {
							r.Violate("plaintext-on-wire", key+": message content crosses the wire in clear", nil)
						}
					}
				}
			}
		}
		m.wire.Unlock()
		if c < 8 {
			r.Sample(key)
		}
	})
	// long channel: the message counter crosses byte boundaries
	m := &mitm{}
	ki, kr, ci, cr, err := connected(m, cl, sv, 4096, 4096)
	if err != nil {
		r.Violate("handshake", err.Error(), nil)
		return
	}
	long := r.pick(70000, 400000)
	bad := 0
	for k := 0; k < long && bad == 0; k++ {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(k))
		if err := ki.Write(b[:]); err != nil {
			r.Violate("long-write", fmt.Sprintf("message %d: %v", k, err), nil)
			bad++
			break
		}
		g, err := kr.Read()
		if err != nil || !bytes.Equal(g, b[:]) {
			r.Violate("long-read", fmt.Sprintf("message %d: %v", k, err), nil)
			bad++
		}
	}
	seen := map[string]int{}
	m.wire.Lock()
	for k, f := range m.wire.i2r {
		// same 8 byte values never repeat, so compare keystreams
		fd := frameData2(f)
		if k < 5 || len(fd) != 24 {
			continue
		}
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(k-5))
		ks := make([]byte, 8)
		for j := range ks {
			ks[j] = fd[16+j] ^ b[j]
		}
		if o, ok := seen[string(ks)]; ok {
			r.Violate("keystream-reuse", fmt.Sprintf("messages %d and %d use the same keystream", o, k-5), nil)
			break
		}
		seen[string(ks)] = k - 5
	}
	m.wire.Unlock()
	r.Count("long_channel_messages", long)
	r.Case("long")
	ci.Close()
	cr.Close()
	r.Need("messages_delivered", 500)
	r.Need("channels", 50)
}

func frameData2(f []byte) []byte {
	if len(f) < 4 {
		return nil
	}
	n := binary.BigEndian.Uint32(f[:4])
	if int(n) > len(f)-4 {
		return f // the fixed first ciphertext
	}
	return f[4 : 4+n]
}

func isEOF(err error) bool {
	return err != nil && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) || bytes.Contains([]byte(err.Error()), []byte("EOF")))
}

// rotateConn starts the server side once more, which rotates the ephemeral
// keys, at some point of a key exchange.
type rotateConn struct {
	net.Conn
	n, at int32
	r     *Report
}

func (c *rotateConn) rotate() {
	if atomic.AddInt32(&c.n, 1) == c.at {
		session.Init()
		c.r.Count("rotations_during_handshake", 1)
	}
}

func (c *rotateConn) Read(b []byte) (int, error) {
	c.rotate()
	return c.Conn.Read(b)
}

func (c *rotateConn) Write(b []byte) (int, error) {
	c.rotate()
	return c.Conn.Write(b)
}

func checkConcurrentHandshakes(r *Report) {
	r.Rule = "one case = one handshake (plus data exchange) run at the same time as others in the same process, as initiator, responder or both; distinct by (round, slot); non-trivial when at least one other handshake overlapped"
	session.Init()
	keys := make([]refKey, 6)
	parallel(6, 6, func(i int) { keys[i] = newRefKey() })
	// responders that start while the ephemeral keys are being replaced:
	// every exchange must work with one pair, old or new
	rotations := r.pick(60, 600)
	var stop atomic.Bool
	var bg, fg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		for k := 0; k < rotations; k++ {
			session.Init()
			r.Count("background_rotations", 1)
		}
		stop.Store(true)
	}()
	for w := 0; w < 2; w++ {
		fg.Add(1)
		go func() { // exchanges whose peer is gone at once: they only take the keys
			defer fg.Done()
			started := 0
			defer func() { r.Count("responders_started_during_rotation", started) }()
			for !stop.Load() {
				a, b := memPair()
				a.Close()
				if newKX(b, keys[0], nil).Respond() == nil {
					r.Violate("no-peer", "an exchange without a peer succeeded", nil)
				}
				b.Close()
				started++
			}
		}()
	}
	for w := 0; w < 3; w++ {
		fg.Add(1)
		go func(w int) {
			defer fg.Done()
			for k := 0; k < 40 && !stop.Load(); k++ {
				rg := sub(r.Seed, "P03r", w, k)
				a, b := memPair()
				var e1, e2, e3 error
				ok := withTimeout(180*time.Second, func() {
					kr := newKX(b, keys[w], nil)
					var rc *refChan
					d := make(chan struct{})
					go func() { defer close(d); rc, e1 = refInitiate(a, keys[w+1], keys[w].pub, refOpts{}) }()
					if e2 = kr.Respond(); e2 != nil {
						kr.Close()
					}
					<-d
					if e1 == nil && e2 == nil {
						e3 = talk(rg, refChat{rc}, kr, 4)
					}
				})
				a.Close()
				b.Close()
				r.Case(fmt.Sprintf("rotation/%d/%d", w, k))
				if !ok || e1 != nil || e2 != nil || e3 != nil {
					r.Violate("rotation", fmt.Sprintf("an exchange that ran while the ephemeral keys were replaced failed: initiator %v, responder %v, talk %v (finished %v)", e1, e2, e3, ok), nil)
					return
				}
			}
		}(w)
	}
	bg.Wait()
	fg.Wait()
	rounds := r.pick(6, 60)
	var ephSeen sync.Map
	for rd := 0; rd < rounds; rd++ {
		w := 8 + 8*(rd%2)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var running, peak int32
		for s := 0; s < w; s++ {
			wg.Add(1)
			go func(rd, s int) {
				defer wg.Done()
				rg := sub(r.Seed, "P03", rd, s)
				c, v := keys[s%6], keys[(s+1+rd)%6]
				if c == v {
					v = keys[(s+2+rd)%6]
				}
				m := &mitm{}
				ci, link := m.link()
				defer func() { ci.Close(); link.Close() }()
				var cr net.Conn = link
				mode := []string{"real-real", "real-ref", "ref-real"}[rg.Intn(3)]
				if s%3 == 0 && mode != "real-ref" {
					// the ephemeral keys rotate during the exchange
					cr = &rotateConn{Conn: cr, at: int32(1 + rg.Intn(16)), r: r}
				}
				key := fmt.Sprintf("%d/%d/%s", rd, s, mode)
				<-start
				if n := atomic.AddInt32(&running, 1); n > 1 {
					for {
						o := atomic.LoadInt32(&peak)
						if n <= o || atomic.CompareAndSwapInt32(&peak, o, n) {
							break
						}
					}
				}
				defer atomic.AddInt32(&running, -1)
				var err error
				ok := withTimeout(180*time.Second, func() {
					switch mode {
					case "real-real":
						ki, kr := newKX(ci, c, v.pub), newKX(cr, v, nil)
						ei, er, p := handshake(ki, kr)
						if ei != nil || er != nil || p != nil {
							err = fmt.Errorf("initiator %v responder %v panic %v", ei, er, p)
							return
						}
						if kid(kr) != c.id() || kid(ki) != v.id() {
							err = fmt.Errorf("identities mixed up")
							return
						}
						err = talk(rg, ki, kr, 20)
					case "real-ref":
						ki := newKX(ci, c, v.pub)
						var e2 error
						var rc *refChan
						d := make(chan struct{})
						var te []byte
						go func() { defer close(d); rc, _, e2 = refRespond(cr, v, refOpts{eph: &te}) }()
						e1 := ki.Initiate()
						if e1 != nil {
							ki.Close()
						}
						<-d
						if e1 != nil || e2 != nil {
							err = fmt.Errorf("initiator %v, reference responder %v", e1, e2)
							return
						}
						if _, used := ephSeen.LoadOrStore(string(te), true); used {
							err = fmt.Errorf("the initiator used the same ephemeral key in two exchanges")
							return
						}
						for _, k := range keys {
							if string(te) == string(k.pub[:]) {
								err = fmt.Errorf("the initiator used a long term key as its ephemeral key")
								return
							}
						}
						err = talk(rg, ki, refChat{rc}, 20)
					case "ref-real":
						kr := newKX(cr, v, nil)
						var e1 error
						var rc *refChan
						d := make(chan struct{})
						go func() { defer close(d); rc, e1 = refInitiate(ci, c, v.pub, refOpts{}) }()
						e2 := kr.Respond()
						if e2 != nil {
							kr.Close()
						}
						<-d
						if e1 != nil || e2 != nil {
							err = fmt.Errorf("reference initiator %v, responder %v", e1, e2)
							return
						}
						if kid(kr) != c.id() {
							err = fmt.Errorf("identities mixed up")
							return
						}
						err = talk(rg, refChat{rc}, kr, 20)
					}
				})
				r.Case(key)
				r.Count("handshakes_"+mode, 1)
				if !ok {
					r.Violate("hang", key+": an honest handshake did not finish next to others", nil)
					return
				}
				if err != nil {
					r.Violate("interference", key+": "+err.Error(), nil)
				}
			}(rd, s)
		}
		close(start)
		wg.Wait()
		r.Count("peak_overlap_sum", int(peak))
	}
	r.Need("responders_started_during_rotation", 5)
	r.Sample("round 0: 8 overlapping handshakes, each must complete and talk")
	r.Need("peak_overlap_sum", rounds*2)
	r.Need("rotations_during_handshake", rounds)
}
