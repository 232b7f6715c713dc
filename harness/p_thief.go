package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
)

// P34: what a thief of the keys of a conversation can and cannot do.

// stateOpens searches a saved state for a key that opens the body of ct: any
// of its keys as header key, any of them, or a key derived from them as the
// chains do, as message key.
// known are halves of the exchange that the thief has otherwise: the one sent
// to the robbed side opens with its identity.
func stateOpens(st *disk.RatchetState, ct []byte, steps int, known ...[]byte) (opened, header bool, what string) {
	if len(ct) < 104 {
		return
	}
	all := map[string][]byte{"root": st.RootKey, "send header": st.SendHeaderKey, "receive header": st.RecvHeaderKey,
		"next send header": st.NextSendHeaderKey, "next receive header": st.NextRecvHeaderKey, "send chain": st.SendChainKey,
		"receive chain": st.RecvChainKey, "private": st.SendRatchetPrivate, "half": st.MyHalf, "their half": st.TheirHalf}
	// two halves give the keys a conversation begins with
	halves := append([][]byte{st.MyHalf, st.TheirHalf}, known...)
	for i, a := range halves {
		for j, b := range halves {
			if i == j || len(a) != 32 || len(b) != 32 || bytes.Equal(a, b) {
				continue
			}
			m := sha256.Sum256(append(append([]byte{}, a...), b...))
			for _, l := range []string{"root key", "header key", "next send header key", "next receive header key", "chain key"} {
				h := hmac.New(sha256.New, m[:])
				h.Write([]byte(l))
				all[fmt.Sprintf("first %s (of the kept halves %d and %d of the exchange)", l, i, j)] = h.Sum(nil)
			}
		}
	}
	heads := map[string][]byte{}
	for k, v := range all {
		heads[k] = v
	}
	for i, s := range st.SavedKeys {
		heads[fmt.Sprintf("saved header %d", i)] = s.HeaderKey
		for _, m := range s.MessageKeys {
			all[fmt.Sprintf("saved message %d.%d", i, m.Num)] = m.Key
		}
	}
	var n [24]byte
	copy(n[:], ct)
	for hn, hk := range heads {
		if len(hk) != 32 {
			continue
		}
		hd, ok := secretbox.Open(nil, ct[24:104], &n, (*[32]byte)(hk))
		if !ok || len(hd) < 64 {
			continue
		}
		header = true
		var bn [24]byte
		copy(bn[:], hd[40:])
		for kn, base := range all {
			if len(base) != 32 {
				continue
			}
			cur := append([]byte{}, base...)
			for s := 0; s <= steps; s++ {
				if _, ok := secretbox.Open(nil, ct[104:], &bn, (*[32]byte)(cur)); ok {
					return true, true, fmt.Sprintf("%s key, step %d (header: %s key)", kn, s, hn)
				}
				h := hmac.New(sha256.New, cur)
				h.Write(messageLabel)
				mk := h.Sum(nil)
				if _, ok := secretbox.Open(nil, ct[104:], &bn, (*[32]byte)(mk)); ok {
					return true, true, fmt.Sprintf("message key derived from the %s key, step %d (header: %s key)", kn, s, hn)
				}
				h = hmac.New(sha256.New, cur)
				h.Write([]byte("chain key step"))
				cur = h.Sum(nil)
			}
		}
	}
	return
}

var messageLabel = []byte("message key")

// tmsg is a message of a watched conversation.
type tmsg struct {
	from, chain, basis int // basis: the last chain of the other side its sender had received
	num                int
	ct                 []byte
}

type theft struct {
	at     int // messages sent by then
	victim int
	chain  int // the victim's sending chain by then
	state  *disk.RatchetState
	twin   *ratchet.Ratchet // does all the victim does, with randomness of its own
}

// thiefWorld runs one conversation that is robbed at random moments.
func thiefWorld(r *Report, key string, ra, rb *ratchet.Ratchet, rg *mrand.Rand, steps int, nonces *sync.Map) error {
	type side struct {
		r                *ratchet.Ratchet
		send, recv, nnum int
		pending          bool
	}
	s := [2]*side{{r: ra, send: 0, recv: -1}, {r: rb, send: -1, pending: true, recv: 0}}
	basis := [2]map[int]int{{0: -1}, {}}
	var msgs []*tmsg
	var queue [2][]*tmsg // towards each side
	var thefts []*theft
	now := time.Unix(1_600_000_000, 0)
	for step := 0; step < steps; step++ {
		x := rg.Intn(100)
		who := rg.Intn(2)
		switch {
		case x < 42: // send
			me := s[who]
			if me.pending {
				me.pending = false
				me.send++
				me.nnum = 0
				basis[who][me.send] = me.recv
			}
			m := &tmsg{from: who, chain: me.send, basis: basis[who][me.send], num: me.nnum}
			me.nnum++
			pt := randBytes(rg, 16+rg.Intn(60))
			// what the thief of this side would send in its place
			for _, t := range thefts {
				if t.victim != who {
					continue
				}
				fake, err := t.twin.Encrypt(nil, []byte("from the thief"))
				if err != nil {
					return fmt.Errorf("twin: %v", err)
				}
				// to a copy of the receiver that has received everything
				if len(queue[1-who]) == 0 {
					c, err := cloneRatchet(s[1-who].r, now)
					if err != nil {
						return err
					}
					c.Now = func() time.Time { return now }
					_, err = c.Decrypt(fake)
					// the receiver knows a newer chain of the victim, or it is
					// the one from before the theft
					healed := s[1-who].recv > t.chain
					if healed {
						r.Count("thief_sends_after_healing", 1)
						if err == nil {
							return fmt.Errorf("a message made with keys stolen %d messages ago is accepted although a new chain of the victim has been received since (chain %d, stolen in %d)", len(msgs)-t.at, s[1-who].recv, t.chain)
						}
					} else if err == nil {
						r.Count("thief_sends_before_healing", 1)
					}
				}
			}
			ct, err := me.r.Encrypt(nil, append([]byte{}, pt...))
			if err != nil {
				return fmt.Errorf("Encrypt: %v", err)
			}
			m.ct = ct
			if _, dup := nonces.LoadOrStore(string(ct[:24]), true); dup {
				return fmt.Errorf("a header nonce was used twice")
			}
			msgs = append(msgs, m)
			queue[1-who] = append(queue[1-who], m)
			r.Count("sent", 1)
			// what thieves can read of it
			for _, t := range thefts {
				safe := m.from == t.victim && m.chain > t.chain || m.from != t.victim && m.basis > t.chain
				ok, head, how := stateOpens(t.state, ct, 90)
				if !ok {
					ok, head, how = stateOpens(t.twin.Marshal(now, 1<<40), ct, 90)
				}
				if safe {
					r.Count("thief_reads_after_healing", 1)
					if head {
						r.Count("thief_sees_header_only", 1)
					}
					if ok {
						return fmt.Errorf("keys stolen %d messages ago open a message (side %d, chain %d number %d) of a chain they must not open: %s", len(msgs)-t.at, m.from, m.chain, m.num, how)
					}
				} else if ok {
					r.Count("thief_reads_before_healing", 1)
				}
			}
		case x < 92: // deliver, in order
			q := queue[who]
			if len(q) == 0 {
				continue
			}
			i := 0
			if len(q) > 1 && rg.Intn(4) == 0 {
				i = 1
			}
			m := q[i]
			queue[who] = append(append([]*tmsg{}, q[:i]...), q[i+1:]...)
			me := s[who]
			for _, t := range thefts {
				if t.victim != who {
					continue
				}
				safe := m.basis > t.chain
				_, err := t.twin.Decrypt(append([]byte{}, m.ct...))
				if safe {
					r.Count("thief_reads_after_healing", 1)
					if err == nil {
						return fmt.Errorf("a copy stolen %d messages ago decrypts a message of a chain that answers a newer one of the victim (basis %d, stolen in %d)", len(msgs)-t.at, m.basis, t.chain)
					}
				} else if err == nil {
					r.Count("thief_reads_before_healing", 1)
				}
			}
			if _, err := me.r.Decrypt(append([]byte{}, m.ct...)); err != nil {
				return fmt.Errorf("a message in order (side %d chain %d number %d) is refused: %v", m.from, m.chain, m.num, err)
			}
			if m.chain > me.recv {
				me.recv = m.chain
				me.pending = true
			}
			// nothing in the state opens it any more
			if ok, _, how := stateOpens(me.r.Marshal(now, 1<<40), m.ct, 3); ok {
				return fmt.Errorf("the receiver keeps a key of a received message: %s", how)
			}
			r.Count("received_probes", 1)
		case x < 95 && len(thefts) < 6:
			st, err := xdrState(s[who].r.Marshal(now, 1<<40))
			if err != nil {
				return err
			}
			tw, err := cloneRatchet(s[who].r, now)
			if err != nil {
				return err
			}
			tw.Now = func() time.Time { return now }
			thefts = append(thefts, &theft{at: len(msgs), victim: who, chain: s[who].send, state: st, twin: tw})
			r.Count("thefts", 1)
			// the thief has the sent messages too: its state opens none that
			// was sent or received before
			for _, m := range msgs {
				undelivered := false
				for _, q := range queue[who] {
					undelivered = undelivered || q == m
				}
				if undelivered {
					continue
				}
				r.Count("old_messages_probed", 1)
				if ok, _, how := stateOpens(st, m.ct, 3); ok {
					return fmt.Errorf("a stolen state opens an old message (side %d of victim %d, chain %d number %d): %s", m.from, who, m.chain, m.num, how)
				}
			}
		case len(thefts) == 6 && rg.Intn(10) == 0:
			thefts = thefts[3:]
		}
	}
	return nil
}

func p34(r *Report) {
	r.Rule = "one case = one conversation that is robbed at random moments, between two ratchets or between a real client and a played peer: a thief takes a copy of all keys and then sees all messages; distinct by schedule; non-trivial when the thief could read before the conversation healed and tried afterwards"
	var nonces sync.Map
	np := r.pick(6, 16)
	pairs, err := makePairs(np)
	if err != nil {
		r.Violate("kx", "a genuine key exchange failed: "+err.Error(), nil)
		return
	}
	parallel(np*r.pick(12, 120), 8, func(n int) {
		p := pairs[n%np]
		ra, e1 := cloneRatchet(p[0], time.Unix(0, 0))
		rb, e2 := cloneRatchet(p[1], time.Unix(0, 0))
		if e1 != nil || e2 != nil {
			r.Violate("clone", fmt.Sprintf("state of a fresh ratchet does not survive saving: %v %v", e1, e2), nil)
			return
		}
		now := time.Unix(1_600_000_000, 0)
		ra.Now = func() time.Time { return now }
		rb.Now = ra.Now
		key := fmt.Sprintf("ratchet/%d", n)
		r.Guard("panic", key, func() {
			if err := thiefWorld(r, key, ra, rb, sub(r.Seed, "P34", n), 300, &nonces); err != nil {
				r.Violate("thief", key+": "+err.Error(), nil)
			}
		})
		r.Case(key)
	})
	// every byte of the nonces varies
	var vals [24]map[byte]bool
	for i := range vals {
		vals[i] = map[byte]bool{}
	}
	nonces.Range(func(k, _ any) bool {
		for i := range vals {
			vals[i][k.(string)[i]] = true
		}
		return true
	})
	for i, v := range vals {
		if len(v) < 64 {
			r.Violate("nonce-predictable", fmt.Sprintf("byte %d of the header nonces takes %d values only", i, len(v)), nil)
		}
	}
	// two conversations of the same two people share no key
	for n := 0; n < r.pick(3, 10); n++ {
		a, b := newID("a"), newID("b")
		var sts []*disk.RatchetState
		for k := 0; k < 3; k++ {
			ra, rb, err := pairRatchets(a, b)
			if err != nil {
				r.Violate("kx", err.Error(), nil)
				return
			}
			sts = append(sts, ra.Marshal(time.Now(), 1<<40), rb.Marshal(time.Now(), 1<<40))
		}
		seen := map[string]int{}
		for i, st := range sts {
			for _, k := range [][]byte{st.RootKey, st.SendHeaderKey, st.RecvHeaderKey, st.NextSendHeaderKey, st.NextRecvHeaderKey, st.SendChainKey, st.RecvChainKey, st.SendRatchetPrivate} {
				if len(k) == 0 || bytes.Equal(k, make([]byte, 32)) {
					continue
				}
				if o, dup := seen[string(k)]; dup && o/2 != i/2 {
					r.Violate("same-keys", "two exchanges between the same people led to a common key", nil)
				}
				seen[string(k)] = i
			}
		}
		r.Case(fmt.Sprintf("same-people/%d", n))
	}
	parallel(r.pick(3, 8), 3, func(n int) { thiefClient(r, n) })
	r.Need("thefts", 50)
	r.Need("thief_reads_before_healing", 100)
	r.Need("thief_reads_after_healing", 100)
	r.Need("thief_sends_before_healing", 10)
	r.Need("thief_sends_after_healing", 50)
	r.Need("client_state_probes", 50)
	r.Need("client_thief_reads_before", 1)
	r.Need("client_started_exchanges", 1)
	r.Need("client_thief_reads_after", 10)
	r.Sample("conversation robbed at random: the stolen copy reads until the victim's next chain was answered, then nothing; nothing sent before the theft")
}

// savedRatchet reads the conversation the client saved with a peer.
func savedRatchet(c *Cli, p *Peer) (*disk.RatchetState, error) {
	id := pid(p)
	b, err := os.ReadFile(filepath.Join(c.path("inbound", hex.EncodeToString(id[:])), "ratchet.xdr"))
	if err != nil {
		return nil, err
	}
	var st disk.RatchetState
	_, err = xdr.Unmarshal(bytes.NewReader(b), &st)
	return &st, err
}

// savedStates reads everything of a conversation the client has saved, by file.
func savedStates(c *Cli, p *Peer) (map[string]*disk.RatchetState, error) {
	id := pid(p)
	dir := c.path("inbound", hex.EncodeToString(id[:]))
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	out := map[string]*disk.RatchetState{}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			continue // replaced right now
		}
		st := new(disk.RatchetState)
		if _, err := xdr.Unmarshal(bytes.NewReader(b), st); err == nil && len(st.RootKey) == 32 {
			out[e.Name()] = st
		}
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("nothing saved")
	}
	return out, nil
}

// thiefClient robs the saved conversations of a real client.
func thiefClient(r *Report, lane int) {
	rg := sub(r.Seed, "P34c", lane)
	w := &Crowd{r: r, s: newFSrv(r)}
	w.c = w.s.newClient(fmt.Sprintf("victim%d", lane))
	w.c.MustStart()
	if w.s.Conn(30*time.Second) == nil {
		r.Inconclusive("the client does not connect")
		return
	}
	var ps []*Peer
	for i := 0; i < 3; i++ {
		p := w.s.newPeer(fmt.Sprintf("peer%d", i), &w.c.ID.Public)
		p.keep = true
		if i > 0 {
			if err := p.KX(); err != nil {
				r.Inconclusive("exchange: " + err.Error())
				return
			}
		} else { // the client starts this one
			w.s.mu.Lock()
			w.s.listed[p.ID.Public.Nick] = p.ID.Public
			w.s.mu.Unlock()
			if !w.c.Type("/find "+p.ID.Public.Nick) || !p.await(30*time.Second, func() bool { return p.r != nil }) {
				r.Inconclusive("the client does not start an exchange")
				return
			}
			r.Count("client_started_exchanges", 1)
			for t := 0; t < 400; t++ {
				if _, err := savedRatchet(w.c, p); err == nil {
					break
				}
				time.Sleep(50 * time.Millisecond)
			}
		}
		ps = append(ps, p)
	}
	n := 0
	sendP := func(p *Peer) bool {
		n++
		if err := p.Send(rpc.PrivateMessage{Text: fmt.Sprintf("text %d", n)}); err != nil {
			r.Inconclusive("client: a text of a peer is not acknowledged: " + err.Error())
			return false
		}
		return true
	}
	sendC := func(p *Peer) bool {
		n++
		p.mu.Lock()
		had := len(p.got)
		p.mu.Unlock()
		if !w.c.Type(fmt.Sprintf("/m %s answer %d", p.ID.Public.Nick, n)) || !p.await(20*time.Second, func() bool { return len(p.got) > had }) {
			r.Inconclusive("client: a text of the client does not arrive: " + lastLines(w.c.Console(), 3))
			return false
		}
		return true
	}
	wire := func(p *Peer) (out [][]byte) {
		p.mu.Lock()
		defer p.mu.Unlock()
		return append(out, p.wire...)
	}
	halfOf := func(p *Peer) []byte {
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.sent != nil {
			return p.sent[:]
		}
		return nil
	}
	// the state saved by the client opens nothing that it has sent or received
	probe := func(when string) bool {
		for _, p := range ps {
			ms := wire(p)
			var how string
			ok := true
			for try := 0; try < 40; try++ { // what was just sent is saved presently
				sts, err := savedStates(w.c, p)
				ok, how = false, fmt.Sprint(err)
				if err == nil {
					ok = true
					for f, st := range sts {
						for i, m := range ms {
							if o, _, h := stateOpens(st, m, 3, halfOf(p)); o {
								ok, how = false, fmt.Sprintf("message %d of %d: %s (file %s)", i, len(ms), h, f)
								break
							}
						}
					}
				}
				if ok {
					break
				}
				if !w.c.Alive() {
					try = 40
				}
				time.Sleep(250 * time.Millisecond)
			}
			r.Count("client_state_probes", len(ms))
			if !ok {
				r.Violate("saved-keys", fmt.Sprintf("%s: what the client has saved of a conversation opens messages of it that are over: %s", when, how), map[string]any{"lane": lane})
				return false
			}
		}
		return true
	}
	type stolen struct {
		p  *Peer
		st *disk.RatchetState
		tw *ratchet.Ratchet
		at int
	}
	for rd := 0; rd < r.pick(4, 16); rd++ {
		for k := 0; k < 8; k++ {
			p := ps[rg.Intn(3)]
			if rg.Intn(2) == 0 {
				if !sendP(p) {
					return
				}
			} else if !sendC(p) {
				return
			}
		}
		if !probe("running") {
			return
		}
		// rob
		var th []*stolen
		for _, p := range ps {
			st, err := savedRatchet(w.c, p)
			if err != nil {
				r.Inconclusive("client: no saved conversation: " + err.Error())
				return
			}
			tw := ratchet.New(rand.Reader)
			if err := tw.Unmarshal(st); err != nil {
				r.Violate("saved-state", "the saved conversation does not load: "+err.Error(), nil)
				return
			}
			th = append(th, &stolen{p: p, st: st, tw: tw, at: len(wire(p))})
		}
		if rd%2 == 1 { // the client starts again
			if rg.Intn(2) == 0 {
				w.c.Kill()
			} else if !w.c.Quit() {
				w.c.Kill()
			}
			if !probe("stopped") {
				return
			}
			w.c.MustStart()
			if w.s.Conn(30*time.Second) == nil {
				r.Inconclusive("the client does not come back")
				return
			}
		}
		// two turns heal
		for _, p := range ps {
			for k := 0; k < 2; k++ {
				if !sendC(p) || !sendP(p) {
					return
				}
			}
		}
		for _, t := range th {
			for _, m := range wire(t.p)[t.at:] {
				o, _, _ := stateOpens(t.st, m, 90)
				_, err := t.tw.Decrypt(append([]byte{}, m...))
				if o || err == nil {
					r.Count("client_thief_reads_before", 1)
				}
			}
			at := len(wire(t.p))
			for k := 0; k < 2; k++ {
				if !sendC(t.p) || !sendP(t.p) {
					return
				}
			}
			for _, m := range wire(t.p)[at:] {
				o, _, how := stateOpens(t.st, m, 90)
				_, err := t.tw.Decrypt(append([]byte{}, m...))
				if err == nil {
					o, how = true, "the stolen copy goes on"
				}
				r.Count("client_thief_reads_after", 1)
				if o {
					r.Violate("client-not-healed", "a copy of the client's saved conversation opens messages that both sides sent two turns later: "+how, map[string]any{"lane": lane})
					return
				}
			}
		}
		r.Case(fmt.Sprintf("client/%d/%d", lane, rd))
	}
	// a message the client saw is not accepted again after it was killed
	w.c.Kill()
	probe("killed")
}

func init() { register("P34", p34) }
