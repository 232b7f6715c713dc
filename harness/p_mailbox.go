package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
)

func init() {
	register("P13", p13)
	register("P14", p14)
	children["deliver"] = deliverChild
}

// mailPID makes a synthetic public identity.
func mailPID(i int) zkidentity.PublicIdentity {
	var p zkidentity.PublicIdentity
	p.Name, p.Nick = fmt.Sprintf("n%d", i), fmt.Sprintf("nick%d", i)
	binary.BigEndian.PutUint32(p.Identity[:], uint32(i)+1)
	p.Identity[31] = 0xa5
	return p
}

// mail payloads carry who, to whom, which, and content derived from those
func mkMail(from, to, seq, size int) []byte {
	b := make([]byte, 12, 12+size)
	binary.BigEndian.PutUint32(b[0:], uint32(from))
	binary.BigEndian.PutUint32(b[4:], uint32(to))
	binary.BigEndian.PutUint32(b[8:], uint32(seq))
	x := uint32(from*7919+to*104729+seq*31) | 1
	for i := 0; i < size; i++ {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b = append(b, byte(x))
	}
	return b
}

func parseMail(b []byte) (from, to, seq int, ok bool) {
	if len(b) < 12 {
		return 0, 0, 0, false
	}
	from = int(binary.BigEndian.Uint32(b[0:]))
	to = int(binary.BigEndian.Uint32(b[4:]))
	seq = int(binary.BigEndian.Uint32(b[8:]))
	return from, to, seq, bytes.Equal(b, mkMail(from, to, seq, len(b)-12))
}

type mailKey struct{ from, to, seq int }

// mailbox is the monitor of one account system over its whole history.
type mailbox struct {
	r  *Report
	mu sync.Mutex
	// accepted messages and whether they were cleartext; refused ones
	accepted map[mailKey]bool
	refused  map[mailKey]bool
	size     map[mailKey]int
	acked    map[mailKey]int64 // logical time Delete returned
	handed   map[mailKey]int
	clock    int64
	logMu    sync.Mutex
	log      []string
	desc     string
	ident    func(i int) [32]byte
	tried    map[mailKey]bool     // an acknowledgement was sent, effect unknown
	at       map[mailKey][2]int64 // real times around the delivery
	clk      *clockPlan           // what the clock of the code under test shows
}

func newMailbox(r *Report, desc string) *mailbox {
	return &mailbox{r: r, accepted: map[mailKey]bool{}, refused: map[mailKey]bool{}, size: map[mailKey]int{},
		acked: map[mailKey]int64{}, handed: map[mailKey]int{}, desc: desc, tried: map[mailKey]bool{}, at: map[mailKey][2]int64{}, clk: ownClock,
		ident: func(i int) [32]byte { return mailPID(i).Identity }}
}

func (m *mailbox) ev(f string, a ...any) {
	m.logMu.Lock()
	defer m.logMu.Unlock()
	if len(m.log) > 4000 {
		m.log = m.log[2000:]
	}
	m.log = append(m.log, fmt.Sprintf(f, a...))
}

func (m *mailbox) wit() any {
	m.logMu.Lock()
	defer m.logMu.Unlock()
	l := m.log
	if len(l) > 80 {
		l = l[len(l)-80:]
	}
	return map[string]any{"case": m.desc, "last_events": append([]string(nil), l...)}
}

func (m *mailbox) violate(sig, f string, a ...any) {
	w := m.wit()
	m.r.Violate(sig, fmt.Sprintf(f, a...)+" ("+m.desc+")", w)
}

// mailSession is one online period of one account.
type mailSession struct {
	m     *mailbox
	to    int
	start int64
	seen  map[mailKey]bool
	last  map[int]int // per sender
}

func (m *mailbox) session(to int) *mailSession {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.clock++
	m.ev("account %d goes online", to)
	return &mailSession{m: m, to: to, start: m.clock, seen: map[mailKey]bool{}, last: map[int]int{}}
}

// handout checks one message handed to the owner.
func (s *mailSession) handout(from [32]byte, payload []byte, clear bool) (mailKey, bool) {
	m := s.m
	m.mu.Lock()
	defer m.mu.Unlock()
	f, t, q, ok := parseMail(payload)
	k := mailKey{f, t, q}
	if !ok {
		m.violate("damaged-message", "account %d was handed a message of %d bytes that nobody sent in that form", s.to, len(payload))
		return k, false
	}
	m.ev("account %d handed %v", s.to, k)
	m.handed[k]++
	if t != s.to {
		m.violate("wrong-recipient", "account %d was handed the message %v", s.to, k)
	}
	if from != m.ident(f) {
		m.violate("wrong-sender", "message %v was handed with sender %x", k, from[:6])
	}
	if m.refused[k] {
		m.violate("refused-delivered", "message %v was refused but handed out", k)
	}
	if n, ok := m.size[k]; ok && n+12 != len(payload) {
		m.violate("damaged-message", "message %v has %d bytes, sent with %d", k, len(payload), n+12)
	}
	if clear != (q%3 == 0) {
		m.violate("wrong-kind", "message %v handed out with cleartext=%v", k, clear)
	}
	if at, ok := m.acked[k]; ok && at < s.start {
		m.violate("redelivered-after-ack", "message %v was acknowledged before this login and handed out again", k)
	}
	if s.seen[k] {
		m.violate("twice-in-session", "message %v was handed out twice in one session", k)
	}
	s.seen[k] = true
	if l, ok := s.last[f]; ok && q < l {
		m.violate("out-of-order", "account %d was handed message %d of sender %d after %d", s.to, q, f, l)
	}
	s.last[f] = q
	return k, true
}

// received checks the time of acceptance that a message was handed out with.
func (m *mailbox) received(k mailKey, sec int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	t, ok := m.at[k]
	if !ok {
		return
	}
	if t[1] == 0 { // still being accepted, for all we know
		t[1] = realNow()
	}
	m.r.Count("times_checked", 1)
	if d := m.clk.at(realNow()) - m.clk.at(t[1]); d < -2 || d > 2 {
		m.r.Count("times_checked_later", 1)
	}
	if !m.clk.between(sec, t[0], t[1], 1) {
		m.violate("wrong-received-time", "message %v was accepted between %d and %d (real %d and %d), handed out as received at %d", k, m.clk.at(t[0]), m.clk.at(t[1]), t[0], t[1], sec)
	}
}

// offer notes a message before it is sent.
func (m *mailbox) offer(k mailKey, size int) {
	m.mu.Lock()
	m.size[k] = size
	m.at[k] = [2]int64{realNow(), 0}
	m.mu.Unlock()
}

func (m *mailbox) anUnacked(to int) (o mailKey) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := range m.accepted {
		if k.to == to && m.acked[k] == 0 && !m.tried[k] {
			return k
		}
	}
	return
}

func (m *mailbox) delivered(k mailKey, size int, err error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.size[k] = size
	if t, ok := m.at[k]; ok && err == nil {
		t[1] = realNow()
		m.at[k] = t
	}
	if err == nil {
		m.accepted[k] = true
		m.ev("accepted %v", k)
	} else {
		m.refused[k] = true
		m.ev("refused %v: %v", k, err)
	}
}

func (m *mailbox) ackedOK(k mailKey) {
	m.mu.Lock()
	m.clock++
	m.acked[k] = m.clock
	m.ev("acked %v", k)
	m.mu.Unlock()
}

func (m *mailbox) missing() []mailKey {
	m.mu.Lock()
	defer m.mu.Unlock()
	var o []mailKey
	for k := range m.accepted {
		if m.handed[k] == 0 {
			o = append(o, k)
		}
	}
	return o
}

func (m *mailbox) unacked(to int) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := 0
	for k := range m.accepted {
		if k.to == to && m.acked[k] == 0 && !m.tried[k] {
			n++
		}
	}
	return n
}

func p13(r *Report) {

	r.Rule = "a case is one random concurrent history of deliveries, logins, logouts, acknowledgements and restarts over a few accounts; distinct by its parameters and the order of events observed, non-trivial when deliveries overlapped a login"
	r.Need("accepted", 2000)
	r.Need("sessions", 200)
	r.Need("redelivered_unacked", 100)
	r.Need("times_checked_later", 50)
	r.Need("clock_changes_during_cases", 10)
	// slow histories, over which the clock is set ahead and back
	var slow sync.WaitGroup
	slow.Add(1)
	go func() {
		defer slow.Done()
		parallel(r.pick(24, 400), 6, func(c int) {
			if !r.Failed() {
				p13case(r, c, true)
			}
		})
	}()
	n := r.pick(36, 500)
	parallel(n, 6, func(c int) {
		if r.Failed() {
			return
		}
		p13case(r, c, false)
	})
	slow.Wait()
	p13race(r)
	p13live(r)
	p13old(r)
}

// p13old has mail in the mailbox that an old server version stored, which did
// not yet tell kinds apart: its records are shorter by the last field.
func p13old(r *Report) {
	r.Need("old_messages", 10)
	files := func(root string) map[string]bool {
		o := map[string]bool{}
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				o[p] = true
			}
			return nil
		})
		return o
	}
	for c := 0; c < r.pick(4, 20); c++ {
		rg := sub(r.Seed, "oldmail", c)
		root := tempDir("mailo")
		defer os.RemoveAll(root)
		m := newMailbox(r, fmt.Sprintf("old mail %d", c))
		acc, err := account.New(root)
		must(err)
		must(acc.Create(mailPID(0), false))
		id := mailPID(0).Identity
		old := map[mailKey]bool{}
		n := 6 + rg.Intn(6)
		for q := 1; q <= n; q++ {
			k := mailKey{100, 0, q}
			size := []int{0, 1, 2, 3, 4, 100, 5000}[rg.Intn(7)]
			isOld := rg.Intn(2) == 0 || q == 1
			clear := q%3 == 0
			was := files(root)
			_, err := acc.Deliver(id, mailPID(100).Identity, mkMail(100, 0, q, size), clear)
			m.delivered(k, size, err)
			must(err)
			if !isOld || clear { // old mail was never in clear text
				continue
			}
			for f := range files(root) {
				if !was[f] {
					fi, err := os.Stat(f)
					must(err)
					must(os.Truncate(f, fi.Size()-4))
					old[k] = true
				}
			}
		}
		acc, err = account.New(root)
		must(err)
		ch := make(chan *account.Notification)
		s := m.session(0)
		must(acc.Online(id, ch))
		for i := 0; i < n && !r.Failed(); i++ {
			select {
			case nt := <-ch:
				if nt.Error != nil {
					m.violate("error-notification", "account 0 was told %v although nothing failed", nt.Error)
					return
				}
				k, ok := s.handout(nt.From, nt.Payload, nt.Cleartext)
				if !ok {
					return
				}
				if old[k] {
					r.Count("old_messages", 1)
				}
				if err := acc.Delete(id, nt.Identifier); err != nil {
					m.violate("ack-failed", "acknowledging %v: %v", k, err)
				}
				m.ackedOK(k)
			case <-time.After(30 * time.Second):
				m.violate("stuck", "%d of %d messages are not handed out, %d of an old server version among them", n-i, n, len(old))
				return
			}
		}
		acc.Offline(id)
		r.Case(fmt.Sprintf("old-%d-%d-%d", c, n, len(old)))
	}
}

func p13case(r *Report, c int, slow bool) {
	if slow {
		c += 100000
	}
	rg := sub(r.Seed, "mail", c)
	root := tempDir("mail")
	defer os.RemoveAll(root)
	nAcc, nSend := 2+rg.Intn(3), 1+rg.Intn(4)
	m := newMailbox(r, fmt.Sprintf("mailbox %d: %d accounts, %d senders", c, nAcc, nSend))
	acc, err := account.New(root)
	must(err)
	for i := 0; i < nAcc; i++ {
		if err := acc.Create(mailPID(i), false); err != nil {
			r.Violate("create-failed", err.Error(), nil)
			return
		}
	}
	seqs := make([]int, nSend)
	began := realNow()
	for epoch := 0; epoch < 3; epoch++ {
		acc, err = account.New(root)
		must(err)
		var sendWG, ownWG sync.WaitGroup
		var stop int32
		for s := 0; s < nSend; s++ {
			sendWG.Add(1)
			go func(s int) {
				defer sendWG.Done()
				rg := sub(r.Seed, "mail", c, epoch, "s", s)
				for i := 0; i < 40+rg.Intn(60); i++ {
					to := rg.Intn(nAcc)
					size := []int{0, 1, 2, 3, 4, 5, 100, 3000}[rg.Intn(8)]
					if rg.Intn(60) == 0 {
						size = 100000
					}
					seqs[s]++
					q := seqs[s]
					k := mailKey{100 + s, to, q}
					m.offer(k, size)
					_, err := acc.Deliver(mailPID(to).Identity, mailPID(100+s).Identity, mkMail(100+s, to, q, size), q%3 == 0)
					m.delivered(k, size, err)
					if err == nil {
						r.Count("accepted", 1)
					} else {
						m.violate("refused-for-nothing", "message %v: %v", k, err)
						return
					}
					if slow {
						time.Sleep(time.Duration(rg.Intn(50)) * time.Millisecond)
					} else if rg.Intn(5) == 0 {
						time.Sleep(time.Duration(rg.Intn(400)) * time.Microsecond)
					}
				}
			}(s)
		}
		for o := 0; o < nAcc; o++ {
			ownWG.Add(1)
			go func(o int) {
				defer ownWG.Done()
				rg := sub(r.Seed, "mail", c, epoch, "o", o)
				for last := false; !r.Failed(); {
					last = atomic.LoadInt32(&stop) == 1
					p13session(r, acc, m, o, rg, last)
					if last {
						return
					}
					if slow {
						time.Sleep(time.Duration(rg.Intn(300)) * time.Millisecond)
					} else if rg.Intn(2) == 0 {
						time.Sleep(time.Duration(rg.Intn(1500)) * time.Microsecond)
					}
				}
			}(o)
		}
		sendWG.Wait()
		atomic.StoreInt32(&stop, 1)
		ownWG.Wait()
	}
	if r.Failed() { // a case cut short proves nothing
		return
	}
	if k := m.missing(); len(k) > 0 {
		m.mu.Lock()
		m.violate("message-lost", "%d accepted messages were never handed out, e.g. %v", len(k), k[0])
		m.mu.Unlock()
	}
	red := 0
	for _, n := range m.handed {
		if n > 1 {
			red += n - 1
		}
	}
	r.Count("redelivered_unacked", red)
	if slow && ownClock != nil {
		r.Count("clock_changes_during_cases", int((realNow()-began)/ownClock.step))
	}
	r.Case(fmt.Sprintf("%d-%d-%d-%d-%d", c, nAcc, nSend, len(m.accepted), red))
	if c == 0 {
		r.Sample(m.wit())
	}
	// all mail is acknowledged: the next login finds nothing
	for o := 0; o < nAcc; o++ {
		ch := make(chan *account.Notification, 8)
		acc2, err := account.New(root)
		must(err)
		s := m.session(o)
		if err := acc2.Online(mailPID(o).Identity, ch); err != nil {
			m.violate("online-failed", "%v", err)
			return
		}
		k := mailKey{300, o, 1}
		_, err = acc2.Deliver(mailPID(o).Identity, mailPID(300).Identity, mkMail(300, o, 1, 10), false)
		m.delivered(k, 10, err)
		select {
		case nt := <-ch:
			if nt.Error != nil {
				m.violate("error-notification", "%v", nt.Error)
			} else if got, ok := s.handout(nt.From, nt.Payload, nt.Cleartext); ok && got != k {
				m.violate("redelivered-after-ack", "%v handed out although everything was acknowledged", got)
			}
		case <-time.After(30 * time.Second):
			m.violate("stuck", "a message delivered to online account %d is not handed out", o)
		}
		acc2.Offline(mailPID(o).Identity)
	}
}

// p13session is one online period; the last one drains the mailbox.
func p13session(r *Report, acc *account.Account, m *mailbox, o int, rg *rand.Rand, last bool) {
	id := mailPID(o).Identity
	ch := make(chan *account.Notification, []int{0, 1, 4, 32}[rg.Intn(4)])
	s := m.session(o)
	if err := acc.Online(id, ch); err != nil {
		m.violate("online-failed", "%v", err)
		return
	}
	r.Count("sessions", 1)
	if rg.Intn(4) == 0 {
		if err := acc.Online(id, make(chan *account.Notification)); err == nil {
			m.violate("online-twice", "account %d was taken online twice", o)
		}
	}
	type got struct {
		k   mailKey
		idn string
	}
	var unacked []got
	ack := func(g got) {
		err := acc.Delete(id, g.idn)
		if err != nil {
			m.violate("ack-failed", "acknowledging %v: %v", g.k, err)
			return
		}
		m.ackedOK(g.k)
	}
	budget := rg.Intn(40)
	quiet := 30 * time.Second
	for i := 0; last || i < budget; i++ {
		if last && m.unacked(o) == 0 {
			break
		}
		wait := quiet
		if !last {
			wait = time.Duration(rg.Intn(3)) * time.Millisecond
		}
		select {
		case n := <-ch:
			if n.Error != nil {
				m.violate("error-notification", "account %d was told %v although nothing failed", o, n.Error)
				acc.Offline(id)
				return
			}
			if n.To != id {
				m.violate("wrong-recipient", "notification for %x given to %x", n.To[:6], id[:6])
			}
			k, ok := s.handout(n.From, n.Payload, n.Cleartext)
			if !ok {
				acc.Offline(id)
				return
			}
			m.received(k, n.Received)
			unacked = append(unacked, got{k, n.Identifier})
			// acknowledge in any order, some late, some never
			if last {
				for _, g := range unacked {
					ack(g)
				}
				unacked = nil
			} else {
				for len(unacked) > 0 && rg.Intn(3) > 0 {
					i := rg.Intn(len(unacked))
					if unacked[i].k.seq%8 == 1 { // left for the last session
						break
					}
					ack(unacked[i])
					unacked = append(unacked[:i], unacked[i+1:]...)
				}
			}
		case <-time.After(wait):
			if last {
				m.mu.Lock()
				n := 0
				var ex mailKey
				for k := range m.accepted {
					if k.to == o && m.acked[k] == 0 {
						n++
						ex = k
					}
				}
				m.violate("stuck", "%d messages are stored for online account %d and not handed out, e.g. %v", n, o, ex)
				m.mu.Unlock()
				return
			}
		}
	}
	acc.Offline(id)
	if rg.Intn(3) == 0 { // late acknowledgement, after going offline
		for _, g := range unacked {
			ack(g)
		}
	}
	// what the old session still had in flight may arrive, but stays valid
	for {
		select {
		case n := <-ch:
			if n.Error == nil {
				if k, ok := s.handout(n.From, n.Payload, n.Cleartext); ok {
					m.received(k, n.Received)
				}
			}
			continue
		default:
		}
		break
	}
}

// p13live has long sessions in which bursts of deliveries, started while the
// owner has read only part of the mailbox, are followed by silence: everything
// delivered must arrive although nothing is delivered any more.
func p13live(r *Report) {
	r.Need("live_bursts", 100)
	parallel(r.pick(16, 64), 8, func(c int) {
		rg := sub(r.Seed, "live", c)
		root := tempDir("maill")
		defer os.RemoveAll(root)
		m := newMailbox(r, fmt.Sprintf("live mailbox %d", c))
		acc, err := account.New(root)
		must(err)
		must(acc.Create(mailPID(0), false))
		id := mailPID(0).Identity
		q := 0
		deliver := func(n int) {
			for i := 0; i < n; i++ {
				q++
				k := mailKey{100, 0, q}
				_, err := acc.Deliver(id, mailPID(100).Identity, mkMail(100, 0, q, rg.Intn(200)), q%3 == 0)
				m.delivered(k, 0, err)
				m.mu.Lock()
				delete(m.size, k)
				m.mu.Unlock()
				if err != nil {
					m.violate("deliver-failed", "%v", err)
				}
				if rg.Intn(3) == 0 {
					time.Sleep(time.Duration(rg.Intn(300)) * time.Microsecond)
				}
			}
		}
		deliver(c % 4)
		ch := make(chan *account.Notification, []int{0, 0, 1, 2}[c/4%4])
		s := m.session(0)
		if err := acc.Online(id, ch); err != nil {
			m.violate("online-failed", "%v", err)
			return
		}
		defer acc.Offline(id)
		got := 0
		var late []string
		for burst := 0; burst < 12 && !r.Failed(); burst++ {
			// the reader stops somewhere, more arrives, then silence
			stopAt := got + rg.Intn(q-got+1)
			hold := true
			for got < q || hold {
				if hold && got >= stopAt {
					hold = false
					if rg.Intn(2) == 0 {
						time.Sleep(time.Duration(rg.Intn(4)) * time.Millisecond)
					}
					deliver(1 + rg.Intn(4))
				}
				select {
				case n := <-ch:
					if n.Error != nil {
						m.violate("error-notification", "%v", n.Error)
						return
					}
					k, ok := s.handout(n.From, n.Payload, n.Cleartext)
					if !ok {
						return
					}
					got++
					if rg.Intn(2) == 0 {
						if err := acc.Delete(id, n.Identifier); err != nil {
							m.violate("ack-failed", "acknowledging %v: %v", k, err)
						}
						m.ackedOK(k)
					} else {
						late = append(late, n.Identifier)
					}
				case <-time.After(20 * time.Second):
					m.mu.Lock()
					m.violate("stuck", "%d of %d messages delivered to an online account are not handed out, nothing else is delivered", q-got, q)
					m.mu.Unlock()
					return
				}
			}
			r.Count("live_bursts", 1)
			r.Case(fmt.Sprintf("live-%d-%d-%d-%d", c, burst, got, q))
		}
		for _, i := range late {
			if err := acc.Delete(id, i); err != nil {
				m.violate("ack-failed", "late acknowledgement of %v: %v", i, err)
			}
		}
	})
}

// p13race hammers the moment of going online with a delivery at the same time.
func p13race(r *Report) {
	root := tempDir("mailr")
	defer os.RemoveAll(root)
	acc, err := account.New(root)
	must(err)
	N := 8
	for i := 0; i < N; i++ {
		if err := acc.Create(mailPID(i), false); err != nil {
			r.Violate("create-failed", err.Error(), nil)
			return
		}
	}
	parallel(N, N, func(o int) {
		id := mailPID(o).Identity
		rg := sub(r.Seed, "race", o)
		for i := 0; i < r.pick(150, 3000) && !r.Failed(); i++ {
			ch := make(chan *account.Notification, 4)
			var wg sync.WaitGroup
			wg.Add(1)
			d := rg.Intn(60)
			go func() {
				defer wg.Done()
				for j := 0; j < d; j++ {
					atomic.LoadInt32(&raceSpin)
				}
				acc.Deliver(id, mailPID(99).Identity, mkMail(99, o, i, 5), i%3 == 0)
			}()
			if err := acc.Online(id, ch); err != nil {
				r.Violate("online-failed", err.Error(), nil)
				return
			}
			wg.Wait()
			select {
			case n := <-ch:
				if n.Error != nil {
					r.Violate("error-notification", n.Error.Error(), nil)
					return
				}
				if _, _, q, ok := parseMail(n.Payload); !ok || q != i {
					r.Violate("damaged-message", "login race", nil)
				}
				if err := acc.Delete(id, n.Identifier); err != nil {
					r.Violate("ack-failed", err.Error(), nil)
				}
			case <-time.After(30 * time.Second):
				r.Violate("stuck", fmt.Sprintf("a message delivered while account %d goes online is never handed out", o), map[string]any{"iteration": i})
				return
			}
			acc.Offline(id)
			r.Count("login_races", 1)
		}
		r.Case(fmt.Sprintf("race-%d", o))
	})
}

var raceSpin int32

// ---- P14

type delJob struct {
	Root  string
	Log   string
	Msgs  [][4]int // from, to, seq, size
	Ids   []string // identifiers to acknowledge, of account 0
	Limit int
}

// deliverChild delivers (or acknowledges) and logs each success.
func deliverChild(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return 90
	}
	var j delJob
	if json.Unmarshal(b, &j) != nil {
		return 91
	}
	acc, err := account.New(j.Root)
	if err != nil {
		return 92
	}
	lf, err := os.OpenFile(j.Log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	if err != nil {
		return 93
	}
	if j.Limit > 0 {
		limitFile(j.Limit, false)
	}
	marker()
	for i, m := range j.Msgs {
		_, err := acc.Deliver(mailPID(m[1]).Identity, mailPID(m[0]).Identity, mkMail(m[0], m[1], m[2], m[3]), m[2]%3 == 0)
		if err != nil {
			fmt.Fprintf(lf, "err %d\n", i)
		} else {
			fmt.Fprintf(lf, "ok %d\n", i)
		}
	}
	for i, id := range j.Ids {
		if err := acc.Delete(mailPID(0).Identity, id); err != nil {
			fmt.Fprintf(lf, "derr %d\n", i)
		} else {
			fmt.Fprintf(lf, "dok %d\n", i)
		}
	}
	return 0
}

func p14(r *Report) {
	r.Level = "fault_enumeration"
	r.Rule = "a case is one (mailbox state, system call, kill or error) combination while accepting or acknowledging mail, or one kill of the real server under traffic; non-trivial when the fault was injected"
	r.Assume = []string{"process crashes and failing system calls; not loss of the page cache"}
	r.Need("killed", 40)
	r.Need("failed_calls", 40)
	r.Need("server_kills", 2)
	n := r.pick(6, 50)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); p14server(r) }()
	parallel(n, 6, func(c int) {
		rg := sub(r.Seed, "dcrash", c)
		root := tempDir("dcr")
		defer os.RemoveAll(root)
		seed := filepath.Join(root, "seed")
		acc, err := account.New(seed)
		must(err)
		for i := 0; i < 2; i++ {
			if err := acc.Create(mailPID(i), false); err != nil {
				r.Violate("create-failed", err.Error(), nil)
				return
			}
		}
		// mail stored before
		pre := map[mailKey]int{}
		for i := 0; i < rg.Intn(4); i++ {
			if _, err := acc.Deliver(mailPID(0).Identity, mailPID(50).Identity, mkMail(50, 0, i, i*7), i%3 == 0); err == nil {
				pre[mailKey{50, 0, i}] = i * 7
			}
		}
		work := filepath.Join(root, "work")
		lg := filepath.Join(root, "log")
		ctl := filepath.Join(root, "ctl")
		must(os.MkdirAll(ctl, 0700))
		job := delJob{Root: work, Log: lg}
		for i := 0; i < 3; i++ {
			job.Msgs = append(job.Msgs, [4]int{60 + rg.Intn(2), 0, i, []int{0, 3, 50, 5000, 40000}[rg.Intn(5)]})
		}
		if c%2 == 1 { // also acknowledge the stored ones
			ids := mailIdentifiers(seed, len(pre))
			job.Ids = ids
		}
		write := func(j delJob) []string {
			b, err := json.Marshal(j)
			must(err)
			f := filepath.Join(ctl, "job")
			must(os.WriteFile(f, b, 0600))
			return []string{"-child", "deliver", f}
		}
		reset := func() {
			os.RemoveAll(work)
			os.Remove(lg)
			copyDir(seed, work)
		}
		argv := write(job)
		reset()
		pts, code := crashPoints(argv)
		if code != 0 {
			r.Violate("deliver-failed", fmt.Sprintf("undisturbed child exits %d", code), nil)
			return
		}
		check := func(what string, cp crashPoint, crashed bool) {
			b, _ := os.ReadFile(lg)
			st := map[string]bool{}
			for _, l := range strings.Split(string(b), "\n") {
				st[l] = true
			}
			must1, may := map[mailKey]int{}, map[mailKey]int{}
			for k, v := range pre {
				must1[k] = v
			}
			// acknowledgements
			inflight := crashed
			for i, m := range job.Msgs {
				k := mailKey{m[0], m[1], m[2]}
				switch {
				case st[fmt.Sprintf("ok %d", i)]:
					must1[k] = m[3]
				case st[fmt.Sprintf("err %d", i)]:
				default:
					if inflight {
						may[k] = m[3]
						inflight = false
					}
				}
			}
			gone := map[int]bool{}
			for i := range job.Ids {
				if st[fmt.Sprintf("dok %d", i)] {
					delete(must1, mailKey{50, 0, i})
					gone[i] = true
				} else if crashed || st[fmt.Sprintf("derr %d", i)] {
					may[mailKey{50, 0, i}] = pre[mailKey{50, 0, i}]
					delete(must1, mailKey{50, 0, i})
				}
			}
			w := map[string]any{"fault": what, "at": cp, "log": string(b), "messages": job.Msgs}
			got, errs, ok := readMailbox(work, 0)
			if !ok {
				r.Violate("stuck-after-"+what, fmt.Sprintf("at %s #%d: mail stored after the restart is not handed out; errors: %v", cp.Call, cp.N, errs), w)
				return
			}
			if len(errs) > 0 {
				r.Violate("error-after-"+what, fmt.Sprintf("at %s #%d: the owner's session is told %v", cp.Call, cp.N, errs[0]), w)
			}
			for k, size := range must1 {
				if _, ok := got[k]; !ok {
					r.Violate("lost-after-"+what, fmt.Sprintf("at %s #%d: accepted message %v is gone", cp.Call, cp.N, k), w)
				} else if got[k] != size+12 {
					r.Violate("damaged-after-"+what, fmt.Sprintf("at %s #%d: message %v has %d bytes, not %d", cp.Call, cp.N, k, got[k], size+12), w)
				}
			}
			for k, l := range got {
				if k.seq < 0 {
					r.Violate("damaged-after-"+what, fmt.Sprintf("at %s #%d: a message of %d bytes is handed out that nobody sent", cp.Call, cp.N, l), w)
					continue
				}
				_, a := must1[k]
				sz, b := may[k]
				if !a && !b {
					r.Violate("refused-delivered-after-"+what, fmt.Sprintf("at %s #%d: message %v was not accepted (or was acknowledged) but is handed out", cp.Call, cp.N, k), w)
				} else if b && !a && l != sz+12 {
					r.Violate("damaged-after-"+what, fmt.Sprintf("at %s #%d: cut-short message %v is handed out with %d bytes of %d", cp.Call, cp.N, k, l, sz+12), w)
				}
			}
			r.Case(fmt.Sprintf("%d-%s-%s-%d", c, what, cp.Call, cp.N))
		}
		for _, cp := range pts {
			reset()
			killed, _ := crashAt(cp, argv)
			if killed {
				r.Count("killed", 1)
				r.Count("killed_"+cp.Call, 1)
			}
			check("kill", cp, killed)
			e := "ENOSPC"
			if cp.Call == "close" {
				e = "EIO"
			}
			reset()
			failAt(cp, e, false, argv)
			r.Count("failed_calls", 1)
			// an error on the log itself only hides successes
			b, _ := os.ReadFile(lg)
			if n := strings.Count(string(b), "\n"); n == len(job.Msgs)+len(job.Ids) {
				check("error", cp, false)
			}
		}
		for k := 0; k < r.pick(6, 40); k++ {
			lim := 1 + rg.Intn(6000)
			reset()
			lj := job
			lj.Limit = lim
			la := write(lj)
			_, code, _ := straceRun("", la)
			if code != 0 {
				r.Violate("fault-crashes", fmt.Sprintf("disk full at %d: exit %d", lim, code), nil)
			}
			r.Count("disk_full", 1)
			check("disk-full", crashPoint{"bytes", lim}, false)
		}
		if c == 0 {
			r.Sample(map[string]any{"crash_points": pts})
		}
	})
	wg.Wait()
}

// mailIdentifiers returns the identifiers of account 0's first n messages.
func mailIdentifiers(root string, n int) []string {
	acc, err := account.New(root)
	must(err)
	ch := make(chan *account.Notification, n+1)
	must(acc.Online(mailPID(0).Identity, ch))
	var ids []string
	for i := 0; i < n; i++ {
		select {
		case x := <-ch:
			ids = append(ids, x.Identifier)
		case <-time.After(30 * time.Second):
			return ids
		}
	}
	acc.Offline(mailPID(0).Identity)
	return ids
}

// readMailbox opens the account system afresh, as a restarted server does,
// stores one more message and returns all that is handed out up to it.
func readMailbox(root string, who int) (got map[mailKey]int, errs []string, ok bool) {
	got = map[mailKey]int{}
	acc, err := account.New(root)
	if err != nil {
		return nil, []string{err.Error()}, false
	}
	id := mailPID(who).Identity
	ch := make(chan *account.Notification, 32)
	sentinel := mailKey{77, who, 1}
	if _, err := acc.Deliver(id, mailPID(77).Identity, mkMail(77, who, 1, 9), false); err != nil {
		return nil, []string{err.Error()}, false
	}
	if err := acc.Online(id, ch); err != nil {
		return nil, []string{err.Error()}, false
	}
	defer acc.Offline(id)
	bad := 0
	for {
		select {
		case n := <-ch:
			if n.Error != nil {
				errs = append(errs, n.Error.Error())
				continue
			}
			f, t, q, good := parseMail(n.Payload)
			k := mailKey{f, t, q}
			if !good || n.From != mailPID(f).Identity || n.Cleartext != (q%3 == 0) {
				if k == sentinel {
					return got, errs, true
				}
				bad++
				got[mailKey{-1, who, -bad}] = len(n.Payload)
				continue
			}
			if k == sentinel {
				return got, errs, true
			}
			got[k] = len(n.Payload)
		case <-time.After(20 * time.Second):
			return got, errs, false
		}
	}
}
