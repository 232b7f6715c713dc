package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
)

// World is a server with users that exchange mail; the mailbox monitor knows
// what was accepted and checks everything that is handed out.
type World struct {
	r     *Report
	srv   *Srv
	m     *mailbox
	Users []*User
	seed  int64
	tag   string
	stop  int32
	// what the users do
	dropEvery int           // a connection is dropped about every n steps
	takeover  int           // a second login about every n steps
	ackSome   bool          // leave some messages unacknowledged
	maxWait   time.Duration // for a login
}

type User struct {
	w   *World
	i   int
	ID  *zkidentity.FullIdentity
	mu  sync.Mutex
	b   *Bot
	s   *mailSession
	seq int
	// acknowledgements sent in this session that are not yet confirmed
	acked  []mailKey
	logins int
	// when set, messages are left unacknowledged
	hold int32
	old  []*Bot
	// extra behaviour for pushes that are no mail
	onOther func(p push) bool
}

func newWorld(r *Report, srv *Srv, desc string, users int) *World {
	w := &World{r: r, srv: srv, m: newMailbox(r, desc), seed: r.Seed, tag: desc, maxWait: 60 * time.Second}
	ids := make([]*zkidentity.FullIdentity, users)
	parallel(users, 4, func(i int) { ids[i] = newID(fmt.Sprintf("user%d", i)) })
	for i, id := range ids {
		w.Users = append(w.Users, &User{w: w, i: i, ID: id})
	}
	w.m.ident = func(i int) [32]byte {
		if i < 0 || i >= len(w.Users) {
			return [32]byte{}
		}
		return w.Users[i].ID.Public.Identity
	}
	for _, u := range w.Users {
		if err := srv.Create(u.ID.Public, ""); err != nil {
			r.Violate("create-failed", "an account could not be created on an open server: "+err.Error(), nil)
		}
	}
	return w
}

func (u *User) onPush(s *mailSession, first *Bot) func(p push) bool {
	return func(p push) bool {
		if _, _, _, ok := parseMail(p.Payload); !ok && u.onOther != nil {
			return u.onOther(p)
		}
		k, ok := s.handout(p.From, p.Payload, p.Cleartext)
		if !ok {
			return true
		}
		u.w.r.Count("handed", 1)
		u.w.m.received(k, p.Received)
		if h := atomic.LoadInt32(&u.hold); h > 0 {
			return false
		}
		u.w.m.mu.Lock()
		u.w.m.tried[k] = true
		u.w.m.mu.Unlock()
		u.mu.Lock()
		if u.s == s || u.s == nil {
			u.acked = append(u.acked, k)
		}
		u.mu.Unlock()
		return true
	}
}

// login makes the user live; an existing connection is abandoned to the
// server's care when keep is set.
func (u *User) login() (*Bot, error) {
	end := time.Now().Add(u.w.maxWait)
	n := 0
	for {
		u.mu.Lock()
		u.s = nil
		u.acked = nil
		u.mu.Unlock()
		s := u.w.m.session(u.i)
		n++
		b, err := u.w.srv.Login(u.ID, u.onPush(s, nil))
		if err == nil {
			if err = b.Ping(30 * time.Second); err == nil {
				u.mu.Lock()
				u.b, u.s = b, s
				u.logins++
				u.mu.Unlock()
				u.w.r.Count("sessions", 1)
				u.w.r.Count("login_attempts", n)
				return b, nil
			}
			b.Close()
			u.check(b)
		}
		if time.Now().After(end) {
			return nil, fmt.Errorf("%d logins failed, last: %w", n, err)
		}
		time.Sleep(time.Duration(20+20*min(n, 10)) * time.Millisecond)
	}
}

// check reports protocol oddities a connection has seen.
func (u *User) check(b *Bot) {
	b.mu.Lock()
	st := b.strange
	b.strange = nil
	b.mu.Unlock()
	if len(st) > 0 {
		u.w.m.violate("protocol", "user %d: %s", u.i, st[0])
	}
}

// sync pings; after it the acknowledgements sent before are in effect.
func (u *User) sync() error {
	u.mu.Lock()
	b := u.b
	ks := u.acked
	u.acked = nil
	u.mu.Unlock()
	if b == nil {
		return errors.New("not connected")
	}
	// An acknowledgement is appended before it is sent by the same
	// goroutine that handles pushes; wait for it to be on its way.
	time.Sleep(time.Millisecond)
	if err := b.Ping(60 * time.Second); err != nil {
		return err
	}
	// a second ping is queued behind acknowledgements still being written
	if err := b.Ping(60 * time.Second); err != nil {
		return err
	}
	for _, k := range ks {
		u.w.m.ackedOK(k)
	}
	return nil
}

// burst pipelines n messages to random users.
func (u *User) burst(rg *rand.Rand, n int) error {
	u.mu.Lock()
	b := u.b
	u.mu.Unlock()
	if b == nil || b.isClosed() {
		return errors.New("not connected")
	}
	type out struct {
		ch   chan rep
		tag  uint32
		k    mailKey
		size int
	}
	var outs []out
	var ferr error
	for i := 0; i < n; i++ {
		to := rg.Intn(len(u.w.Users))
		size := []int{0, 1, 2, 3, 10, 200, 4000}[rg.Intn(7)]
		if rg.Intn(40) == 0 {
			size = 100000 + rg.Intn(100000)
		}
		u.seq++
		k := mailKey{u.i, to, u.seq}
		p := mkMail(u.i, to, u.seq, size)
		id := u.w.Users[to].ID.Public.Identity
		var ch chan rep
		var tag uint32
		var err error
		// ackclaim: register the size before the recipient can see it
		u.w.m.offer(k, size)
		if u.seq%3 == 0 {
			ch, tag, err = b.start(rpc.TaggedCmdProxy, rpc.Proxy{To: id, Payload: p})
		} else {
			ch, tag, err = b.start(rpc.TaggedCmdCache, rpc.Cache{To: id, Payload: p})
		}
		if err != nil {
			ferr = err
			break
		}
		outs = append(outs, out{ch, tag, k, size})
		if rg.Intn(4) == 0 {
			time.Sleep(time.Duration(rg.Intn(2000)) * time.Microsecond)
		}
	}
	for _, o := range outs {
		rp, err := b.finish(o.ch, o.tag, 60*time.Second)
		if err != nil {
			if errors.Is(err, errTimeout) {
				u.w.m.violate("no-reply", "user %d: request %v is not answered within a minute", u.i, o.k)
			}
			ferr = err
			continue
		}
		if o.k.seq%3 == 0 {
			err = decodeProxy(rp, u.w.Users[o.k.to].ID.Public.Identity)
		} else {
			err = decodeAck(rp)
		}
		if err != nil && !errors.Is(err, errNack) {
			u.w.m.violate("protocol", "user %d: %v", u.i, err)
		}
		u.w.m.delivered(o.k, o.size, err)
		if err == nil {
			u.w.r.Count("accepted", 1)
		} else {
			u.w.r.Count("refused", 1)
			u.w.m.violate("refused-for-nothing", "user %d: message %v to an existing user is refused: %v", u.i, o.k, err)
		}
	}
	return ferr
}

// run is the life of one user until the world stops.
func (u *User) run(rg *rand.Rand, steps int) {
	for st := 0; (steps == 0 || st < steps) && atomic.LoadInt32(&u.w.stop) == 0 && !u.w.r.Failed(); st++ {
		u.mu.Lock()
		b := u.b
		u.mu.Unlock()
		if b == nil || b.isClosed() {
			if b != nil {
				u.check(b)
			}
			if _, err := u.login(); err != nil {
				u.w.m.violate("cannot-login", "user %d: %v", u.i, err)
				return
			}
		}
		if u.w.ackSome {
			atomic.StoreInt32(&u.hold, int32(rg.Intn(4)/3))
		}
		switch x := rg.Intn(10); {
		case x < 7:
			u.burst(rg, 1+rg.Intn(12))
		case x < 8:
			u.sync()
		default:
			time.Sleep(time.Duration(rg.Intn(20)) * time.Millisecond)
		}
		if u.w.dropEvery > 0 && rg.Intn(u.w.dropEvery) == 0 {
			u.mu.Lock()
			b := u.b
			u.mu.Unlock()
			if b != nil {
				u.w.r.Count("drops", 1)
				if rg.Intn(2) == 0 {
					b.Abort()
				} else {
					b.Close()
				}
			}
		}
		if u.w.takeover > 0 && rg.Intn(u.w.takeover) == 0 {
			u.mu.Lock()
			old := u.b
			u.mu.Unlock()
			if old != nil && !old.isClosed() {
				u.w.r.Count("takeovers", 1)
				if _, err := u.login(); err != nil {
					u.w.m.violate("cannot-login", "user %d, while its older connection is live: %v", u.i, err)
					return
				}
				u.gone(old)
			}
		}
	}
}

// gone requires that a superseded connection is ended.
func (u *User) gone(old *Bot) {
	select {
	case <-old.closed:
	case <-time.After(20 * time.Second):
		u.w.m.violate("two-sessions", "user %d: the older connection lives on 20 s after a newer login is live", u.i)
	}
	old.Close()
	u.check(old)
}

// Drain brings every user online, and requires that everything accepted is
// handed out and can be acknowledged.
func (w *World) Drain() {
	if w.r.Failed() {
		return
	}
	parallel(len(w.Users), len(w.Users), func(i int) {
		u := w.Users[i]
		atomic.StoreInt32(&u.hold, 0)
		u.mu.Lock()
		b := u.b
		u.mu.Unlock()
		if b != nil {
			b.Close()
			u.check(b)
		}
		if _, err := u.login(); err != nil {
			w.m.violate("cannot-login", "user %d at the end: %v", u.i, err)
			return
		}
		end := time.Now().Add(60 * time.Second)
		for !w.r.Failed() {
			u.sync()
			n := w.m.unacked(u.i)
			if n == 0 {
				// what was acknowledged must not come back
				if u.sync() == nil {
					u.mu.Lock()
					b := u.b
					u.mu.Unlock()
					b.Close()
					u.check(b)
					if _, err := u.login(); err == nil {
						time.Sleep(20 * time.Millisecond)
						u.sync()
					}
				}
				return
			}
			u.mu.Lock()
			b := u.b
			u.mu.Unlock()
			if b.isClosed() {
				u.check(b)
				if _, err := u.login(); err != nil {
					w.m.violate("cannot-login", "user %d at the end: %v", u.i, err)
					return
				}
			}
			if time.Now().After(end) {
				w.m.violate("stuck", "%d accepted messages for user %d are not handed out although it is online for a minute, e.g. %v", n, i, w.m.anUnacked(i))
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
	})
	for _, u := range w.Users {
		u.mu.Lock()
		b := u.b
		u.mu.Unlock()
		if b != nil {
			u.check(b)
		}
	}
	if k := w.m.missing(); len(k) > 0 && !w.r.Failed() {
		w.m.violate("message-lost", "%d accepted messages were never handed out, e.g. %v", len(k), k[0])
	}
}

// Nothing stays: after everything is acknowledged a new login gets nothing.
func (w *World) CloseAll() {
	for _, u := range w.Users {
		u.mu.Lock()
		b := u.b
		u.b = nil
		u.mu.Unlock()
		if b != nil {
			b.Close()
			u.check(b)
		}
	}
}
