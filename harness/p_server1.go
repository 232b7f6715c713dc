package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	register("P15", p15)
	register("P16", p16)
	register("P17", p17)
}

// runAll runs every user for a number of steps and waits for them.
func (w *World) runAll(steps int) {
	var wg sync.WaitGroup
	for _, u := range w.Users {
		u := u
		wg.Add(1)
		go func() { defer wg.Done(); u.run(sub(w.seed, w.tag, u.i), steps) }()
	}
	wg.Wait()
}

const maxMsg = 262144 + 1024

// ---- P15

func p15(r *Report) {
	r.Rule = "a case is one world of users exchanging tagged mail over one real server under a random schedule, or one hostile recipient or size; non-trivial when messages were accepted and handed out"
	r.Need("accepted", 1500)
	r.Need("handed", 1500)
	r.Need("unknown_recipient", 30)
	r.Need("boundary_accepted", 5)
	r.Need("boundary_refused", 3)
	parallel(r.pick(3, 12), 3, func(c int) {
		srv := newSrv(r, nil)
		srv.MustStart()
		defer srv.Stop()
		w := newWorld(r, srv, fmt.Sprintf("routing world %d", c), 4+2*c%8)
		w.dropEvery = []int{0, 40, 15}[c%3]
		w.ackSome = c%3 == 1
		w.runAll(r.pick(60, 400))
		w.Drain()
		r.Case(fmt.Sprintf("world-%d", c))
		if c == 0 && !r.Failed() {
			r.Sample(w.m.wit())
		}
		p15unknown(r, w)
		p15sizes(r, w)
		w.Drain()
		w.CloseAll()
	})
}

func p15unknown(r *Report, w *World) {
	if r.Failed() {
		return
	}
	rg := sub(r.Seed, "unknown", w.tag)
	u := w.Users[0]
	if u.b == nil || u.b.isClosed() {
		if _, err := u.login(); err != nil {
			w.m.violate("cannot-login", "%v", err)
			return
		}
	}
	before := homeEntries(w.srv)
	for i := 0; i < 40; i++ {
		var to [32]byte
		switch i % 4 {
		case 0:
			rg.Read(to[:])
		case 1: // one bit off an existing user
			to = w.Users[1].ID.Public.Identity
			to[rg.Intn(32)] ^= 1 << rg.Intn(8)
		case 2:
			to = w.srv.PubID().Identity
		}
		var err error
		if i%2 == 0 {
			err = u.b.Cache(to, mkMail(0, 200+i, i, 30))
		} else {
			err = u.b.Proxy(to, mkMail(0, 200+i, i, 30))
		}
		if err == nil {
			w.m.violate("unknown-accepted", "a message to the unknown user %x is accepted", to[:8])
		} else if !errors.Is(err, errNack) {
			w.m.violate("unknown-not-refused", "a message to an unknown user is answered with: %v", err)
		}
		r.Count("unknown_recipient", 1)
		r.Case(fmt.Sprintf("unknown-%s-%d", w.tag, i))
	}
	if after := homeEntries(w.srv); after != before {
		w.m.violate("unknown-created", "users directory changed by messages to unknown users")
	}
	u.check(u.b)
}

func homeEntries(s *Srv) string {
	es, _ := os.ReadDir(filepath.Join(s.Root, "home"))
	var o []string
	for _, e := range es {
		o = append(o, e.Name())
	}
	return strings.Join(o, " ")
}

// p15sizes sends messages of all sizes around what fits.
func p15sizes(r *Report, w *World) {
	if r.Failed() {
		return
	}
	a, b := w.Users[0], w.Users[1]
	for _, kind := range []string{rpc.TaggedCmdCache, rpc.TaggedCmdProxy} {
		over := len(encMsg(rpc.Message{Command: kind}, rpc.Cache{})) + 16
		for d := 24; d >= -8; d -= 2 {
			size := maxMsg - over - d - 12
			for _, u := range []*User{a, b} {
				if u.b == nil || u.b.isClosed() {
					if _, err := u.login(); err != nil {
						w.m.violate("cannot-login", "around size %d: %v", size, err)
						return
					}
				}
			}
			a.seq++
			for (a.seq%3 == 0) != (kind == rpc.TaggedCmdProxy) {
				a.seq++
			}
			k := mailKey{0, 1, a.seq}
			w.m.offer(k, size)
			p := mkMail(0, 1, a.seq, size)
			was := b.b
			var err error
			if kind == rpc.TaggedCmdCache {
				err = a.b.Cache(b.ID.Public.Identity, p)
			} else {
				err = a.b.Proxy(b.ID.Public.Identity, p)
			}
			switch {
			case err == nil:
				w.m.delivered(k, size, nil)
				r.Count("boundary_accepted", 1)
				ok := waitFor(20*time.Second, func() bool {
					w.m.mu.Lock()
					defer w.m.mu.Unlock()
					return w.m.handed[k] > 0
				})
				if !ok {
					w.m.violate("size-not-delivered", "an accepted message of %d bytes is not handed to its online recipient", len(p))
					return
				}
				if was.isClosed() {
					w.m.violate("size-kills-recipient", "an accepted message of %d bytes ended the recipient's connection", len(p))
				}
			case errors.Is(err, errNack):
				w.m.delivered(k, size, err)
				r.Count("boundary_refused", 1)
			default: // the connection ended: the frame was too large
				r.Count("boundary_disconnected", 1)
				if d > 0 {
					w.m.violate("fitting-frame-refused", "a message whose frame fits the announced maximum by %d bytes ends the sender's connection: %v", d, err)
				}
			}
			r.Case(fmt.Sprintf("size-%s-%s-%d", w.tag, kind, d))
		}
	}
}

// ---- P16

type hostile struct {
	r   *Report
	w   *World
	srv *Srv
	id  *zkidentity.FullIdentity // has an account
	rg  *rand.Rand
}

func (h *hostile) tls() (net.Conn, error) { return h.srv.dial() }

func (h *hostile) tcp() (net.Conn, error) {
	return net.DialTimeout("tcp", h.srv.Addr, 10*time.Second)
}

// session logs in without a reader.
func (h *hostile) session() (*session.KX, net.Conn, error) {
	var last error
	for i := 0; i < 40; i++ {
		c, err := h.tls()
		if err != nil {
			last = err
			time.Sleep(50 * time.Millisecond)
			continue
		}
		kx, err := h.srv.kxOn(c, h.id)
		if err == nil {
			_, err = kx.Read() // welcome
		}
		if err == nil { // live?
			err = kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdPing, Tag: 0}, nil))
		}
		for err == nil {
			var m []byte
			m, err = kx.Read()
			if err == nil {
				var msg rpc.Message
				xdr.Unmarshal(bytes.NewReader(m), &msg)
				if msg.Command == rpc.TaggedCmdPong {
					c.SetDeadline(time.Time{})
					return kx, c, nil
				}
			}
		}
		last = err
		c.Close()
		time.Sleep(time.Duration(20+10*i) * time.Millisecond)
	}
	return nil, nil, fmt.Errorf("hostile user cannot log in: %w", last)
}

// drainReplies reads until the server hangs up or the time is over.
func drainConn(kx *session.KX, c net.Conn, d time.Duration) {
	c.SetReadDeadline(time.Now().Add(d))
	for {
		if _, err := kx.Read(); err != nil {
			return
		}
	}
}

func xdrLen(n uint32, rest []byte) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, n)
	return append(b, rest...)
}

func xdrBytes(v ...any) []byte {
	var bb bytes.Buffer
	for _, x := range v {
		_, err := xdr.Marshal(&bb, x)
		must(err)
	}
	return bb.Bytes()
}

type abuse struct {
	name string
	f    func(h *hostile) error
}

func preAbuses() []abuse {
	var l []abuse
	add := func(n string, f func(h *hostile) error) { l = append(l, abuse{n, f}) }
	raw := func(n string, useTLS bool, data func(h *hostile) []byte) {
		add(n, func(h *hostile) error {
			var c net.Conn
			var err error
			if useTLS {
				c, err = h.tls()
			} else {
				c, err = h.tcp()
			}
			if err != nil {
				return err
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(10 * time.Second))
			c.Write(data(h))
			c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
			io.Copy(io.Discard, io.LimitReader(c, 1<<20))
			return nil
		})
	}
	raw("tcp-close", false, func(h *hostile) []byte { return nil })
	raw("tcp-garbage", false, func(h *hostile) []byte { return randBytes(h.rg, 1+h.rg.Intn(5000)) })
	raw("tls-nothing", true, func(h *hostile) []byte { return nil })
	raw("tls-garbage", true, func(h *hostile) []byte { return randBytes(h.rg, 1+h.rg.Intn(5000)) })
	for _, n := range []uint32{0, 1, maxMsg, maxMsg + 1, 1 << 30, 0x7fffffff, 0x80000000, 0xfffffffc, 0xffffffff} {
		n := n
		raw(fmt.Sprintf("mode-length-%x", n), true, func(h *hostile) []byte { return xdrLen(n, randBytes(h.rg, 1000)) })
		raw(fmt.Sprintf("create-length-%x", n), true, func(h *hostile) []byte {
			return append(xdrBytes(rpc.InitialCmdCreateAccount), xdrLen(n, randBytes(h.rg, 2000))...)
		})
		raw(fmt.Sprintf("session-length-%x", n), true, func(h *hostile) []byte {
			return append(xdrBytes(rpc.InitialCmdSession), xdrLen(n, randBytes(h.rg, 4000))...)
		})
	}
	raw("unknown-mode", true, func(h *hostile) []byte { return xdrBytes("no such mode") })
	raw("mode-formats", true, func(h *hostile) []byte { return xdrBytes("%s%n%d\x00\n%!(EXTRA") })
	raw("identify-flood", true, func(h *hostile) []byte {
		return bytes.Repeat(xdrBytes(rpc.InitialCmdIdentify), 300)
	})
	raw("session-garbage", true, func(h *hostile) []byte {
		return append(xdrBytes(rpc.InitialCmdSession), randBytes(h.rg, 8000)...)
	})
	raw("create-cut", true, func(h *hostile) []byte {
		b := xdrBytes(rpc.InitialCmdCreateAccount, rpc.CreateAccount{PublicIdentity: newID("cut").Public})
		return b[:h.rg.Intn(len(b))]
	})
	raw("create-random", true, func(h *hostile) []byte {
		var p zkidentity.PublicIdentity
		h.rg.Read(p.Key[:])
		h.rg.Read(p.Identity[:])
		p.Name, p.Nick = string(randBytes(h.rg, 300)), "[x]\n=\r"
		return xdrBytes(rpc.InitialCmdCreateAccount, rpc.CreateAccount{PublicIdentity: p, Token: "]\n[=" + string(randBytes(h.rg, 100))})
	})
	add("handshake-cut", func(h *hostile) error { // a real handshake, cut anywhere
		c, err := h.tls()
		if err != nil {
			return err
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(10 * time.Second))
		cut := &cutConn{Conn: c, left: h.rg.Intn(4000), garble: h.rg.Intn(2) == 0}
		h.srv.kxOn(cut, h.id)
		return nil
	})
	add("handshake-stranger", func(h *hostile) error {
		c, err := h.tls()
		if err != nil {
			return err
		}
		defer c.Close()
		id := newID("stranger")
		kx, err := h.srv.kxOn(c, id)
		if err != nil {
			return nil
		}
		if m, err := kx.Read(); err == nil {
			var msg rpc.Message
			xdr.Unmarshal(bytes.NewReader(m), &msg)
			if msg.Command == rpc.SessionCmdWelcome {
				h.r.Violate("stranger-welcome", "a user without an account was welcomed", nil)
			}
		}
		return nil
	})
	add("tls-stall", func(h *hostile) error { // many half-open connections, left to themselves
		for i := 0; i < 20; i++ {
			c, err := h.tcp()
			if err != nil {
				return nil
			}
			c.Write([]byte{0x16, 3, 1})
			time.AfterFunc(5*time.Second, func() { c.Close() })
		}
		return nil
	})
	return l
}

// cutConn ends or garbles what is written after a number of bytes.
type cutConn struct {
	net.Conn
	left   int
	garble bool
}

func (c *cutConn) Write(b []byte) (int, error) {
	if c.left >= len(b) {
		c.left -= len(b)
		return c.Conn.Write(b)
	}
	d := append([]byte(nil), b...)
	if c.garble {
		d[c.left] ^= 0x40
		c.left += 1 << 20
		return c.Conn.Write(d)
	}
	c.Conn.Write(d[:c.left])
	c.Conn.Close()
	return 0, errors.New("cut")
}

func postAbuses() []abuse {
	var l []abuse
	// each sends something over a live session, then waits a little for the
	// server's reaction
	add := func(n string, f func(h *hostile, kx *session.KX, c net.Conn)) {
		l = append(l, abuse{n, func(h *hostile) error {
			kx, c, err := h.session()
			if err != nil {
				return err
			}
			defer c.Close()
			c.SetWriteDeadline(time.Now().Add(20 * time.Second))
			f(h, kx, c)
			drainConn(kx, c, 150*time.Millisecond)
			return nil
		}})
	}
	cmds := []string{rpc.TaggedCmdPing, rpc.TaggedCmdRendezvous, rpc.TaggedCmdRendezvousPull, rpc.TaggedCmdCache,
		rpc.TaggedCmdAcknowledge, rpc.TaggedCmdIdentityFind, rpc.TaggedCmdProxy, rpc.TaggedCmdPush, rpc.TaggedCmdPong,
		rpc.SessionCmdWelcome, rpc.TaggedCmdRendezvousReply, rpc.TaggedCmdIdentityFindReply, rpc.TaggedCmdProxyReply, "", "x", "ping\x00"}
	good := func(h *hostile, cmd string) any {
		switch cmd {
		case rpc.TaggedCmdRendezvous:
			return rpc.Rendezvous{Blob: randBytes(h.rg, h.rg.Intn(5000)), Expiration: []string{"", "-1", "0", "1e9", "99999999999999999999", "24\n"}[h.rg.Intn(6)]}
		case rpc.TaggedCmdRendezvousPull:
			return rpc.RendezvousPull{Token: []string{"", "x", "1\n[a]", "=", "999999", strings.Repeat("7", 5000)}[h.rg.Intn(6)]}
		case rpc.TaggedCmdCache:
			return rpc.Cache{To: h.id.Public.Identity, Payload: randBytes(h.rg, h.rg.Intn(300))}
		case rpc.TaggedCmdProxy:
			return rpc.Proxy{To: h.id.Public.Identity, Payload: randBytes(h.rg, h.rg.Intn(300))}
		case rpc.TaggedCmdIdentityFind:
			return rpc.IdentityFind{Nick: string(randBytes(h.rg, h.rg.Intn(3000)))}
		case rpc.TaggedCmdAcknowledge:
			return rpc.Acknowledge{Error: "%s%d", ErrorCode: -1}
		}
		return rawPayload(randBytes(h.rg, h.rg.Intn(50)))
	}
	for _, tag := range []uint32{31, 32, 33, 63, 255, 1 << 16, 1 << 31, 1<<32 - 1} {
		tag := tag
		for _, cmd := range []string{rpc.TaggedCmdPing, rpc.TaggedCmdAcknowledge, rpc.TaggedCmdCache} {
			cmd := cmd
			add(fmt.Sprintf("tag-%d-%s", tag, cmd), func(h *hostile, kx *session.KX, c net.Conn) {
				kx.Write(encMsg(rpc.Message{Command: cmd, Tag: tag}, good(h, cmd)))
			})
		}
	}
	for _, cmd := range cmds {
		cmd := cmd
		add("hostile-"+cmd, func(h *hostile, kx *session.KX, c net.Conn) {
			for i := 0; i < 20; i++ {
				if kx.Write(encMsg(rpc.Message{Command: cmd, Tag: uint32(h.rg.Intn(32)), Cleartext: i%2 == 0, TimeStamp: h.rg.Int63()}, good(h, cmd))) != nil {
					return
				}
			}
		})
		add("truncated-"+cmd, func(h *hostile, kx *session.KX, c net.Conn) {
			m := encMsg(rpc.Message{Command: cmd, Tag: 3}, good(h, cmd))
			kx.Write(m[:h.rg.Intn(len(m))])
		})
		add("trailing-"+cmd, func(h *hostile, kx *session.KX, c net.Conn) {
			m := encMsg(rpc.Message{Command: cmd, Tag: 3}, good(h, cmd))
			kx.Write(append(m, randBytes(h.rg, 5000)...))
		})
		add("garbled-"+cmd, func(h *hostile, kx *session.KX, c net.Conn) {
			for i := 0; i < 10; i++ {
				m := encMsg(rpc.Message{Command: cmd, Tag: 3}, good(h, cmd))
				for j := 0; j < 1+h.rg.Intn(4); j++ {
					m[h.rg.Intn(len(m))] ^= byte(1 << h.rg.Intn(8))
				}
				if kx.Write(m) != nil {
					return
				}
			}
		})
		add("lengths-"+cmd, func(h *hostile, kx *session.KX, c net.Conn) {
			n := []uint32{maxMsg, 1 << 30, 0x7fffffff, 0x80000000, 0xffffffff}[h.rg.Intn(5)]
			m := encMsg(rpc.Message{Command: cmd, Tag: 3}, rawPayload(bytes.Repeat(xdrLen(n, nil), 20)))
			kx.Write(m)
		})
	}
	add("ack-nothing", func(h *hostile, kx *session.KX, c net.Conn) {
		for t := 31; t >= 0; t-- {
			kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: uint32(t)}, rpc.Acknowledge{}))
		}
		for t := 0; t < 5; t++ {
			kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdPing, Tag: uint32(t)}, nil))
		}
	})
	add("ack-then-vanish", func(h *hostile, kx *session.KX, c net.Conn) {
		kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: 5}, rpc.Acknowledge{}))
		time.Sleep(20 * time.Millisecond)
		rst(c)
	})
	add("empty-frame", func(h *hostile, kx *session.KX, c net.Conn) { kx.Write(nil) })
	add("one-byte-frame", func(h *hostile, kx *session.KX, c net.Conn) { kx.Write([]byte{1}) })
	add("huge-frame", func(h *hostile, kx *session.KX, c net.Conn) { kx.Write(make([]byte, 400000)) })
	for _, n := range []uint32{0, 1, 15, 16, maxMsg, maxMsg + 1, 0x7fffffff, 0xffffffff} {
		n := n
		add(fmt.Sprintf("raw-frame-%x", n), func(h *hostile, kx *session.KX, c net.Conn) {
			c.Write(xdrLen(n, randBytes(h.rg, 300)))
		})
	}
	add("half-frame", func(h *hostile, kx *session.KX, c net.Conn) {
		c.Write(xdrLen(1000, randBytes(h.rg, 100)))
	})
	add("flood-unread", func(h *hostile, kx *session.KX, c net.Conn) {
		// requests with large answers, nothing read
		end := time.Now().Add(2 * time.Second)
		nick := strings.Repeat("n", 60000)
		c.SetWriteDeadline(end)
		for i := 0; time.Now().Before(end); i++ {
			if kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdIdentityFind, Tag: uint32(i % 32)}, rpc.IdentityFind{Nick: nick})) != nil {
				break
			}
		}
		rst(c)
	})
	add("oversized-answer", func(h *hostile, kx *session.KX, c net.Conn) {
		// the answer to this is larger than a message may be
		nick := strings.Repeat("n", 200000)
		for i := 0; i < 60; i++ {
			if kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdIdentityFind, Tag: uint32(i % 32)}, rpc.IdentityFind{Nick: nick})) != nil {
				break
			}
		}
	})
	add("mail-self-unacked", func(h *hostile, kx *session.KX, c net.Conn) {
		// more mail to itself than there are tags, never acknowledged
		for i := 0; i < 80; i++ {
			if kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdCache, Tag: uint32(i % 32)}, rpc.Cache{To: h.id.Public.Identity, Payload: randBytes(h.rg, 2000)})) != nil {
				break
			}
		}
		drainConn(kx, c, 300*time.Millisecond)
		if h.rg.Intn(2) == 0 {
			rst(c)
		}
	})
	l = append(l, abuse{"login-storm", func(h *hostile) error {
		parallel(16, 16, func(i int) {
			c, err := h.tls()
			if err != nil {
				return
			}
			defer c.Close()
			if kx, err := h.srv.kxOn(c, h.id); err == nil {
				kx.Read()
				time.Sleep(time.Duration(i%4) * 10 * time.Millisecond)
			}
		})
		return nil
	}})
	l = append(l, abuse{"login-and-vanish", func(h *hostile) error {
		for i := 0; i < 6; i++ {
			c, err := h.tls()
			if err != nil {
				continue
			}
			if _, err := h.srv.kxOn(c, h.id); err == nil {
				time.Sleep(time.Duration(i) * time.Millisecond)
			}
			rst(c)
		}
		return nil
	}})
	return l
}

func rst(c net.Conn) {
	if t, ok := c.(*tls.Conn); ok {
		if tc, ok := t.NetConn().(*net.TCPConn); ok {
			tc.SetLinger(0)
			tc.Close()
		}
	}
	c.Close()
}

// goroutines counts the server's goroutines over its own profiler.
func (s *Srv) goroutines() (int, string) {
	cl := &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := cl.Get("http://" + s.Opts["profiler"] + "/debug/pprof/goroutine?debug=2")
	if err != nil {
		return -1, err.Error()
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	return strings.Count("\n\n"+string(b), "\n\ngoroutine "), string(b)
}

// settled waits until the server holds no more goroutines than base+slack.
func (s *Srv) settled(base, slack int, d time.Duration) (int, string) {
	end := time.Now().Add(d)
	for {
		n, dump := s.goroutines()
		if n >= 0 && n <= base+slack {
			return n, ""
		}
		if time.Now().After(end) {
			return n, dump
		}
		time.Sleep(300 * time.Millisecond)
	}
}

func (s *Srv) rssPeak() int {
	s.mu.Lock()
	c := s.cmd
	s.mu.Unlock()
	if c == nil {
		return 0
	}
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", c.Process.Pid))
	var kb int
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmHWM:") {
			fmt.Sscanf(strings.TrimSpace(l[6:]), "%d", &kb)
		}
	}
	return kb / 1024
}

// recovers requires that the hostile user can connect again.
func (h *hostile) recovers(after string) bool {
	b, n, err := h.srv.LoginLive(h.id, func(p push) bool { return true }, 45*time.Second)
	if err != nil {
		if h.srv.Alive() {
			h.r.Violate("shut-out-"+after, fmt.Sprintf("after %q the user that did it cannot log in any more (%v)", after, err), nil)
		}
		return false
	}
	h.r.Count("recoveries", 1)
	h.r.Count("recovery_logins", n)
	// its waiting mail must be deliverable: acknowledge what comes
	b.Ping(30 * time.Second)
	b.Close()
	return true
}

func p16(r *Report) {
	r.Rule = "a case is one kind of abuse performed on a real server that serves two other users at the same time; non-trivial when the abuse was carried out and the server was asked for its health afterwards"
	pre, post := preAbuses(), postAbuses()
	r.Need("abuses", len(pre)+len(post))
	r.Need("recoveries", len(post))
	r.Need("canary_accepted", 50)
	parallel(r.pick(2, 6), 2, func(c int) {
		srv := newSrv(r, map[string]string{"debug": "yes", "profiler": fmt.Sprintf("127.0.0.1:%d", freePort()), "directory": []string{"no", "yes"}[c%2]})
		srv.MustStart()
		defer srv.Stop()
		w := newWorld(r, srv, fmt.Sprintf("canaries %d", c), 2)
		// warm up, then count what an idle server holds
		w.runAll(3)
		w.CloseAll()
		time.Sleep(500 * time.Millisecond)
		base, _ := srv.goroutines()
		var wg sync.WaitGroup
		for _, u := range w.Users {
			u := u
			wg.Add(1)
			go func() { defer wg.Done(); u.run(sub(r.Seed, "canary", c, u.i), 0) }()
		}
		var all []abuse
		for rep := 0; rep < r.pick(1, 6); rep++ {
			all = append(all, pre...)
			all = append(all, post...)
		}
		rg := sub(r.Seed, "abuse", c)
		rg.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		var ids []*zkidentity.FullIdentity
		for i := 0; i < 3; i++ {
			id := newID(fmt.Sprintf("hostile%d", i))
			ids = append(ids, id)
			if err := srv.Create(id.Public, ""); err != nil {
				r.Violate("create-failed", err.Error(), nil)
			}
		}
		// three hostile users at the same time
		parallel(3, 3, func(hi int) {
			h := &hostile{r: r, w: w, srv: srv, id: ids[hi], rg: sub(r.Seed, "abuse", c, hi)}
			for i := hi; i < len(all) && !r.Failed(); i += 3 {
				a := all[i]
				if err := a.f(h); err != nil && srv.Alive() {
					r.Violate("shut-out", fmt.Sprintf("before %q: %v", a.name, err), nil)
					return
				}
				r.Count("abuses", 1)
				r.Case(fmt.Sprintf("%d-%s", c, a.name))
				if !srv.Alive() {
					time.Sleep(time.Second) // let the death be reported
					if !r.Failed() {
						r.Violate("server-died", "the server ended after "+a.name, nil)
					}
					return
				}
				if !h.recovers(a.name) {
					return
				}
			}
		})
		atomic.StoreInt32(&w.stop, 1)
		wg.Wait()
		w.Drain()
		w.CloseAll()
		w.m.mu.Lock()
		r.Count("canary_accepted", len(w.m.accepted))
		w.m.mu.Unlock()
		if r.Failed() || !srv.Alive() {
			return
		}
		if n, dump := srv.settled(base, 6, 60*time.Second); dump != "" {
			r.Violate("leftovers", fmt.Sprintf("a minute after all clients left the server holds %d goroutines, %d when idle before", n, base), map[string]any{"stacks": trim(dump, 6000)})
		}
		mb := srv.rssPeak()
		r.Count(fmt.Sprintf("server%d_peak_mb", c), mb)
		if mb > 1500 {
			r.Violate("memory", fmt.Sprintf("hostile messages drove the server to %d MB", mb), nil)
		}
	})
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- P17

func p17(r *Report) {
	r.Rule = "a case is one state of an older connection in which its user logs in again, or one random history of logins, drops and takeovers under traffic; non-trivial when the newer login came while the older was unfinished"
	r.Need("takeovers", 60)
	r.Need("accepted", 500)
	r.Need("sessions", 100)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		parallel(r.pick(2, 8), 2, func(c int) {
			srv := newSrv(r, map[string]string{"directory": []string{"yes", "no"}[c%2]})
			srv.MustStart()
			defer srv.Stop()
			w := newWorld(r, srv, fmt.Sprintf("takeover world %d", c), 5)
			w.dropEvery, w.takeover, w.ackSome = 9, 7, true
			w.runAll(r.pick(70, 600))
			w.Drain()
			w.CloseAll()
			r.Case(fmt.Sprintf("takeover-world-%d", c))
			if c == 0 {
				r.Sample(w.m.wit())
			}
		})
	}()
	wg.Add(1)
	go func() { defer wg.Done(); p17silent(r) }()
	p17states(r)
	wg.Wait()
}

// p17silent has connections that nothing is heard from any more, as when the
// user's machine lost its network, next to one that pings as clients do.
func p17silent(r *Report) {
	r.Need("silent_ended", 4)
	r.Need("pinging_kept", 1)
	srv := newSrv(r, nil)
	srv.MustStart()
	defer srv.Stop()
	ids := manyIDs(6, "silent")
	for _, id := range ids {
		if err := srv.Create(id.Public, ""); err != nil {
			r.Violate("create-failed", err.Error(), nil)
			return
		}
	}
	kinds := []string{"after the login", "in a message", "with mail unacknowledged", "after some pings", "", "in the length of a message"}
	parallel(len(ids), len(ids), func(i int) {
		c, err := srv.dial()
		if err != nil {
			r.Violate("cannot-login", err.Error(), nil)
			return
		}
		defer c.Close()
		kx, err := srv.kxOn(c, ids[i])
		if err == nil {
			_, err = kx.Read()
		}
		if err != nil {
			r.Violate("cannot-login", err.Error(), nil)
			return
		}
		ended := make(chan time.Time, 1)
		go func() {
			for {
				c.SetReadDeadline(time.Now().Add(300 * time.Second))
				if _, err := kx.Read(); err != nil {
					ended <- time.Now()
					return
				}
			}
		}()
		ping := func(n int, every time.Duration) bool {
			for k := 0; k < n; k++ {
				if kx.Write(encMsg(rpc.Message{Command: rpc.TaggedCmdPing, Tag: uint32(k % 32)}, rpc.Ping{})) != nil {
					return false
				}
				select {
				case <-ended:
					return false
				case <-time.After(every):
				}
			}
			return true
		}
		switch kinds[i] {
		case "":
			if !ping(r.pick(4, 10), 10*time.Second) {
				r.Violate("pinging-ended", "a session was ended although its client sent a ping every 10 seconds", nil)
			}
			r.Count("pinging_kept", 1)
			r.Case("pinging")
			return
		case "in a message":
			c.Write(xdrLen(500, randBytes(sub(r.Seed, "silent"), 77)))
		case "in the length of a message":
			c.Write([]byte{0, 0})
		case "with mail unacknowledged":
			b, err := srv.Login(ids[i-2], nil)
			for k := 0; k < 4 && err != nil; k++ { // takes over from the silent one
				time.Sleep(300 * time.Millisecond)
				b, err = srv.Login(ids[i-2], nil)
			}
			if err == nil {
				for k := 0; k < 40; k++ {
					b.Cache(ids[i].Public.Identity, mkMail(0, i, k, 100))
				}
				b.Close()
			}
		case "after some pings":
			ping(3, 2*time.Second)
		}
		t0 := time.Now()
		select {
		case t := <-ended:
			r.Count("silent_ended", 1)
			r.Case("silent " + kinds[i])
			r.Count("silent_seconds", int(t.Sub(t0)/time.Second))
		case <-time.After(90 * time.Second):
			r.Violate("silent-kept", "the session of a client that is silent since 90 seconds ("+kinds[i]+") is still up", nil)
		}
	})
}

// p17states puts the older connection into a particular state first.
func p17states(r *Report) {
	srv := newSrv(r, map[string]string{"debug": "yes", "profiler": fmt.Sprintf("127.0.0.1:%d", freePort())})
	srv.MustStart()
	defer srv.Stop()
	type state struct {
		name string
		f    func(w *World, u, peer *User, rg *rand.Rand) *Bot
	}
	fill := func(w *World, peer, u *User, n, size int) {
		for i := 0; i < n; i++ {
			peer.seq++
			if peer.seq%3 == 0 {
				peer.seq++
			}
			k := mailKey{peer.i, u.i, peer.seq}
			w.m.offer(k, size)
			err := peer.b.Cache(u.ID.Public.Identity, mkMail(peer.i, u.i, peer.seq, size))
			w.m.delivered(k, size, err)
			if err == nil {
				r.Count("accepted", 1)
			}
		}
	}
	old := func(w *World, u *User) *Bot {
		if _, err := u.login(); err != nil {
			w.m.violate("cannot-login", "%v", err)
			return nil
		}
		return u.b
	}
	states := []state{
		{"idle", func(w *World, u, p *User, rg *rand.Rand) *Bot { return old(w, u) }},
		{"unacknowledged-few", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			atomic.StoreInt32(&u.hold, 1)
			b := old(w, u)
			fill(w, p, u, 5, 100)
			return b
		}},
		{"all-tags-out", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			atomic.StoreInt32(&u.hold, 1)
			b := old(w, u)
			fill(w, p, u, 40, 100)
			time.Sleep(100 * time.Millisecond)
			return b
		}},
		{"queue-full", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			atomic.StoreInt32(&u.hold, 1)
			b := old(w, u)
			fill(w, p, u, 110, 10)
			time.Sleep(200 * time.Millisecond)
			return b
		}},
		{"not-reading", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			if b == nil {
				return nil
			}
			b.mute()
			fill(w, p, u, 40, 200000)
			// and keep the server's reading side awake
			for i := 0; i < 25; i++ {
				b.send(rpc.Message{Command: rpc.TaggedCmdPing, Tag: uint32(i)}, rpc.Ping{})
			}
			time.Sleep(200 * time.Millisecond)
			return b
		}},
		{"half-frame", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			if b != nil {
				b.wmu.Lock()
				b.conn.Write(xdrLen(500, randBytes(rg, 77)))
				b.wmu.Unlock()
			}
			return b
		}},
		{"bad-ack", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			if b != nil {
				b.Ack(7)
				time.Sleep(50 * time.Millisecond)
			}
			return b
		}},
		{"reset", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			if b != nil {
				b.Abort()
			}
			return b
		}},
		{"reset-mid-mail", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			fill(w, p, u, 20, 50000)
			if b != nil {
				b.Abort()
			}
			return b
		}},
		{"just-closed", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			if b != nil {
				b.Close()
			}
			return b
		}},
		{"storm", func(w *World, u, p *User, rg *rand.Rand) *Bot {
			b := old(w, u)
			parallel(10, 10, func(i int) {
				c, err := srv.dial()
				if err != nil {
					return
				}
				defer c.Close()
				if kx, err := srv.kxOn(c, u.ID); err == nil {
					kx.Read()
					time.Sleep(time.Duration(i) * time.Millisecond)
				}
			})
			return b
		}},
	}
	w := newWorld(r, srv, "older connection states", 2*len(states))
	if r.Failed() {
		return
	}
	// one throw-away login so that lazily started things are counted
	time.Sleep(200 * time.Millisecond)
	base, _ := srv.goroutines()
	w.maxWait = 30 * time.Second
	for rep := 0; rep < r.pick(3, 20) && !r.Failed(); rep++ {
		parallel(len(states), 6, func(i int) {
			u, peer := w.Users[2*i], w.Users[2*i+1]
			st := states[i]
			if _, err := peer.login(); err != nil {
				w.m.violate("cannot-login", "%v", err)
				return
			}
			b := st.f(w, u, peer, sub(r.Seed, "st", i, rep))
			if b == nil {
				return
			}
			atomic.StoreInt32(&u.hold, 0)
			t0 := time.Now()
			if _, err := u.login(); err != nil {
				w.m.violate("cannot-login-"+st.name, "the user cannot log in again while its older connection is in state %q: %v", st.name, err)
				return
			}
			if d := time.Since(t0); d > 25*time.Second {
				w.m.violate("slow-takeover-"+st.name, "it took %v until the user was live again (older connection: %s)", d, st.name)
			}
			b.unmute()
			u.gone(b)
			fill(w, peer, u, 3, 20)
			// live: the new connection receives
			if !waitFor(25*time.Second, func() bool { return w.m.unacked(u.i) == 0 }) && !u.b.isClosed() {
				w.m.violate("stuck-"+st.name, "%d messages are not handed to the newer connection (older: %s)", w.m.unacked(u.i), st.name)
			}
			r.Count("takeovers", 1)
			r.Case(fmt.Sprintf("state-%s-%d", st.name, rep))
		})
	}
	w.Drain()
	w.CloseAll()
	if r.Failed() {
		return
	}
	if n, dump := srv.settled(base, 6, 60*time.Second); dump != "" {
		r.Violate("leftovers", fmt.Sprintf("a minute after all clients left the server holds %d goroutines, %d when idle before", n, base), map[string]any{"stacks": trim(dump, 6000)})
	}
}
