package main

import (
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"
)

// Real clients on a real server.

// Link is a connection of a client to its server that can fail.
type Link struct {
	Addr string
	to   string
	ln   net.Listener
	mu   sync.Mutex
	down bool // refuses connections
	hold bool // carries nothing to the client
	keep bool // carries nothing to the server
	cs   []net.Conn
	cond *sync.Cond
	n    int
	live int
}

func newLink(to string) *Link {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	l := &Link{Addr: ln.Addr().String(), to: to, ln: ln}
	l.cond = sync.NewCond(&l.mu)
	onCleanup(func() { ln.Close(); l.Cut() })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go l.carry(c)
		}
	}()
	return l
}

func (l *Link) carry(c net.Conn) {
	l.mu.Lock()
	if l.down {
		l.mu.Unlock()
		c.Close()
		return
	}
	l.mu.Unlock()
	s, err := net.DialTimeout("tcp", l.to, 5*time.Second)
	if err != nil {
		c.Close()
		return
	}
	l.mu.Lock()
	if l.down {
		l.mu.Unlock()
		c.Close()
		s.Close()
		return
	}
	l.cs = append(l.cs, c, s)
	l.n++
	l.live++
	l.mu.Unlock()
	copyTo := func(dst, src net.Conn, held *bool, wg *sync.WaitGroup) {
		defer wg.Done()
		b := make([]byte, 32768)
		for {
			n, err := src.Read(b)
			l.mu.Lock()
			for *held && !l.down {
				l.cond.Wait()
			}
			l.mu.Unlock()
			if n > 0 {
				if _, e := dst.Write(b[:n]); e != nil {
					break
				}
			}
			if err != nil {
				break
			}
		}
		dst.Close()
		src.Close()
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go copyTo(s, c, &l.keep, &wg)
	go copyTo(c, s, &l.hold, &wg)
	wg.Wait()
	l.mu.Lock()
	l.live--
	l.mu.Unlock()
}

// Hold stops what is carried to the client (or to the server).
func (l *Link) Hold(toClient, toServer bool) {
	l.mu.Lock()
	l.hold, l.keep = toClient, toServer
	l.cond.Broadcast()
	l.mu.Unlock()
}

// Cut breaks the connection; what was held is lost.
func (l *Link) Cut() {
	l.mu.Lock()
	d := l.down
	l.down = true
	cs := l.cs
	l.cs = nil
	l.cond.Broadcast()
	l.mu.Unlock()
	for _, c := range cs {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		c.Close()
	}
	l.mu.Lock()
	l.down = d
	l.mu.Unlock()
}

// Down makes the server unreachable.
func (l *Link) Down() {
	l.mu.Lock()
	l.down = true
	l.mu.Unlock()
	l.Cut()
}

func (l *Link) Up() {
	l.mu.Lock()
	l.down, l.hold, l.keep = false, false, false
	l.cond.Broadcast()
	l.mu.Unlock()
}

// peerCert is the certificate a server shows.
func peerCert(addr string) []byte {
	c, err := tls.DialWithDialer(&net.Dialer{Timeout: 10 * time.Second}, "tcp", addr, &tls.Config{InsecureSkipVerify: true})
	must(err)
	defer c.Close()
	return c.ConnectionState().PeerCertificates[0].Raw
}

// client is a real client with an account on the server. It is reached
// through addr, if that is not empty.
func (s *Srv) client(nick, addr string) *Cli {
	id := newID(nick)
	if err := s.Create(id.Public, ""); err != nil {
		panic("no account for " + nick + ": " + err.Error())
	}
	return newCli(s.r, id, or(addr, s.Addr), s.PubID(), peerCert(s.Addr))
}

func (c *Cli) me() [32]byte { return c.ID.Public.Identity }

func hexed(id [32]byte) string { return hex.EncodeToString(id[:]) }

// connects counts how often the client went online.
func (c *Cli) connects() int { return strings.Count(c.Console(), "Connected to server") }

// online waits until the client went online again after its n-th time.
func (c *Cli) online(n int, d time.Duration) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) && c.Alive() {
		if c.wait(2*time.Second, func() bool { return c.connects() > n }) {
			return true
		}
		if !c.Type("/online") {
			return false
		}
	}
	return false
}

func (c *Cli) knows(id [32]byte) bool {
	_, ok := c.established()[hexed(id)]
	return ok
}

// findKX makes two clients exchange keys over the directory.
func findKX(a, b *Cli) error {
	for i := 0; i < 3; i++ {
		a.Type("/find " + b.Nick)
		if a.wait(10*time.Second, func() bool { return a.knows(b.me()) && b.knows(a.me()) }) {
			return nil
		}
	}
	return fmt.Errorf("no exchange over the directory: %s; %s", trim(lastLines(a.Console(), 6), 600), trim(lastLines(b.Console(), 6), 600))
}

// pwKX makes two clients exchange keys with a password and a PIN.
func pwKX(a, b *Cli, pw string) error {
	mark := len(a.Screen())
	had := strings.Count(a.Console(), "PIN: ")
	a.Type("/kx")
	if !a.window(mark, "uploading", "derived", "readable", "counter", "identify") {
		return fmt.Errorf("the window of /kx does not open")
	}
	a.Keys(pw + "\r")
	if !a.wait(20*time.Second, func() bool { return strings.Count(a.Console(), "PIN: ") > had }) {
		return fmt.Errorf("no PIN: %s", trim(lastLines(a.Console(), 6), 600))
	}
	t := a.Console()
	t = t[strings.LastIndex(t, "PIN: ")+5:]
	pin := strings.TrimSpace(strings.FieldsFunc(t, func(r rune) bool { return r < '0' || r > '9' })[0])
	a.ready()
	mark = len(b.Screen())
	b.Type("/fetch " + pin)
	if !b.window(mark, "finalize", "Decrypt", "readable", "shared") {
		return fmt.Errorf("the window for the password does not open: %s", trim(lastLines(b.Console(), 6), 600))
	}
	mark = len(b.Screen())
	b.Keys(pw + "\r")
	if !b.window(mark, "authenticity", "Fingerprint", "established", "connecting") {
		return fmt.Errorf("the window with the fingerprint does not open: %s", trim(lastLines(b.Console(), 6), 600))
	}
	time.Sleep(50 * time.Millisecond)
	b.Keys("yes\r")
	if !a.wait(20*time.Second, func() bool { return a.knows(b.me()) && b.knows(a.me()) }) {
		return fmt.Errorf("the exchange does not complete: %s; %s", trim(lastLines(a.Console(), 6), 600), trim(lastLines(b.Console(), 6), 600))
	}
	b.ready()
	return nil
}

// shows tells whether the window of from has the text, and waits for it.
func (c *Cli) shows(from [32]byte, text string, d time.Duration) bool {
	return c.wait(d, func() bool {
		for f, l := range c.logsWith(text) {
			if strings.HasSuffix(f, "."+hexed(from)+".log") && strings.Contains(l, text) {
				return true
			}
		}
		return false
	})
}
