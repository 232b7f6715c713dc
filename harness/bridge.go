package main

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Bridge connects real clients: each is served by a monitor's server of its
// own, and what one sends to another is queued and delivered in order, when
// the monitor lets it.
type Bridge struct {
	r     *Report
	nodes []*Node
	mu    sync.Mutex
	cond  *sync.Cond
	stop  bool
}

// Node is a client of a bridge with the mail that waits for it.
type Node struct {
	b    *Bridge
	s    *FSrv
	c    *Cli
	q    []mail
	hold bool // deliver nothing
	busy bool // the first of the queue is being delivered
	n    int  // delivered
}

type mail struct {
	from    [32]byte
	payload []byte
	clear   bool
}

func (n *Node) me() [32]byte { return n.c.ID.Public.Identity }

func newBridge(r *Report, nicks ...string) *Bridge {
	b := &Bridge{r: r}
	b.cond = sync.NewCond(&b.mu)
	for _, k := range nicks {
		s := newFSrv(r)
		n := &Node{b: b, s: s, c: s.newClient(k)}
		b.nodes = append(b.nodes, n)
	}
	for _, n := range b.nodes {
		n := n
		n.s.listed = map[string]zkidentity.PublicIdentity{}
		for _, o := range b.nodes {
			n.s.listed[o.c.Nick] = o.c.ID.Public
		}
		n.s.onCache = func(f *FConn, m rpc.Message, c rpc.Cache) bool {
			if !b.queue(n, c.To, c.Payload, false) {
				return false
			}
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: m.Tag}, rpc.Acknowledge{}))
			return true
		}
		n.s.onOther = func(f *FConn, m rpc.Message, body []byte) bool {
			var x rpc.Proxy
			if m.Command != rpc.TaggedCmdProxy {
				return false
			}
			if _, err := xdr.Unmarshal(bytes.NewReader(body), &x); err != nil || !b.queue(n, x.To, x.Payload, true) {
				return false
			}
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdProxyReply, Tag: m.Tag}, rpc.ProxyReply{To: x.To}))
			return true
		}
		go b.deliver(n)
	}
	onCleanup(func() { b.mu.Lock(); b.stop = true; b.cond.Broadcast(); b.mu.Unlock() })
	return b
}

func (b *Bridge) node(id [32]byte) *Node {
	for _, n := range b.nodes {
		if n.me() == id {
			return n
		}
	}
	return nil
}

func (b *Bridge) queue(from *Node, to [32]byte, p []byte, clear bool) bool {
	n := b.node(to)
	if n == nil {
		return false
	}
	b.mu.Lock()
	n.q = append(n.q, mail{from.me(), p, clear})
	b.cond.Broadcast()
	b.mu.Unlock()
	return true
}

func (b *Bridge) deliver(n *Node) {
	for {
		b.mu.Lock()
		for !b.stop && (n.hold || len(n.q) == 0) {
			b.cond.Wait()
		}
		if b.stop {
			b.mu.Unlock()
			return
		}
		m := n.q[0]
		n.busy = true
		b.mu.Unlock()
		err := n.s.push(rpc.Push{From: m.from, Received: time.Now().Unix(), Payload: m.payload}, m.clear, 20*time.Second)
		b.mu.Lock()
		n.busy = false
		if err == nil {
			n.q = n.q[1:]
			n.n++
		}
		b.cond.Broadcast()
		b.mu.Unlock()
		if err != nil {
			time.Sleep(20 * time.Millisecond)
		}
	}
}

// Hold stops or resumes the delivery to a client.
func (b *Bridge) Hold(n *Node, on bool) {
	b.mu.Lock()
	n.hold = on
	b.cond.Broadcast()
	for on && n.busy {
		b.cond.Wait()
	}
	b.mu.Unlock()
}

// waiting is how much mail waits for a client.
func (b *Bridge) waiting(n *Node) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(n.q)
}

// quiet waits until nothing is under way any more.
func (b *Bridge) quiet(d time.Duration) bool {
	end := time.Now().Add(d)
	since := time.Now()
	for time.Now().Before(end) {
		b.mu.Lock()
		idle := true
		for _, n := range b.nodes {
			idle = idle && len(n.q) == 0 && !n.busy
		}
		b.mu.Unlock()
		if !idle {
			since = time.Now()
		}
		if time.Since(since) > 300*time.Millisecond {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// start brings the clients up.
func (b *Bridge) start() error {
	for _, n := range b.nodes {
		n.c.MustStart()
		if n.s.Conn(20*time.Second) == nil {
			return fmt.Errorf("%s does not connect: %s", n.c.Nick, trim(n.c.Console(), 300))
		}
	}
	return nil
}
