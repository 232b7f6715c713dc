package main

import (
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
)

// P28: resets of conversations.

type rsworld struct {
	r      *Report
	rng    *mrand.Rand
	b      *Bridge
	dir    bool
	lane   int
	n      int
	mal    *Peer // a conversation of the first client that is played
	hist   []string
	failed bool
	sent   []rsText
}

// rsText is a text that one client sent to another.
type rsText struct {
	from, to *Node
	text     string
	shown    bool
}

func (w *rsworld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *rsworld) bad(sig, f string, a ...any) {
	w.failed = true
	wit := map[string]any{"history": w.hist}
	for _, n := range w.b.nodes {
		wit[n.c.Nick] = trim(lastLines(n.c.Console(), 15), 2500)
	}
	h := w.hist
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	w.r.Violate(sig, fmt.Sprintf(f, a...)+" (lane "+fmt.Sprint(w.lane)+", directory "+fmt.Sprint(w.dir)+": "+strings.Join(h, "; ")+")", wit)
}

func newRsworld(r *Report, rng *mrand.Rand, lane int, dir bool) *rsworld {
	w := &rsworld{r: r, rng: rng, b: newBridge(r, "alice", "bob", "carol"), dir: dir, lane: lane}
	if err := w.b.start(); err != nil {
		panic(err.Error())
	}
	for i, x := range w.b.nodes {
		for _, y := range w.b.nodes[i+1:] {
			x.c.Type("/find " + y.c.Nick)
			if !x.c.wait(15*time.Second, func() bool { return len(x.c.established()) > 0 && x.knows(y) && y.knows(x) }) {
				panic("no exchange between " + x.c.Nick + " and " + y.c.Nick)
			}
		}
	}
	a := w.b.nodes[0]
	w.mal = a.s.newPeer("mallory", &a.c.ID.Public)
	if err := w.mal.KX(); err != nil {
		panic(err.Error())
	}
	if !dir {
		for _, n := range w.b.nodes {
			n.s.mu.Lock()
			n.s.dir = false
			n.s.mu.Unlock()
			n.offline()
			n.online()
		}
	}
	return w
}

func (n *Node) knows(o *Node) bool {
	id := o.me()
	_, ok := n.c.established()[hex.EncodeToString(id[:])]
	return ok
}

// about is what the client has saved about another.
func (n *Node) about(id [32]byte) string {
	return n.c.tree("inbound/" + hex.EncodeToString(id[:]))
}

func (n *Node) offline() {
	n.s.mu.Lock()
	n.s.refuse = true
	n.s.mu.Unlock()
	n.s.Drop()
}

func (n *Node) online() bool {
	n.s.mu.Lock()
	n.s.refuse = false
	n.s.mu.Unlock()
	for i := 0; i < 20 && n.s.Conn(0) == nil; i++ {
		n.c.Type("/online")
		n.c.wait(500*time.Millisecond, func() bool { return n.s.Conn(0) != nil })
	}
	return n.s.Conn(0) != nil
}

func (w *rsworld) say(x, y *Node) *rsText {
	w.n++
	t := rsText{from: x, to: y, text: fmt.Sprintf("say-%d-%d-", w.lane, w.n)}
	w.note("%s says %d to %s", x.c.Nick, w.n, y.c.Nick)
	if !x.c.Type("/m " + y.c.Nick + " " + t.text) {
		w.bad("dead", "%s takes no command %s", x.c.Nick, x.c.Death())
	}
	w.sent = append(w.sent, t)
	return &w.sent[len(w.sent)-1]
}

// where is a text shown among the clients: window and number of times.
func (w *rsworld) where(t rsText) (right, wrong int) {
	id := t.from.me()
	for _, n := range w.b.nodes {
		for f, l := range n.c.logsWith(t.text) {
			c := strings.Count(l, t.text)
			switch {
			case n == t.to && strings.HasSuffix(f, "."+hex.EncodeToString(id[:])+".log"):
				right += c
			case n == t.from: // the sender's own window
			default:
				wrong += c
			}
		}
	}
	return
}

// settle waits until everything sent is delivered and checks it.
func (w *rsworld) settle(after string) bool {
	if w.failed {
		return false
	}
	if !w.b.quiet(40 * time.Second) {
		w.bad("not-delivered", "after %s mail is not taken", after)
		return false
	}
	for _, t := range w.sent {
		right, wrong := w.where(t)
		if right > 1 {
			w.bad("shown-twice", "a text is shown %d times", right)
		}
		if wrong > 0 {
			w.bad("shown-elsewhere", "a text of %s to %s is shown elsewhere", t.from.c.Nick, t.to.c.Nick)
		}
	}
	w.sent = nil
	return !w.failed
}

// all pairs reach each other, twice in turns.
func (w *rsworld) conversations(after string) {
	for round := 0; round < 2 && !w.failed; round++ {
		for _, x := range w.b.nodes {
			for _, y := range w.b.nodes {
				if x == y || w.failed {
					continue
				}
				t := *w.say(x, y)
				if !y.c.wait(15*time.Second, func() bool { r, _ := w.where(t); return r == 1 }) {
					w.bad("conversation-lost", "after %s a message of %s to %s does not arrive", after, x.c.Nick, y.c.Nick)
					return
				}
				w.r.Count("conversations", 1)
			}
		}
	}
	w.n++
	t := fmt.Sprintf("mal-%d-%d-", w.lane, w.n)
	a := w.b.nodes[0]
	if err := w.mal.Send(rpc.PrivateMessage{Text: t}); err != nil || !a.c.wait(15*time.Second, func() bool { return len(a.c.logsWith(t)) == 1 }) {
		w.bad("conversation-lost", "after %s a message of mallory to alice does not arrive", after)
	}
	w.settle(after)
}

func (w *rsworld) reset(x, y *Node) {
	w.note("%s resets %s", x.c.Nick, y.c.Nick)
	if !x.c.Type("/reset " + y.c.Nick) {
		w.bad("dead", "%s takes no command %s", x.c.Nick, x.c.Death())
	}
	w.r.Count("resets", 1)
}

func (w *rsworld) hold(n *Node, on bool) {
	w.note("hold %s %v", n.c.Nick, on)
	w.b.Hold(n, on)
}

// chat lets the two send each other some messages.
func (w *rsworld) chat(x, y *Node) {
	for i := w.rng.Intn(4); i > 0; i-- {
		if w.rng.Intn(2) == 0 {
			x, y = y, x
		}
		w.say(x, y)
	}
}

func (w *rsworld) restart(n *Node) {
	w.note("%s restarts", n.c.Nick)
	if w.rng.Intn(2) == 0 {
		n.c.Quit()
	}
	n.c.Kill()
	n.c.MustStart()
	if n.s.Conn(20*time.Second) == nil {
		w.bad("dead", "%s does not connect after a restart", n.c.Nick)
	}
	w.r.Count("restarts", 1)
}

func (w *rsworld) proxy(to *Node, from [32]byte, cmd []byte) {
	if err := to.s.push(rpc.Push{From: from, Received: time.Now().Unix(), Payload: cmd}, true, 20*time.Second); err != nil {
		w.bad("not-handled", "a reset request is not acknowledged: %v", err)
	}
}

func (w *rsworld) step() {
	p := w.rng.Perm(3)
	x, y, z := w.b.nodes[p[0]], w.b.nodes[p[1]], w.b.nodes[p[2]]
	xz, yz, zx, zy := x.about(z.me()), y.about(z.me()), z.about(x.me()), z.about(y.me())
	name := ""
	switch k := w.rng.Intn(10); k {
	case 0:
		name = "a reset"
		w.reset(x, y)
	case 1, 2:
		name = "a reset with messages under way"
		hx, hy := w.rng.Intn(3) > 0, w.rng.Intn(3) > 0
		w.hold(x, hx)
		w.hold(y, hy)
		w.chat(x, y)
		w.reset(x, y)
		w.chat(x, y)
		if w.rng.Intn(2) == 0 {
			x, y = y, x
		}
		w.hold(x, false)
		time.Sleep(time.Duration(w.rng.Intn(200)) * time.Millisecond)
		w.chat(x, y)
		w.hold(y, false)
	case 3, 4:
		name = "resets of both sides"
		w.hold(x, true)
		w.hold(y, true)
		if w.rng.Intn(2) == 0 {
			w.chat(x, y)
		}
		w.reset(x, y)
		w.reset(y, x)
		// both requests must be on their way, that is what at once means
		if !waitFor(10*time.Second, func() bool { return w.b.waiting(x) > 0 && w.b.waiting(y) > 0 }) {
			w.bad("no-request", "a reset sends no request")
			return
		}
		if w.rng.Intn(2) == 0 {
			x, y = y, x
		}
		w.hold(x, false)
		time.Sleep(time.Duration(w.rng.Intn(300)) * time.Millisecond)
		w.hold(y, false)
	case 5:
		name = "a reset while the other side is offline"
		w.hold(y, true)
		y.offline()
		if w.rng.Intn(2) == 0 {
			w.say(x, y)
		}
		w.reset(x, y)
		if w.rng.Intn(2) == 0 {
			w.say(x, y)
		}
		time.Sleep(time.Duration(w.rng.Intn(300)) * time.Millisecond)
		if w.rng.Intn(2) == 0 {
			w.restart0(y)
		}
		if !y.online() {
			w.bad("dead", "%s does not connect", y.c.Nick)
		}
		w.hold(y, false)
	case 6:
		name = "a reset and a restart of who asked"
		w.hold(x, true)
		w.reset(x, y)
		if !waitFor(10*time.Second, func() bool { return w.b.waiting(x) > 0 }) {
			w.bad("no-request", "a reset is not answered")
			return
		}
		w.restart(x)
		w.hold(x, false)
	case 7:
		name = "a reset and a restart of who was asked"
		early := w.rng.Intn(2) == 0
		w.hold(x, !early)
		w.hold(y, early)
		w.reset(x, y)
		if !waitFor(10*time.Second, func() bool { return w.b.waiting(x) > 0 || w.b.waiting(y) > 0 }) {
			w.bad("no-request", "a reset is not answered")
			return
		}
		w.restart(y)
		w.hold(x, false)
		w.hold(y, false)
	case 8:
		name = "a second reset before the first is done"
		w.hold(x, true)
		w.reset(x, y)
		if !waitFor(10*time.Second, func() bool { return w.b.waiting(x) > 0 }) {
			w.bad("no-request", "a reset is not answered")
			return
		}
		who := x
		if w.rng.Intn(2) == 0 {
			who = y // has started the exchange
		}
		if who == x {
			w.reset(x, y)
		} else {
			w.reset(y, x)
		}
		w.hold(x, false)
	case 9:
		name = "requests of others"
		a := w.b.nodes[0]
		type st struct{ n, o *Node }
		before := map[st]string{}
		for _, n := range w.b.nodes {
			for _, o := range w.b.nodes {
				if o != n {
					before[st{n, o}] = n.about(o.me())
				}
			}
		}
		req := xdrBytes(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "reset"})
		stranger := newID("stranger").Public.Identity
		w.note("requests of others")
		w.proxy(x, stranger, req)
		w.proxy(x, y.me(), xdrBytes(rpc.ProxyCmd{Command: 77, Message: "x"}))
		w.proxy(x, y.me(), xdrBytes(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "reset"})[:w.rng.Intn(8)])
		w.proxy(x, y.me(), randBytes(w.rng, w.rng.Intn(200)))
		w.proxy(x, stranger, xdrBytes(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: hex.EncodeToString(func() []byte { i := y.me(); return i[:] }())}))
		// in the clear only as a request, not as a message
		if err := x.s.Push(y.me(), req); err != nil {
			w.bad("not-handled", "a message is not acknowledged: %v", err)
		}
		// mallory may reset her own
		w.mal.mu.Lock()
		w.mal.r = nil
		w.mal.mu.Unlock()
		w.proxy(a, pid(w.mal), req)
		if !w.mal.await(15*time.Second, func() bool { return w.mal.r != nil }) {
			w.bad("no-exchange", "a reset request of someone known is not answered with an exchange (%v)", w.mal.bad)
			return
		}
		if !w.b.quiet(20 * time.Second) {
			w.bad("not-delivered", "after requests of others mail is not taken")
			return
		}
		for k, v := range before {
			if now := k.n.about(k.o.me()); now != v {
				w.bad("reset-by-other", "a request that is not one of %s changes what %s has of %s:\n%s", k.o.c.Nick, k.n.c.Nick, k.o.c.Nick, diffLines(v, now))
				return
			}
		}
		w.r.Count("foreign_requests", 7)
		w.r.Case("foreign requests")
	}
	if w.failed {
		return
	}
	if w.rng.Intn(3) == 0 {
		// the others go on meanwhile
		t := *w.say(x, z)
		if !z.c.wait(15*time.Second, func() bool { r, _ := w.where(t); return r == 1 }) {
			w.bad("others-affected", "during %s a message of %s to %s, who is not part of it, does not arrive", name, x.c.Nick, z.c.Nick)
			return
		}
	} else if !w.failed {
		if !w.b.quiet(30 * time.Second) {
			w.bad("not-delivered", "after %s mail is not taken", name)
			return
		}
		x, y = w.b.nodes[p[0]], w.b.nodes[p[1]]
		for _, c := range []struct {
			n, o *Node
			v    string
		}{{x, z, xz}, {y, z, yz}, {z, x, zx}, {z, y, zy}} {
			if now := c.n.about(c.o.me()); now != c.v {
				w.bad("others-affected", "%s changes what %s has of %s, who is not part of it:\n%s", name, c.n.c.Nick, c.o.c.Nick, diffLines(c.v, now))
				return
			}
		}
	}
	if !w.settle(name) {
		return
	}
	w.r.Case(fmt.Sprintf("%s, directory %v", name, w.dir))
	w.conversations(name)
}

// restart0 restarts a client that its server refuses.
func (w *rsworld) restart0(n *Node) {
	w.note("%s restarts offline", n.c.Nick)
	n.c.Kill()
	n.c.MustStart()
}

func p28lane(r *Report, rng *mrand.Rand, lane, steps int) {
	w := newRsworld(r, rng, lane, lane%3 != 2)
	defer func() {
		for _, n := range w.b.nodes {
			n.c.Kill()
		}
	}()
	for i := 0; i < steps && !w.failed && !r.Failed(); i++ {
		w.note("--")
		w.step()
		for _, n := range w.b.nodes {
			if !w.failed && !n.c.Alive() {
				w.bad("dead", "%s died: %s", n.c.Nick, n.c.Death())
			}
		}
	}
}

func p28(r *Report) {
	r.Rule = "one case per circumstance of a reset and mode of the server"
	lanes := 6
	for round := 0; round < r.pick(1, 6); round++ {
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				p28lane(r, mrand.New(mrand.NewSource(r.Seed*1000+int64(round*lanes+l))), l, r.pick(14, 40))
			}(l)
		}
		wg.Wait()
	}
	r.Need("resets", 20)
	r.Need("conversations", 100)
	r.Need("foreign_requests", 7)
}

func init() { register("P28", p28) }
