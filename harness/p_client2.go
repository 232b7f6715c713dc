package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// P33: text goes to whom it is meant for and is shown under who sent it.

type person struct {
	p    *Peer
	nick string // what the user of the client calls them
	had  int    // messages seen so far
}

// logsWith returns the conversation logs (names relative to logs/) that have
// the marker, with the line it is in.
func (c *Cli) logsWith(marker string) map[string]string {
	m := map[string]string{}
	fs, _ := filepath.Glob(c.path("logs", "*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, marker) {
				m[filepath.Base(f)] += l
			}
		}
	}
	return m
}

func (w *Crowd) logOf(id [32]byte) string {
	return "." + hex.EncodeToString(id[:]) + ".log"
}

func (w *Crowd) logOfGroup(g string) string {
	host, _, _ := strings.Cut(w.c.addr, ":")
	return "groupchat." + g + "." + host + ".log"
}

// shown waits until the marker is in exactly one conversation, the one with
// the suffix, in a line that starts with who.
func (w *Crowd) shown(marker, suffix, who string) string {
	var m map[string]string
	w.c.wait(10*time.Second, func() bool { m = w.c.logsWith(marker); return len(m) > 0 })
	if len(m) != 1 {
		return fmt.Sprintf("it is shown in %d windows %v instead of the one of %s", len(m), keys(m), suffix)
	}
	for f, l := range m {
		if !strings.HasSuffix(f, suffix) {
			return fmt.Sprintf("it is shown in the window %s instead of %s", f, suffix)
		}
		// date, time, text
		p := strings.SplitN(l, " ", 3)
		if len(p) == 3 && !strings.HasPrefix(p[2], who) {
			return fmt.Sprintf("it is shown as %q, the sender is %q", trim(p[2], 80), who)
		}
	}
	return ""
}

func keys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// settled waits until the client has changed windows: it does so in the
// background, and what it prints afterwards is in the new window.
func (w *Crowd) settled() bool {
	count := func() int {
		n := strings.Count(w.c.Console(), "usage      :")
		for _, l := range w.c.logsWith("usage      :") {
			n += strings.Count(l, "usage      :")
		}
		return n
	}
	n := count()
	return w.c.Type("/help query") && w.c.wait(20*time.Second, func() bool { return count() > n })
}

// sentinel has the client send a message to dave and waits for it: everything
// it sent before has arrived then.
func (w *Crowd) sentinel() error {
	w.n++
	t := fmt.Sprintf("sentinel-%d-", w.n)
	if !w.c.Type("/m dave " + t) {
		return fmt.Errorf("the client takes no command %s", w.dead())
	}
	if !w.dave.await(20*time.Second, func() bool {
		for i := len(w.dave.got) - 1; i >= 0; i-- {
			if strings.Contains(string(w.dave.got[i].Body), t) {
				return true
			}
		}
		return false
	}) {
		return fmt.Errorf("messages to dave do not arrive %s", w.dead())
	}
	return nil
}

// arrival is a message of the client as its receiver saw it.
type arrival struct {
	Who   int
	Group string
	Text  string
	Me    bool
}

// arrivals returns what arrived since the last call, without sentinels.
func arrivals(ps []*person) []arrival {
	var o []arrival
	for i, x := range ps {
		x.p.mu.Lock()
		l := append([]gotMsg(nil), x.p.got[x.had:]...)
		x.had = len(x.p.got)
		x.p.mu.Unlock()
		for _, g := range l {
			switch g.Cmd {
			case rpc.CRPCCmdPrivateMessage:
				var v rpc.PrivateMessage
				unxdr(g.Body, &v)
				if strings.HasPrefix(v.Text, "sentinel-") {
					continue
				}
				o = append(o, arrival{i, "", v.Text, v.Mode == rpc.MessageModeMe})
			case rpc.CRPCCmdGroupMessage:
				var v rpc.GroupMessage
				unxdr(g.Body, &v)
				o = append(o, arrival{i, v.Name, v.Message, v.Mode == rpc.MessageModeMe})
			}
		}
	}
	return o
}

func sameArrivals(a, b []arrival) bool {
	f := func(x []arrival) string {
		var s []string
		for _, v := range x {
			s = append(s, fmt.Sprintf("%+v", v))
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	return f(a) == f(b)
}

var p33nicks = []string{"bob", "bob", "carol", "bob_", "crew", "mine", "crew", "bob carol", "carol hello", "/quit", "a/b", "%s%d", "bob__", "eve", "alice", "../../x", "Bob", "wörld", "x"}

func p33text(rng *mrand.Rand, marker string) string {
	ws := []string{"bob", "carol", "crew", "m", "me", "%s", "%d%n", "hello", "wörld", "世界", "a  b", "/m", "gc", "x", "100%", "\\n", "[31m", "<bob>", "* bob"}
	s := marker
	for i := rng.Intn(5); i > 0; i-- {
		s += " " + ws[rng.Intn(len(ws))]
	}
	if rng.Intn(3) == 0 {
		// the marker last: the text starts like a command's argument
		f := strings.SplitN(s, " ", 2)
		if len(f) == 2 && !strings.HasPrefix(f[1], "/") && !strings.HasPrefix(f[1], " ") {
			s = f[1] + " " + f[0]
		}
	}
	return s
}

func p33lane(r *Report, rng *mrand.Rand, lane, steps int) {
	w, err := newCrowd(r, "alice")
	if err != nil {
		r.Inconclusive("the crowd does not come up: %v", err)
		return
	}
	ps := []*person{{p: w.dave, nick: "dave"}, {p: w.bob, nick: "bob"}, {p: w.carol, nick: "carol"}}
	taken := map[string]bool{"alice": true, "dave": true, "bob": true, "carol": true}
	inGroup := map[string][]int{"crew": {1, 2}, "mine": {1}}
	arrivals(ps)
	hist := []string{}
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	bad := func(kind, f string, a ...any) {
		r.Violate("route:"+kind, fmt.Sprintf(f, a...), hist)
	}
	n := 0
	marker := func() string { n++; return fmt.Sprintf("t%d.%d.", lane, n) }
	// expect runs an action of the user and checks what arrives where
	expect := func(kind, suffix, who, mk string, want []arrival, lines ...string) bool {
		for k, l := range lines {
			if k > 0 && !w.settled() {
				bad("dead", "the client takes no command %s", w.dead())
				return false
			}
			note("type %q", l)
			if !w.c.Type(l) {
				bad("dead", "the client takes no command %s", w.dead())
				return false
			}
		}
		if err := w.sentinel(); err != nil {
			bad("dead", "%v", err)
			return false
		}
		got := arrivals(ps)
		r.Case(fmt.Sprintf("%s/%d", kind, len(want)))
		r.Count("sent", len(got))
		if !sameArrivals(got, want) {
			bad(kind, "after %q: arrived %+v, want %+v (receivers: %s)", lines, got, want, nicks(ps))
			return false
		}
		if suffix != "" {
			if e := w.shown(mk, suffix, who); e != "" {
				bad(kind+"-echo", "after %q: %s", lines, e)
				return false
			}
		}
		return true
	}
	for step := 0; step < steps; step++ {
		mk := marker()
		t := p33text(rng, mk)
		i := rng.Intn(len(ps))
		x := ps[i]
		gs := []string{"crew", "mine"}
		g := gs[rng.Intn(2)]
		groupWant := func(me bool) []arrival {
			var o []arrival
			for _, m := range inGroup[g] {
				o = append(o, arrival{m, g, t, me})
			}
			return o
		}
		spaced := strings.Contains(x.nick, " ")
		ok := true
		switch op := rng.Intn(12); {
		case op == 0 && len(ps) < 14 || step == 0:
			nick := p33nicks[rng.Intn(len(p33nicks))]
			if lane == 0 && step == 0 {
				nick = "bob"
			}
			p := w.s.newPeer(nick, &w.c.ID.Public)
			note("newcomer %q", nick)
			if err := p.KX(); err != nil {
				bad("kx", "exchange with a newcomer called %q: %v", nick, err)
				return
			}
			for taken[nick] {
				nick += "_"
			}
			taken[nick] = true
			ps = append(ps, &person{p: p, nick: nick})
			r.Count("newcomers", 1)
			if rng.Intn(2) == 0 {
				i, x = len(ps)-1, ps[len(ps)-1]
				p.Send(rpc.PrivateMessage{Text: mk})
				note("newcomer says %q", mk)
				if e := w.shown(mk, w.logOf(pid(p)), "<"+x.nick+">"); e != "" {
					bad("incoming", "a message of %q: %s", x.nick, e)
					return
				}
			}
		case op == 1: // someone says something
			mode, who := rpc.MessageMode(rpc.MessageModeNormal), "<"+x.nick+">"
			if rng.Intn(3) == 0 {
				mode, who = rpc.MessageModeMe, "* "+x.nick
			}
			note("%q (%d) says %q", x.nick, i, t)
			if err := x.p.Send(rpc.PrivateMessage{Text: t, Mode: mode}); err != nil {
				bad("incoming", "a message of %q: %v", x.nick, err)
				return
			}
			r.Case("incoming")
			r.Count("received", 1)
			if e := w.shown(mk, w.logOf(pid(x.p)), who); e != "" {
				bad("incoming", "a message of %q: %s", x.nick, e)
				return
			}
		case op == 2: // in a group
			i = inGroup[g][rng.Intn(len(inGroup[g]))]
			x = ps[i]
			note("%q says %q in %s", x.nick, t, g)
			if err := x.p.Send(rpc.GroupMessage{Name: g, Generation: 1, Message: t}); err != nil {
				bad("incoming-group", "%v", err)
				return
			}
			r.Case("incoming-group")
			r.Count("received", 1)
			if e := w.shown(mk, w.logOfGroup(g), "<"+x.nick+">"); e != "" {
				bad("incoming-group", "a message of %q in %s: %s", x.nick, g, e)
				return
			}
		case op == 3 || op == 4:
			if !spaced {
				ok = expect("m", w.logOf(pid(x.p)), "<alice>", mk, []arrival{{i, "", t, false}}, "/m "+x.nick+" "+t)
			}
		case op == 5 || op == 6:
			if spaced || x.nick == "crew" || x.nick == "mine" || strings.HasPrefix(t, "/") {
				break
			}
			l := t
			me := rng.Intn(4) == 0
			who := "<alice>"
			if me {
				l, who = "/me "+t, "* alice"
			}
			ok = expect("query", w.logOf(pid(x.p)), who, mk, []arrival{{i, "", t, me}}, "/query "+x.nick, l)
		case op == 7:
			me := rng.Intn(4) == 0
			l, who := "/gc m "+g+" "+t, "<alice>"
			if me {
				l, who = "/gc me "+g+" "+t, "* alice"
			}
			ok = expect("gc", w.logOfGroup(g), who, mk, groupWant(me), l)
		case op == 8:
			ok = expect("query-group", w.logOfGroup(g), "<alice>", mk, groupWant(false), "/query "+g, t)
		case op == 9 || op == 10: // whatever window comes
			for k := 1 + rng.Intn(5); k > 0; k-- {
				w.c.Keys([]string{"\x0e", "\x10"}[rng.Intn(2)])
			}
			note("cycle, type %q", t)
			if !w.settled() || !w.c.Type(t) {
				bad("dead", "the client takes no command %s", w.dead())
				return
			}
			if err := w.sentinel(); err != nil {
				bad("dead", "%v", err)
				return
			}
			got := arrivals(ps)
			var m map[string]string
			w.c.wait(3*time.Second, func() bool { m = w.c.logsWith(mk); return len(m) > 0 || len(got) == 0 })
			if len(m) > 1 {
				bad("window-echo", "a line is echoed in the windows %v", keys(m))
				return
			}
			var want []arrival
			for f := range m {
				for k, y := range ps {
					if strings.HasSuffix(f, w.logOf(pid(y.p))) {
						want = append(want, arrival{k, "", t, false})
					}
				}
				for gn, l := range inGroup {
					if f == w.logOfGroup(gn) {
						for _, k := range l {
							want = append(want, arrival{k, gn, t, false})
						}
					}
				}
			}
			r.Case(fmt.Sprintf("window/%d", len(want)))
			r.Count("sent", len(got))
			if !sameArrivals(got, want) {
				bad("window", "%q was typed in the window %v: arrived %+v, want %+v (receivers: %s)", t, keys(m), got, want, nicks(ps))
				return
			}
		case op == 11:
			if rng.Intn(3) == 0 {
				note("restart")
				if !w.c.Quit() {
					bad("quit", "the client does not quit")
					return
				}
				w.c.MustStart()
				if w.s.Conn(20*time.Second) == nil {
					bad("restart", "the client does not come back %s", w.dead())
					return
				}
				r.Count("restarts", 1)
			} else if i > 2 && !spaced {
				note("delete %q", x.nick)
				if !w.c.Type("/ab del " + x.nick) {
					bad("dead", "the client takes no command %s", w.dead())
					return
				}
				dir := hex.EncodeToString(x.p.ID.Public.Identity[:])
				if !w.c.wait(10*time.Second, func() bool {
					_, err := os.Stat(w.c.path("inbound", dir))
					return os.IsNotExist(err)
				}) {
					bad("delete", "%q is not deleted %s", x.nick, w.dead())
					return
				}
				x.p.mu.Lock()
				x.p.mute = true
				x.p.mu.Unlock()
				delete(taken, x.nick)
				// the others keep their place: messages are attributed by index
				for k, y := range ps {
					if y.nick != x.nick {
						if _, err := os.Stat(w.c.path("inbound", hex.EncodeToString(y.p.ID.Public.Identity[:]))); err != nil {
							bad("delete", "deleting %q removed %q (%d)", x.nick, y.nick, k)
							return
						}
					}
				}
				ps = append(ps[:i:i], ps[i+1:]...)
				r.Count("deleted", 1)
			}
		}
		if !ok {
			return
		}
		r.Count("steps", 1)
	}
}

func nicks(ps []*person) string {
	var o []string
	for i, p := range ps {
		o = append(o, fmt.Sprintf("%d=%q", i, p.nick))
	}
	return strings.Join(o, " ")
}

func p33(r *Report) {
	r.Rule = "one case per kind of delivery and number of receivers"
	lanes := 6
	for round := 0; round < r.pick(1, 8); round++ {
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				p33lane(r, mrand.New(mrand.NewSource(r.Seed*1000+int64(round*lanes+l))), l, r.pick(70, 160))
			}(l)
		}
		wg.Wait()
	}
	r.Need("sent", 100)
	r.Need("received", 30)
}

func init() { register("P33", p33) }

// harness turns a failure of the monitor itself into no verdict.
func harness(r *Report) {
	if e := recover(); e != nil {
		r.Inconclusive("harness: %v\n%s", e, trimStack(string(debug.Stack())))
	}
}

func unxdr(b []byte, v any) error {
	_, err := xdr.Unmarshal(bytes.NewReader(b), v)
	return err
}
