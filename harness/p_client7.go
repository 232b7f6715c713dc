package main

import (
	"bytes"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// P29: what users type for each other arrives across failures.

// dvText is a text one user typed for another, or for a group.
type dvText struct {
	n       int
	from    *dvUser
	to      []*dvUser
	group   bool
	text    string
	mayLose bool // it was under way when its connection to the server broke
}

type dvUser struct {
	c    *Cli
	l    *Link
	down bool // the user cannot reach the server
	off  bool // the client is not running
}

type dvworld struct {
	r      *Report
	rng    *mrand.Rand
	s      *Srv
	lane   int
	n      int
	us     []*dvUser
	texts  []*dvText
	hist   []string
	failed bool
	group  bool
}

func (w *dvworld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *dvworld) bad(sig, f string, a ...any) {
	if w.failed {
		return
	}
	w.failed = true
	wit := map[string]any{"history": w.hist}
	for _, u := range w.us {
		wit[u.c.Nick] = trim(lastLines(u.c.Console(), 25), 3000)
	}
	h := w.hist
	if len(h) > 14 {
		h = h[len(h)-14:]
	}
	w.r.Violate(sig, fmt.Sprintf(f, a...)+fmt.Sprintf(" (lane %d: %s)", w.lane, strings.Join(h, "; ")), wit)
}

func newDvworld(r *Report, rng *mrand.Rand, lane int) *dvworld {
	w := &dvworld{r: r, rng: rng, lane: lane}
	w.s = newSrv(r, map[string]string{"directory": "yes"})
	w.s.MustStart()
	for _, n := range []string{"alice", "bob", "carol"} {
		l := newLink(w.s.Addr)
		u := &dvUser{l: l, c: w.s.client(n, l.Addr)}
		u.c.settings = "tlsverbose = yes"
		w.us = append(w.us, u)
		u.c.MustStart()
	}
	for i, x := range w.us {
		for _, y := range w.us[i+1:] {
			if err := findKX(x.c, y.c); err != nil {
				panic(err.Error())
			}
		}
	}
	a := w.us[0].c
	a.Type("/gc new crew")
	if !a.wait(10*time.Second, func() bool { _, ok := a.Group("crew"); return ok }) {
		panic("no group")
	}
	for i, u := range w.us[1:] {
		a.Type("/gc invite crew " + u.c.Nick)
		tok := ""
		if !u.c.wait(25*time.Second, func() bool { tok = inviteToken(u.c, "crew"); return tok != "" }) {
			panic("no invitation")
		}
		u.c.Type("/gc join crew " + tok)
		if !u.c.wait(25*time.Second, func() bool {
			for _, v := range w.us[:i+2] {
				if g, ok := v.c.Group("crew"); !ok || len(g.Members) != i+2 {
					return false
				}
			}
			return true
		}) {
			panic("no member")
		}
	}
	w.settle("set up")
	return w
}

func (w *dvworld) end() {
	for _, u := range w.us {
		u.c.Kill()
	}
	w.s.Stop()
}

var dvRe = regexp.MustCompile(`dv(\d+)q(\d+)x([a-z]*)\.`)

// say types a text.
func (w *dvworld) say(x *dvUser, to ...*dvUser) *dvText {
	w.n++
	f := make([]byte, []int{0, 5, 60, 400}[w.rng.Intn(4)])
	for i := range f {
		f[i] = byte('a' + w.rng.Intn(26))
	}
	t := &dvText{n: w.n, from: x, to: to, text: fmt.Sprintf("dv%dq%dx%s.", w.lane, w.n, f)}
	cmd := "/m " + to[0].c.Nick + " " + t.text
	if len(to) > 1 {
		t.group = true
		cmd = "/gc m crew " + t.text
	}
	w.texts = append(w.texts, t)
	if !x.c.Type(cmd) {
		w.bad("dead", "%s takes no command %s", x.c.Nick, x.c.Death())
	}
	w.r.Count("typed", 1)
	return t
}

// chat types some texts of users to each other.
func (w *dvworld) chat(k int, from []*dvUser, to *dvUser) {
	for i := 0; i < k && !w.failed; i++ {
		x := from[w.rng.Intn(len(from))]
		switch {
		case w.rng.Intn(4) == 0:
			var o []*dvUser
			for _, u := range w.us {
				if u != x {
					o = append(o, u)
				}
			}
			w.say(x, o...)
		case to != nil && to != x:
			w.say(x, to)
		default:
			y := w.us[w.rng.Intn(len(w.us))]
			for y == x {
				y = w.us[w.rng.Intn(len(w.us))]
			}
			w.say(x, y)
		}
	}
}

// seen are the numbers of the texts of one user that another's window shows,
// in order.
func (w *dvworld) seen(y *dvUser, x *dvUser, group bool) []int {
	var s string
	if group {
		s = y.c.GroupConv("crew")
	} else {
		fs, _ := filepath.Glob(y.c.path("logs", "*."+hexed(x.c.me())+".log"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			s += string(b)
		}
	}
	var o []int
	for _, l := range strings.Split(s, "\n") {
		for _, m := range dvRe.FindAllStringSubmatch(l, -1) {
			n, _ := strconv.Atoi(m[2])
			if m[1] != fmt.Sprint(w.lane) || n < 1 || n > len(w.texts) {
				continue
			}
			t := w.texts[n-1]
			if t.from != x || t.group != group {
				continue
			}
			if m[0] != t.text {
				w.bad("altered", "text %d of %s is shown to %s as %q, it was %q", n, x.c.Nick, y.c.Nick, trim(l, 200), trim(t.text, 200))
			}
			o = append(o, n)
		}
	}
	return o
}

func (w *dvworld) missing() (o []*dvText, who []*dvUser) {
	for _, y := range w.us {
		for _, x := range w.us {
			if x == y {
				continue
			}
			for _, g := range []bool{false, true} {
				got := map[int]bool{}
				for _, n := range w.seen(y, x, g) {
					got[n] = true
				}
				for _, t := range w.texts {
					if t.from != x || t.group != g || got[t.n] || t.mayLose {
						continue
					}
					for _, v := range t.to {
						if v == y {
							o, who = append(o, t), append(who, y)
						}
					}
				}
			}
		}
	}
	return
}

// broke notes that the connection of a user broke while texts may have been
// under way to the server.
func (w *dvworld) broke(x *dvUser) {
	for _, y := range w.us {
		got := map[int]bool{}
		for _, g := range []bool{false, true} {
			for _, n := range w.seen(y, x, g) {
				got[n] = true
			}
		}
		for _, t := range w.texts {
			if t.from == x && !got[t.n] && !t.mayLose {
				for _, v := range t.to {
					if v == y {
						t.mayLose = true
					}
				}
			}
		}
	}
}

// mail is how much mail waits for a user.
func (w *dvworld) mail(u *dvUser) int {
	fs, _ := filepath.Glob(filepath.Join(w.s.Root, "home", hexed(u.c.me()), "cache", "*"))
	n := 0
	for _, f := range fs {
		if !strings.Contains(filepath.Base(f), "tmp") {
			n++
		}
	}
	return n
}

// taken waits until the server has everything for a user who is away.
func (w *dvworld) taken(y *dvUser) {
	want := 0
	o, who := w.missing()
	for i := range o {
		if who[i] == y {
			want++
		}
	}
	if !waitFor(30*time.Second, func() bool { return w.mail(y) >= want }) {
		w.bad("not-taken", "%d texts were typed for %s, who is away, and only %d messages wait", want, y.c.Nick, w.mail(y))
	}
}

// shown waits until everything typed is shown.
func (w *dvworld) shown(d time.Duration) bool {
	return waitFor(d, func() bool { o, _ := w.missing(); return len(o) == 0 || w.failed })
}

func (w *dvworld) dead() bool {
	for _, u := range w.us {
		if !u.off && !u.c.Alive() {
			w.bad("dead", "%s died: %s", u.c.Nick, u.c.Death())
			return true
		}
	}
	if !w.s.Alive() {
		w.bad("server-dead", "the server died: %s", w.s.tail())
		return true
	}
	return false
}

// settle brings everyone back, waits for all texts and checks them.
func (w *dvworld) settle(after string) bool {
	if w.failed {
		return false
	}
	for _, u := range w.us {
		u.l.Up()
		u.down = false
		if u.off {
			u.c.MustStart()
			u.off = false
		}
	}
	end := time.Now().Add(90 * time.Second)
	quiet := time.Now()
	for {
		if w.dead() || w.failed {
			return false
		}
		o, who := w.missing()
		on := true
		for _, u := range w.us {
			u.l.mu.Lock()
			up := u.l.live > 0
			u.l.mu.Unlock()
			if !up {
				on = false
				u.c.Type("/online")
			}
		}
		rest := len(o) == 0 && on
		for _, u := range w.us {
			rest = rest && w.mail(u) == 0
		}
		if !rest {
			quiet = time.Now()
		}
		if time.Since(quiet) > 400*time.Millisecond {
			break
		}
		if time.Now().After(end) {
			switch {
			case len(o) > 0:
				w.bad("lost", "%s: %d texts are not shown, for example %d of %s to %s", after, len(o), o[0].n, o[0].from.c.Nick, who[0].c.Nick)
			case !on:
				w.bad("not-back", "%s: a client does not come back", after)
			default:
				w.bad("mail-stays", "%s: mail of a user who is there stays in the mailbox", after)
			}
			return false
		}
		time.Sleep(60 * time.Millisecond)
	}
	lost := 0
	for _, y := range w.us {
		for _, x := range w.us {
			if x == y {
				continue
			}
			for _, g := range []bool{false, true} {
				last := 0
				got := map[int]bool{}
				for _, n := range w.seen(y, x, g) {
					if got[n] {
						w.bad("twice", "%s: text %d of %s is shown to %s twice", after, n, x.c.Nick, y.c.Nick)
						return false
					}
					got[n] = true
					if n < last {
						w.bad("order", "%s: text %d of %s is shown to %s after text %d", after, n, x.c.Nick, y.c.Nick, last)
						return false
					}
					last = n
					to := false
					for _, v := range w.texts[n-1].to {
						to = to || v == y
					}
					if !to {
						w.bad("wrong", "%s: text %d of %s is shown to %s", after, n, x.c.Nick, y.c.Nick)
						return false
					}
					w.r.Count("shown", 1)
				}
				for _, t := range w.texts {
					for _, v := range t.to {
						if v == y && t.from == x && t.group == g && !got[t.n] {
							lost++
						}
					}
				}
			}
		}
	}
	w.r.Count("lost_under_way", lost)
	w.r.Count("settled", 1)
	w.r.Case(after)
	// what was judged need not be judged again
	for _, u := range w.us {
		fs, _ := filepath.Glob(u.c.path("logs", "*"))
		for _, f := range fs {
			os.Truncate(f, 0)
		}
	}
	w.texts, w.n = nil, 0
	w.lane += 1000 // other markers from now on
	if len(w.hist) > 60 {
		w.hist = w.hist[len(w.hist)-60:]
	}
	return true
}

// offlineSeen waits until a client has noticed that its connection is gone.
func (w *dvworld) down(u *dvUser) {
	n := func() int {
		c := u.c.Console()
		return strings.Count(c, "server connection closed") + strings.Count(c, "connection error")
	}
	k := n()
	u.l.mu.Lock()
	live := u.l.live > 0
	u.l.mu.Unlock()
	u.down = true
	u.l.Down()
	if live && !u.c.wait(40*time.Second, func() bool { return n() > k }) {
		w.bad("not-noticed", "%s does not notice that its connection is gone", u.c.Nick)
	}
}

func (w *dvworld) pause(ms int) { time.Sleep(time.Duration(w.rng.Intn(ms*1000)) * time.Microsecond) }

// others are the users except one.
func (w *dvworld) others(u *dvUser) []*dvUser {
	var o []*dvUser
	for _, v := range w.us {
		if v != u {
			o = append(o, v)
		}
	}
	return o
}

// later runs f while the caller goes on, after a moment.
func later(ms time.Duration, f func()) func() {
	d := make(chan struct{})
	go func() {
		defer close(d)
		time.Sleep(ms)
		f()
	}()
	return func() { <-d }
}

func (w *dvworld) episode(k int) bool {
	rng := w.rng
	p := rng.Perm(len(w.us))
	x, y := w.us[p[0]], w.us[p[1]]
	nx, ny := x.c.Nick, y.c.Nick
	switch k {
	case 0:
		// the receiver's connection breaks while texts come
		w.note("%s is cut off while texts come", ny)
		for j := 1 + rng.Intn(3); j > 0; j-- {
			done := later(time.Duration(rng.Intn(200))*time.Millisecond, y.l.Cut)
			w.chat(5+rng.Intn(6), []*dvUser{x}, y)
			done()
			if rng.Intn(2) == 0 {
				y.c.Type("/online")
			}
		}
		return w.settle("receiver cut")
	case 1:
		// the receiver is away
		w.note("%s is away", ny)
		if rng.Intn(2) == 0 {
			w.down(y)
		} else {
			y.c.Quit()
			y.off = true
		}
		w.chat(4+rng.Intn(12), w.others(y), y)
		w.taken(y)
		if rng.Intn(2) == 0 {
			w.note("the server starts again")
			for _, u := range w.us {
				w.shown(10 * time.Millisecond)
				if u != y {
					w.broke2(u, y)
				}
			}
			w.s.Stop()
			w.s.MustStart()
		}
		return w.settle("receiver away")
	case 2:
		// what the receiver says does not reach the server
		w.note("acknowledgements of %s are lost", ny)
		y.l.Hold(false, true)
		w.chat(3+rng.Intn(5), w.others(y), y)
		time.Sleep(time.Duration(200+rng.Intn(800)) * time.Millisecond)
		y.l.Cut()
		y.l.Up()
		return w.settle("acknowledgements lost")
	case 3:
		// the server's answers do not reach the sender
		w.note("acknowledgements to %s are lost", nx)
		x.l.Hold(true, false)
		w.chat(2+rng.Intn(4), []*dvUser{x}, y)
		if !w.shown(30 * time.Second) {
			w.bad("lost", "texts that %s typed while nothing comes back to it are not shown", nx)
			return false
		}
		x.l.Cut()
		x.l.Up()
		x.c.Type("/online")
		w.chat(2+rng.Intn(4), []*dvUser{x}, y)
		w.broke(x)
		return w.settle("answers lost")
	case 4:
		// the sender is not connected
		w.note("%s is not connected", nx)
		w.down(x)
		w.chat(3+rng.Intn(8), []*dvUser{x}, y)
		w.pause(300)
		return w.settle("typed offline")
	case 5:
		// the sender's connection breaks while it types
		w.note("%s is cut off while it types", nx)
		for j := 1 + rng.Intn(3); j > 0; j-- {
			done := later(time.Duration(rng.Intn(200))*time.Millisecond, x.l.Cut)
			w.chat(5+rng.Intn(6), []*dvUser{x}, y)
			done()
			w.broke(x)
			if rng.Intn(2) == 0 {
				x.c.Type("/online")
			}
		}
		w.chat(2, []*dvUser{x}, y)
		w.broke(x)
		return w.settle("sender cut")
	case 6:
		// the server is killed in between
		w.note("the server is killed")
		done := later(time.Duration(rng.Intn(200))*time.Millisecond, w.s.Kill)
		w.chat(6+rng.Intn(6), w.us, nil)
		done()
		for _, u := range w.us {
			w.broke(u)
		}
		w.s.MustStart()
		return w.settle("server killed")
	case 7:
		// much mail waits, and the connection breaks while it is read
		w.note("%s has much mail and is cut off while it comes", ny)
		w.down(y)
		w.chat(25+rng.Intn(25), w.others(y), y)
		w.taken(y)
		y.l.Up()
		y.down = false
		for j := 2 + rng.Intn(4); j > 0; j-- {
			n := y.c.connects()
			if !y.c.online(n, 20*time.Second) {
				break
			}
			w.pause(60)
			y.l.Cut()
		}
		return w.settle("mail cut")
	case 8:
		// everybody is cut off, texts of before have arrived
		w.note("all are cut off")
		w.chat(4, w.us, nil)
		w.shown(30 * time.Second)
		for _, u := range w.us {
			u.l.Cut()
		}
		return w.settle("all cut")
	case 9:
		// the sender leaves after the server has everything
		w.note("%s leaves while %s is away", nx, ny)
		w.down(y)
		w.chat(3+rng.Intn(5), []*dvUser{x}, y)
		w.taken(y)
		w.shownTo(w.others(y))
		x.c.Quit()
		x.off = true
		w.pause(200)
		return w.settle("sender left")
	}
	return true
}

// shownTo waits until what was typed is shown to these users.
func (w *dvworld) shownTo(us []*dvUser) {
	if !waitFor(30*time.Second, func() bool {
		_, who := w.missing()
		for _, u := range who {
			for _, v := range us {
				if u == v {
					return false
				}
			}
		}
		return true
	}) {
		w.bad("lost", "texts are not shown to users who are connected")
	}
}

// broke2 is broke, but the server has what was typed for y.
func (w *dvworld) broke2(x, y *dvUser) {
	var keep []*dvText
	for _, t := range w.texts {
		if t.from == x && !t.mayLose && len(t.to) == 1 && t.to[0] == y {
			keep = append(keep, t)
		}
	}
	w.broke(x)
	for _, t := range keep {
		t.mayLose = false
	}
}

func p29lane(r *Report, rng *mrand.Rand, lane, steps int) {
	w := newDvworld(r, rng, lane)
	defer w.end()
	for i := 0; i < steps && !w.failed && !r.Failed(); i++ {
		if !w.episode((i + lane) % 10) {
			return
		}
	}
}

// p29tags: what a client says in a session is about that session.
func p29tags(r *Report, rng *mrand.Rand, lane, steps int) {
	s := newFSrv(r)
	s.tagDepth = []int{10, 3, 10, 25}[lane%4]
	var mu sync.Mutex
	pushed := map[*FConn]map[uint32]bool{}
	asked := map[*FConn]map[uint32]string{}
	var hist []string
	failed := false
	bad := func(sig, f string, a ...any) {
		failed = true
		h := hist
		if len(h) > 10 {
			h = h[len(h)-10:]
		}
		r.Violate(sig, fmt.Sprintf(f, a...)+" ("+strings.Join(h, "; ")+")", map[string]any{"history": hist})
	}
	quietly := false
	s.onOther = func(f *FConn, m rpc.Message, body []byte) bool {
		mu.Lock()
		defer mu.Unlock()
		if pushed[f] == nil {
			pushed[f], asked[f] = map[uint32]bool{}, map[uint32]string{}
		}
		if m.Command == rpc.TaggedCmdAcknowledge {
			r.Count("acknowledged", 1)
			if !pushed[f][m.Tag] {
				bad("stale-ack", "the client acknowledges tag %d, with which nothing was sent in this session", m.Tag)
			}
			delete(pushed[f], m.Tag)
			return false
		}
		if int(m.Tag) >= s.tagDepth {
			bad("bad-tag", "the client uses tag %d, there are %d", m.Tag, s.tagDepth)
		}
		if c := asked[f][m.Tag]; c != "" {
			bad("tag-in-use", "the client uses tag %d for %s while it waits for the answer to %s with it", m.Tag, m.Command, c)
		}
		r.Count("requests", 1)
		if quietly {
			asked[f][m.Tag] = m.Command
			if m.Command == rpc.TaggedCmdCache {
				var c rpc.Cache
				if _, err := xdr.Unmarshal(bytes.NewReader(body), &c); err == nil {
					s.mu.Lock()
					p := s.peers[c.To]
					s.mu.Unlock()
					if p != nil {
						p.receive(c.Payload)
					}
				}
			}
			return true
		}
		return false
	}
	cli := s.newClient("victor")
	defer cli.Kill()
	cli.MustStart()
	var ps []*Peer
	for i := 0; i < 2; i++ {
		p := s.newPeer(fmt.Sprintf("peer%d", i), &cli.ID.Public)
		s.Conn(20 * time.Second)
		// the pushes of an exchange are acknowledged too
		func() {
			mu.Lock()
			so := s.onOther
			mu.Unlock()
			s.mu.Lock()
			s.onOther = nil
			s.mu.Unlock()
			if err := p.KX(); err != nil {
				panic(err.Error())
			}
			s.mu.Lock()
			s.onOther = so
			s.mu.Unlock()
		}()
		ps = append(ps, p)
	}
	type msg struct {
		from [32]byte
		b    []byte
		text string
	}
	n := 0
	backlog := []msg{}
	for i := 0; i < steps && !failed && !r.Failed(); i++ {
		hist = append(hist, fmt.Sprintf("session %d", i))
		f := s.Conn(time.Second)
		for j := 0; j < 40 && f == nil; j++ {
			cli.Type("/online")
			f = s.Conn(500 * time.Millisecond)
		}
		if f == nil {
			bad("not-back", "the client does not come back: %s", trim(lastLines(cli.Console(), 5), 500))
			return
		}
		waitTags := time.Now().Add(10 * time.Second)
		for j := len(backlog); j < s.tagDepth; j++ {
			p := ps[rng.Intn(len(ps))]
			n++
			t := fmt.Sprintf("tg%dq%dx.", lane, n)
			b, err := p.seal(crpc(rpc.CRPCCmdPrivateMessage, rpc.CRPCCompNone, xdrBytes(rpc.PrivateMessage{Text: t, Mode: rpc.MessageModeNormal})))
			must(err)
			backlog = append(backlog, msg{p.ID.Public.Identity, b, t})
		}
		mu.Lock()
		if pushed[f] == nil {
			pushed[f], asked[f] = map[uint32]bool{}, map[uint32]string{}
		}
		mine := pushed[f]
		quietly = rng.Intn(2) == 0
		q := quietly
		mu.Unlock()
		tags := rng.Perm(s.tagDepth)
		cut := rng.Intn(3)
		say := func() {
			n++
			p := ps[rng.Intn(len(ps))]
			cli.Type(fmt.Sprintf("/m %s out%d-%d.", p.ID.Public.Nick, lane, n))
		}
		switch rng.Intn(4) {
		case 0:
			say()
		case 1:
			cli.Type("/find someone" + fmt.Sprint(n))
		case 2:
			cli.Type("/fetch 123")
		}
		if q && cut == 2 {
			for j := 0; j < 3; j++ {
				say()
			}
		}
		n0 := len(backlog)
		for j, m := range backlog {
			mu.Lock()
			mine[uint32(tags[j])] = true
			mu.Unlock()
			if f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdPush, TimeStamp: time.Now().Unix(), Tag: uint32(tags[j])},
				rpc.Push{From: m.from, Received: time.Now().Unix(), Payload: m.b})) != nil {
				break
			}
		}
		hist = append(hist, fmt.Sprintf("%d messages, answers %v", n0, !q))
		switch cut {
		case 0: // at once
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		case 1:
			time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
		case 2:
			for time.Now().Before(waitTags) {
				mu.Lock()
				k := len(mine)
				mu.Unlock()
				if k == 0 {
					break
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		mu.Lock()
		// what is acknowledged by now is gone, like on a server
		var keep []msg
		for j, m := range backlog {
			if mine[uint32(tags[j])] {
				keep = append(keep, m)
			}
		}
		if cut == 2 && !q && len(keep) > 0 && !failed { // without answers its tags may be used up
			bad("no-ack", "%d messages are not acknowledged", len(keep))
		}
		backlog = keep
		mu.Unlock()
		hist = append(hist, fmt.Sprintf("closed, %d not acknowledged", len(keep)))
		c0 := strings.Count(cli.Console(), "connection closed") + strings.Count(cli.Console(), "connection error")
		s.Drop()
		cli.wait(20*time.Second, func() bool {
			c := cli.Console()
			return strings.Count(c, "connection closed")+strings.Count(c, "connection error") > c0
		})
		mu.Lock()
		quietly = false
		mu.Unlock()
		r.Count("sessions", 1)
		r.Case(fmt.Sprintf("session cut %d answers %v", cut, !q))
		if !cli.Alive() {
			bad("dead", "the client died: %s", cli.Death())
		}
	}
	// every text is shown once
	if failed || r.Failed() {
		return
	}
	s.Conn(time.Second)
	for k := 1; k <= n; k++ {
		t := fmt.Sprintf("tg%dq%dx.", lane, k)
		c := 0
		for _, l := range cli.logsWith(t) {
			c += strings.Count(l, t)
		}
		if c > 1 {
			bad("twice", "%s is shown %d times", t, c)
		}
		if c == 1 {
			r.Count("shown_once", 1)
		}
	}
}

func p29(r *Report) {
	r.Rule = "one case per kind of failure among real clients and a real server, and per way a played session ends"
	for round := 0; round < r.pick(1, 8); round++ {
		var wg sync.WaitGroup
		for l := 0; l < 7; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				rng := mrand.New(mrand.NewSource(r.Seed*1000 + int64(round*7+l)))
				if l < 5 {
					p29lane(r, rng, (round*7+l)*2, r.pick(10, 40))
				} else {
					p29tags(r, rng, round*7+l, r.pick(14, 60))
				}
			}(l)
		}
		wg.Wait()
	}
	r.Need("shown", 200)
	r.Need("settled", 15)
	r.Need("sessions", 10)
	r.Need("acknowledged", 40)
}

func init() { register("P29", p29) }
