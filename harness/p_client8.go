package main

import (
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
)

// P30: a client that is killed.

type kmail struct {
	from  [32]byte
	b     []byte
	clear bool
}

type killworld struct {
	*Crowd
	rng    *mrand.Rand
	lane   int
	known  []*Peer // everyone the client knows
	back   []kmail // what the client did not acknowledge
	hist   []string
	failed bool
	marks  int
	mine   []id32 // members of the groups as they should be
	crew   []id32
	gen    uint64
	extra  int
}

func (w *killworld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *killworld) bad(sig, f string, a ...any) bool {
	if !w.failed {
		w.failed = true
		h := w.hist
		if len(h) > 8 {
			h = h[len(h)-8:]
		}
		w.r.Violate(sig, fmt.Sprintf(f, a...)+fmt.Sprintf(" (lane %d: %s; console: %s)", w.lane, strings.Join(h, "; "), trim(lastLines(w.c.Console(), 8), 900)),
			map[string]any{"history": w.hist, "console": trim(lastLines(w.c.Console(), 40), 4000)})
	}
	return false
}

// stretched makes every opening, renaming and removing of a file take longer,
// so that a moment between two of them can be met.
func stretched(us int) []string {
	return []string{"strace", "--seccomp-bpf", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat,renameat,renameat2,unlinkat,mkdirat",
		"-e", fmt.Sprintf("inject=openat,renameat,renameat2,unlinkat,mkdirat:delay_exit=%d", us)}
}

func newKillworld(r *Report, rng *mrand.Rand, lane int) *killworld {
	c, err := newCrowd(r, "alice")
	if err != nil {
		panic(err.Error())
	}
	w := &killworld{Crowd: c, rng: rng, lane: lane, known: []*Peer{c.dave, c.bob, c.carol}}
	w.crew = append([]id32{}, c.crew.Members...)
	w.gen = c.crew.Generation
	d, ok := w.c.Group("mine")
	if !ok {
		panic("no group")
	}
	w.mine = append([]id32{}, d.Members...)
	w.c.Quit()
	w.c.wrap = stretched(1500)
	w.c.MustStart()
	return w
}

// mail hands a message to the client; it is kept until it is acknowledged.
func (w *killworld) mail(p *Peer, b []byte, clear bool) {
	m := kmail{pid(p), b, clear}
	if w.s.push(rpc.Push{From: m.from, Received: time.Now().Unix(), Payload: b}, clear, 10*time.Second) != nil {
		w.back = append(w.back, m)
	}
}

func (w *killworld) tell(p *Peer, v any) {
	b := xdrBytes(v)
	c, err := p.seal(crpc(crpcCmd(v), rpc.CRPCCompNone, b))
	if err != nil {
		return
	}
	w.mail(p, c, false)
}

var tmpRe = regexp.MustCompile(`(xdr|ini|\.tmp)[0-9]+|\.[0-9]{8}\.[0-9]{6}.*$`)

// state describes what the client has saved.
func (w *killworld) state() map[string]string {
	m := map[string]string{}
	for _, d := range []string{"groupchat", "inbound", "invites", "joins", "blobkeys"} {
		filepath.Walk(w.c.path(d), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				rel, _ := filepath.Rel(w.c.Root, p)
				m[rel] = fmt.Sprint(fi.Size(), fi.ModTime().UnixNano())
			}
			return nil
		})
	}
	return m
}

// changed describes how a state differs from an earlier one.
func (w *killworld) changed(a, b map[string]string) string {
	var o []string
	name := func(f string) string {
		for i, p := range w.known {
			id := pid(p)
			f = strings.ReplaceAll(f, hex.EncodeToString(id[:]), fmt.Sprintf("P%d", i))
		}
		f = regexp.MustCompile(`[0-9a-f]{64}`).ReplaceAllString(f, "X")
		f = tmpRe.ReplaceAllString(f, "$1*")
		return regexp.MustCompile(`gx[0-9]+q[0-9]+`).ReplaceAllString(f, "G")
	}
	for f, v := range b {
		switch x, ok := a[f]; {
		case !ok:
			o = append(o, "+"+name(f))
		case x != v:
			s := "~"
			if strings.HasPrefix(v, "0 ") {
				s = "0"
			}
			o = append(o, s+name(f))
		}
	}
	for f := range a {
		if _, ok := b[f]; !ok {
			o = append(o, "-"+name(f))
		}
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

// killDuring runs an action and kills the client while it goes on: at some
// moment, or at some change of what is saved.
func (w *killworld) killDuring(what string, f func()) {
	before := w.state()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	end := time.Now().Add(2500 * time.Millisecond)
	if w.rng.Intn(3) == 0 {
		time.Sleep(time.Duration(w.rng.Intn([]int{20000, 80000, 300000}[w.rng.Intn(3)])) * time.Microsecond)
	} else {
		k := 1 + w.rng.Intn(5)
		last := ""
		for time.Now().Before(end) {
			if s := w.changed(before, w.state()); s != last {
				last = s
				if k--; k <= 0 {
					break
				}
			}
		}
		// anywhere before the next one
		time.Sleep(time.Duration(w.rng.Intn(1800)) * time.Microsecond)
	}
	w.c.Kill()
	<-done
	s := w.changed(before, w.state())
	w.r.Case("killed during " + what + ": " + trim(s, 120))
	w.r.Count("kills", 1)
	if s != "" {
		w.r.Count("kills_with_changes", 1)
	}
	w.note("%s, killed with {%s}", what, trim(s, 300))
}

// restart brings the client back and gives it what it did not acknowledge.
func (w *killworld) restart() bool {
	if err := w.c.Start(); err != nil {
		return w.bad("start", "the client does not start: %v", err)
	}
	w.c.ready()
	if !w.c.Alive() {
		return w.bad("start", "the client does not start again: %s", w.c.Death())
	}
	if w.s.Conn(20*time.Second) == nil {
		return w.bad("start", "the client does not come online again")
	}
	b := w.back
	w.back = nil
	for _, m := range b {
		w.mail2(m)
	}
	return true
}

func (w *killworld) mail2(m kmail) {
	if w.s.push(rpc.Push{From: m.from, Received: time.Now().Unix(), Payload: m.b}, m.clear, 20*time.Second) != nil {
		w.bad("no-ack", "the client does not acknowledge a message that is handed out again")
	}
}

func (w *killworld) mark(k string) string {
	w.marks++
	return fmt.Sprintf("kw%d%s%d-", w.lane, k, w.marks)
}

// talks checks that a conversation works in both directions.
func (w *killworld) talks(after string, ps ...*Peer) bool {
	t, u := map[*Peer]string{}, map[*Peer]string{}
	for _, p := range ps {
		t[p], u[p] = w.mark("i"), w.mark("o")
		if err := p.Send(rpc.PrivateMessage{Text: t[p]}); err != nil {
			return w.bad("conversation", "%s: a message of %s is not taken: %v", after, p.ID.Public.Nick, err)
		}
		if !w.c.Type("/m " + p.ID.Public.Nick + " " + u[p]) {
			return w.bad("dead", "%s: the client takes no command %s", after, w.dead())
		}
	}
	for _, p := range ps {
		ok := w.c.wait(15*time.Second, func() bool { return strings.Contains(w.c.Conv(p.ID.Public.Nick, pid(p)), t[p]) })
		if !ok {
			return w.bad("conversation", "%s: a text of %s is not shown in its window", after, p.ID.Public.Nick)
		}
		ok = p.await(15*time.Second, func() bool {
			for _, g := range p.got {
				if strings.Contains(string(g.Body), u[p]) {
					return true
				}
			}
			return false
		})
		if !ok {
			return w.bad("conversation", "%s: a text typed for %s does not reach it", after, p.ID.Public.Nick)
		}
		w.r.Count("talked", 1)
	}
	return true
}

func (w *killworld) members(m []id32) string {
	var o []string
	for _, x := range m {
		n := hex.EncodeToString(x[:3])
		if x == w.me() {
			n = "alice"
		}
		for _, p := range w.known {
			if pid(p) == x {
				n = p.ID.Public.Nick
			}
		}
		o = append(o, n)
	}
	return strings.Join(o, ",")
}

// groups checks that the groups are one of what is allowed, and takes over
// which.
func (w *killworld) groups(after string, allowed map[string][][]id32) bool {
	fs, _ := filepath.Glob(w.c.path("groupchat", "*"))
	seen := map[string]bool{}
	for _, f := range fs {
		n := filepath.Base(f)
		seen[n] = true
		d, ok := w.c.Group(n)
		al, may := allowed[n]
		if !may {
			return w.bad("groups", "%s: there is a group %s", after, n)
		}
		if !ok || d.Name != n {
			return w.bad("groups", "%s: the group %s is damaged", after, n)
		}
		fits := false
		for _, m := range al {
			fits = fits || m != nil && w.members(m) == w.members(d.Members)
		}
		if !fits {
			return w.bad("groups", "%s: the group %s has the members %s", after, n, w.members(d.Members))
		}
		switch n {
		case "crew":
			w.crew = d.Members
		case "mine":
			w.mine = d.Members
		}
	}
	for n, al := range allowed {
		if seen[n] {
			continue
		}
		gone := false
		for _, m := range al {
			gone = gone || m == nil
		}
		if !gone {
			return w.bad("groups", "%s: the group %s is lost", after, n)
		}
	}
	return true
}

// speaks checks that a text for a group reaches who is in it.
func (w *killworld) speaks(after, group string, m []id32) bool {
	t := w.mark("g")
	if !w.c.Type("/gc m " + group + " " + t) {
		return w.bad("dead", "%s: the client takes no command %s", after, w.dead())
	}
	for _, p := range w.known {
		in := has(m, pid(p))
		ok := in && p.await(15*time.Second, func() bool {
			for _, g := range p.got {
				if strings.Contains(string(g.Body), t) {
					return true
				}
			}
			return false
		})
		if in && !ok {
			return w.bad("group-text", "%s: a text for the group %s does not reach %s", after, group, p.ID.Public.Nick)
		}
	}
	for _, p := range w.known {
		if has(m, pid(p)) {
			continue
		}
		p.mu.Lock()
		for _, g := range p.got {
			if strings.Contains(string(g.Body), t) {
				defer w.bad("group-text", "%s: a text for the group %s reaches %s", after, group, p.ID.Public.Nick)
			}
		}
		p.mu.Unlock()
	}
	w.r.Count("spoke", 1)
	return !w.failed
}

// people checks who the client knows; may are those it may also know.
func (w *killworld) people(after string, may ...*Peer) bool {
	e := w.c.established()
	for _, p := range w.known {
		id := pid(p)
		h := hex.EncodeToString(id[:])
		opt := false
		for _, q := range may {
			opt = opt || p == q
		}
		n, ok := e[h]
		if !ok && !opt {
			return w.bad("people", "%s: there is no conversation with %s any more", after, p.ID.Public.Nick)
		}
		if ok && n != p.ID.Public.Nick {
			return w.bad("people", "%s: %s is known as %q", after, p.ID.Public.Nick, n)
		}
		delete(e, h)
	}
	for _, p := range may {
		id := pid(p)
		delete(e, hex.EncodeToString(id[:]))
	}
	if len(e) > 0 {
		return w.bad("people", "%s: the client knows %v", after, e)
	}
	return true
}

// twice finds texts that are shown more than once.
func (w *killworld) twice() {
	fs, _ := filepath.Glob(w.c.path("logs", "*"))
	re := regexp.MustCompile(fmt.Sprintf(`kw%di\d+-`, w.lane))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		n := map[string]int{}
		for _, t := range re.FindAllString(string(b), -1) {
			if n[t]++; n[t] > 1 {
				w.bad("twice", "the text %s is shown twice in %s", t, filepath.Base(f))
			}
		}
	}
}

// announce has bob send the group crew.
func (w *killworld) announce(m []id32) rpc.GroupList {
	w.gen++
	return rpc.GroupList{Name: "crew", Generation: w.gen, Timestamp: time.Now().Unix(), Members: m}
}

var killActions = []string{"texts come", "texts go", "update of crew", "kick from crew", "join of mine", "kick from mine", "part of mine",
	"new group", "kill of a group", "join of a group", "reset by the other", "own reset", "exchange", "start", "deletion", "own exchange"}

func (w *killworld) step(k int) bool {
	what := killActions[k]
	rng := w.rng
	allowed := map[string][][]id32{"crew": {w.crew}, "mine": {w.mine}}
	p := w.known[rng.Intn(len(w.known))]
	talk := append([]*Peer{}, w.known...)
	var may []*Peer
	var after func() bool // what has to work in the end
	reset := false
	switch what {
	case "texts come":
		n := 1 + rng.Intn(4)
		w.killDuring(what, func() {
			for i := 0; i < n; i++ {
				w.tell(w.known[rng.Intn(len(w.known))], rpc.PrivateMessage{Text: w.mark("i")})
			}
		})
	case "texts go":
		w.killDuring(what, func() {
			for i := 0; i < 3; i++ {
				w.c.Type("/m " + p.ID.Public.Nick + " " + w.mark("o"))
			}
		})
	case "update of crew":
		m := []id32{pid(w.bob), w.me()}
		for _, q := range []*Peer{w.carol, w.dave} {
			if rng.Intn(2) == 0 {
				m = append(m, pid(q))
			}
		}
		allowed["crew"] = append(allowed["crew"], m)
		g := w.announce(m)
		w.killDuring(what, func() {
			if rng.Intn(2) == 0 {
				w.tell(w.bob, rpc.GroupUpdate{Reason: "because", NewGroupList: g})
			} else {
				w.tell(w.bob, g)
			}
		})
		after = func() bool {
			// the next list is followed whatever happened to this one
			g := w.announce(m)
			w.tell(w.bob, g)
			return w.groups(what+", told again", map[string][][]id32{"crew": {m}, "mine": {w.mine}})
		}
	case "kick from crew":
		full := []id32{pid(w.bob), w.me(), pid(w.carol)}
		w.tell(w.bob, w.announce(full))
		m := full[:2:2]
		allowed["crew"] = [][]id32{full, m}
		g := w.announce(m)
		w.killDuring(what, func() {
			w.tell(w.bob, rpc.GroupKick{Member: pid(w.carol), Reason: "so", Parted: false, NewGroupList: g})
		})
	case "join of mine", "kick from mine", "part of mine":
		in := has(w.mine, pid(w.dave))
		if what == "join of mine" {
			if in {
				if !w.kickDave() {
					return false
				}
				allowed["mine"] = [][]id32{w.mine}
			}
			gi, err := w.invited()
			if err != nil {
				return w.bad("invite", "%v", err)
			}
			allowed["mine"] = append(allowed["mine"], append(append([]id32{}, w.mine...), pid(w.dave)))
			w.killDuring(what, func() { w.tell(w.dave, rpc.GroupJoin{Name: "mine", Token: gi.Token}) })
		} else {
			if !in {
				gi, err := w.invited()
				if err != nil {
					return w.bad("invite", "%v", err)
				}
				w.tell(w.dave, rpc.GroupJoin{Name: "mine", Token: gi.Token})
				d, _ := w.c.Group("mine")
				if !has(d.Members, pid(w.dave)) {
					return w.bad("invite", "dave is not admitted to the group mine")
				}
				w.mine = d.Members
				allowed["mine"] = [][]id32{w.mine}
			}
			allowed["mine"] = append(allowed["mine"], without(w.mine, pid(w.dave)))
			if what == "part of mine" {
				w.killDuring(what, func() { w.tell(w.dave, rpc.GroupPart{Name: "mine", Reason: "done here"}) })
			} else {
				w.killDuring(what, func() { w.c.Type("/gc kick mine dave") })
			}
		}
	case "new group", "kill of a group":
		w.extra++
		n := fmt.Sprintf("gx%dq%d", w.lane, w.extra)
		if what == "new group" {
			w.killDuring(what, func() { w.c.Type("/gc new " + n) })
		} else {
			w.c.Type("/gc new " + n)
			if !w.c.wait(10*time.Second, func() bool { _, ok := w.c.Group(n); return ok }) {
				return w.bad("groups", "no group %s", n)
			}
			w.killDuring(what, func() { w.c.Type("/gc kill " + n) })
		}
		allowed[n] = [][]id32{nil, {w.me()}}
		after = func() bool {
			if _, ok := w.c.Group(n); !ok {
				w.c.Type("/gc new " + n)
				if !w.c.wait(10*time.Second, func() bool { _, ok := w.c.Group(n); return ok }) {
					return w.bad("groups", "%s: the group cannot be made", what)
				}
			}
			w.c.Type("/gc kill " + n)
			if !w.c.wait(10*time.Second, func() bool { _, err := os.Stat(w.c.path("groupchat", n)); return err != nil }) {
				return w.bad("groups", "%s: the group cannot be ended", what)
			}
			return true
		}
	case "join of a group":
		w.extra++
		n := fmt.Sprintf("gx%dq%d", w.lane, w.extra)
		tok := uint64(5000 + w.extra)
		inv := func() rpc.GroupInvite {
			return rpc.GroupInvite{Name: n, Members: []string{"carol"}, Token: tok, Description: "come", Expires: time.Now().Add(time.Hour).Unix()}
		}
		full := []id32{pid(w.carol), w.me()}
		lst := rpc.GroupList{Name: n, Generation: 1, Timestamp: time.Now().Unix(), Members: full}
		if rng.Intn(2) == 0 {
			w.killDuring("invitation to a group", func() { w.tell(w.carol, inv()) })
		} else {
			w.tell(w.carol, inv())
			w.killDuring(what, func() {
				c0 := len(takeAll[rpc.GroupJoin](w.carol, rpc.CRPCCmdGroupJoin))
				w.c.Type(fmt.Sprintf("/gc join %s %d", n, tok))
				if w.carol.await(300*time.Millisecond, func() bool { return countCmd(w.carol, rpc.CRPCCmdGroupJoin) > c0 }) {
					w.tell(w.carol, lst)
				}
			})
		}
		allowed[n] = [][]id32{nil, {}, {pid(w.carol)}, full}
		after = func() bool {
			d, ok := w.c.Group(n)
			if !ok || len(d.Members) != 2 {
				// it is invited again; a group that was begun has to be
				// left before
				if ok {
					w.c.Type("/gc part " + n + " force")
					if !w.c.wait(10*time.Second, func() bool { _, ok := w.c.Group(n); return !ok }) {
						return w.bad("groups", "%s: a group that was not joined cannot be left", what)
					}
					w.r.Count("left_again", 1)
				}
				tok += 1000
				w.tell(w.carol, inv())
				c0 := len(takeAll[rpc.GroupJoin](w.carol, rpc.CRPCCmdGroupJoin))
				w.c.Type(fmt.Sprintf("/gc join %s %d", n, tok))
				if !w.carol.await(1500*time.Millisecond, func() bool { return countCmd(w.carol, rpc.CRPCCmdGroupJoin) > c0 }) {
					// the first invitation still holds
					w.c.Type(fmt.Sprintf("/gc join %s %d", n, tok-1000))
				}
				if !w.carol.await(8*time.Second, func() bool { return countCmd(w.carol, rpc.CRPCCmdGroupJoin) > c0 }) {
					return w.bad("groups", "%s: a group that was not joined cannot be joined after another invitation", what)
				}
				w.tell(w.carol, lst)
			}
			if !w.groups(what+", joined", map[string][][]id32{"crew": {w.crew}, "mine": {w.mine}, n: {full}}) {
				return false
			}
			if !w.speaks(what, n, full) {
				return false
			}
			w.tell(w.carol, rpc.GroupKill{Name: n, Reason: "done"})
			w.c.wait(10*time.Second, func() bool { _, err := os.Stat(w.c.path("groupchat", n)); return err != nil })
			return w.groups(what+", ended", map[string][][]id32{"crew": {w.crew}, "mine": {w.mine}})
		}
	case "reset by the other", "own reset":
		reset = true
		may = []*Peer{p}
		w.killDuring(what, func() {
			if what == "own reset" {
				w.c.Type("/reset " + p.ID.Public.Nick)
				time.Sleep(600 * time.Millisecond)
			} else {
				w.mail(p, xdrBytes(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "reset"}), true)
				time.Sleep(600 * time.Millisecond)
			}
		})
	case "exchange", "own exchange":
		w.extra++
		q := w.s.newPeer(fmt.Sprintf("new%dq%d", w.lane, w.extra), &w.c.ID.Public)
		may = []*Peer{q}
		w.killDuring(what, func() {
			if what == "exchange" {
				w.mail(q, q.exchangePayload(nil), false)
			} else {
				w.s.mu.Lock()
				w.s.listed[q.ID.Public.Nick] = q.ID.Public
				w.s.mu.Unlock()
				w.c.Type("/find " + q.ID.Public.Nick)
			}
			time.Sleep(300 * time.Millisecond)
		})
		after = func() bool {
			w.forget(q)
			return true
		}
	case "start":
		w.c.Kill()
		w.killDuring(what, func() {
			w.c.Start()
			time.Sleep(500 * time.Millisecond)
		})
	case "deletion":
		w.extra++
		q := w.s.newPeer(fmt.Sprintf("gone%dq%d", w.lane, w.extra), &w.c.ID.Public)
		if err := q.KX(); err != nil {
			return w.bad("exchange", "%v", err)
		}
		may = []*Peer{q}
		w.killDuring(what, func() { w.c.Type("/ab del " + q.ID.Public.Nick); time.Sleep(200 * time.Millisecond) })
		after = func() bool {
			w.forget(q)
			return true
		}
	}
	if w.failed || !w.restart() {
		return false
	}
	if !w.people(what, may...) || !w.groups(what, allowed) || !w.told(what) {
		return false
	}
	if reset {
		// the conversation can be started again
		if !w.heal(what, p) {
			return false
		}
	}
	if !w.talks(what, talk...) || !w.people(what, may...) {
		return false
	}
	if rng.Intn(2) == 0 && (!w.speaks(what, "crew", w.crew) || !w.speaks(what, "mine", w.mine)) {
		return false
	}
	if after != nil && !after() {
		return false
	}
	w.twice()
	w.r.Count("recovered", 1)
	return !w.failed
}

// heal makes sure that the conversation with p works, by a reset of p's if
// it does not.
func (w *killworld) heal(what string, p *Peer) bool {
	works := func() bool {
		id := pid(p)
		if _, ok := w.c.established()[hex.EncodeToString(id[:])]; !ok {
			return false
		}
		t := w.mark("i")
		if p.Send(rpc.PrivateMessage{Text: t}) != nil {
			return false
		}
		return w.c.wait(1500*time.Millisecond, func() bool { return strings.Contains(w.c.Conv(p.ID.Public.Nick, id), t) })
	}
	for i := 0; i < 3; i++ {
		if works() {
			return true
		}
		w.r.Count("healed", 1)
		p.mu.Lock()
		p.r, p.half = nil, nil
		p.mu.Unlock()
		w.mail(p, xdrBytes(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "reset"}), true)
		p.await(8*time.Second, func() bool { return p.r != nil })
		id := pid(p)
		w.c.wait(5*time.Second, func() bool { _, ok := w.c.established()[hex.EncodeToString(id[:])]; return ok })
	}
	if works() {
		return true
	}
	return w.bad("reset", "%s: a reset of %s does not bring the conversation back", what, p.ID.Public.Nick)
}

// invited has the client invite dave to the group mine. An invitation that was
// not used because the client was killed still holds.
func (w *killworld) invited() (*rpc.GroupInvite, error) {
	n := strings.Count(w.c.Console(), "already invited")
	if old := takeAll[rpc.GroupInvite](w.dave, rpc.CRPCCmdGroupInvite); len(old) > 0 {
		w.c.Type("/gc invite mine dave")
		if !w.dave.await(10*time.Second, func() bool {
			return countCmd(w.dave, rpc.CRPCCmdGroupInvite) > len(old) || strings.Count(w.c.Console(), "already invited") > n
		}) {
			return nil, fmt.Errorf("no invitation arrives")
		}
		l := takeAll[rpc.GroupInvite](w.dave, rpc.CRPCCmdGroupInvite)
		return &l[len(l)-1], nil
	}
	return w.invite("mine", w.dave)
}

func (w *killworld) kickDave() bool {
	w.c.Type("/gc kick mine dave")
	if !w.c.wait(10*time.Second, func() bool { d, ok := w.c.Group("mine"); return ok && !has(d.Members, pid(w.dave)) }) {
		return w.bad("kick", "dave is not kicked")
	}
	d, _ := w.c.Group("mine")
	w.mine = d.Members
	return true
}

// forget takes what is saved about someone away, so that it is not in the way
// later.
func (w *killworld) forget(q *Peer) {
	w.c.Quit()
	id := pid(q)
	os.RemoveAll(w.c.path("inbound", hex.EncodeToString(id[:])))
	w.s.mu.Lock()
	delete(w.s.peers, id)
	w.s.mu.Unlock()
	w.c.MustStart()
	w.s.Conn(20 * time.Second)
}

// told checks that nobody was told of a state of the client's own group that
// the client does not have.
func (w *killworld) told(after string) bool {
	d, ok := w.c.Group("mine")
	if !ok {
		return true // groups() judges
	}
	for _, p := range w.known {
		l := takeAll[rpc.GroupList](p, rpc.CRPCCmdGroupList)
		for _, k := range takeAll[rpc.GroupKick](p, rpc.CRPCCmdGroupKick) {
			l = append(l, k.NewGroupList)
		}
		for _, u := range takeAll[rpc.GroupUpdate](p, rpc.CRPCCmdGroupUpdate) {
			l = append(l, u.NewGroupList)
		}
		for _, g := range l {
			if g.Name != "mine" {
				continue
			}
			w.r.Count("announcements", 1)
			if g.Generation > d.Generation {
				return w.bad("told", "%s: %s was told of generation %d of the group, {%s}, the client itself is at %d, {%s}", after, p.ID.Public.Nick,
					g.Generation, w.members(g.Members), d.Generation, w.members(d.Members))
			}
			if g.Generation == d.Generation && w.members(g.Members) != w.members(d.Members) {
				return w.bad("told", "%s: %s was told of other members of generation %d of the group, {%s}, than the client has, {%s}", after, p.ID.Public.Nick,
					g.Generation, w.members(g.Members), w.members(d.Members))
			}
		}
	}
	return true
}

// p30order kills a group's administrator when others have heard of a change
// of the group while it is being saved.
func p30order(r *Report) {
	w := newKillworld(r, mrand.New(mrand.NewSource(r.Seed*77)), 99)
	defer w.c.Kill()
	slow := func(on bool) {
		w.c.Quit()
		w.c.wrap = nil
		if on {
			w.c.wrap = []string{"strace", "-f", "-qq", "-o", "/dev/null", "-P", w.c.path("groupchat", "mine"), "-e", "trace=openat,renameat,renameat2,rename",
				"-e", "inject=openat,renameat,renameat2,rename:delay_enter=900000"}
		}
		w.c.MustStart()
		w.c.ready()
		w.s.Conn(20 * time.Second)
	}
	gen := func() uint64 { d, _ := w.c.Group("mine"); return d.Generation }
	heard := func(g uint64) bool {
		for _, p := range w.known {
			for _, l := range takeAll[rpc.GroupList](p, rpc.CRPCCmdGroupList) {
				if l.Name == "mine" && l.Generation > g {
					return true
				}
			}
			for _, k := range takeAll[rpc.GroupKick](p, rpc.CRPCCmdGroupKick) {
				if k.NewGroupList.Name == "mine" && k.NewGroupList.Generation > g {
					return true
				}
			}
		}
		return false
	}
	admit := func() bool {
		if has(w.mine, pid(w.dave)) {
			return true
		}
		gi, err := w.invited()
		if err != nil {
			return w.bad("invite", "%v", err)
		}
		w.tell(w.dave, rpc.GroupJoin{Name: "mine", Token: gi.Token})
		if !w.c.wait(10*time.Second, func() bool { d, ok := w.c.Group("mine"); return ok && has(d.Members, pid(w.dave)) }) {
			return w.bad("invite", "dave is not admitted to the group mine")
		}
		d, _ := w.c.Group("mine")
		w.mine = d.Members
		return true
	}
	for round := 0; round < r.pick(2, 10); round++ {
		for _, what := range []string{"join", "part", "kick"} {
			var gi *rpc.GroupInvite
			var err error
			if what == "join" {
				if has(w.mine, pid(w.dave)) && !w.kickDave() {
					return
				}
				if gi, err = w.invited(); err != nil {
					w.bad("invite", "%v", err)
					return
				}
			} else if !admit() {
				return
			}
			d, _ := w.c.Group("mine")
			allowed := [][]id32{d.Members, without(d.Members, pid(w.dave))}
			if what == "join" {
				allowed[1] = append(append([]id32{}, d.Members...), pid(w.dave))
			}
			slow(true)
			g := gen()
			done := make(chan struct{})
			go func() {
				defer close(done)
				switch what {
				case "join":
					w.tell(w.dave, rpc.GroupJoin{Name: "mine", Token: gi.Token})
				case "part":
					w.tell(w.dave, rpc.GroupPart{Name: "mine", Reason: "done here"})
				case "kick":
					w.c.Type("/gc kick mine dave")
				}
			}()
			w.c.wait(20*time.Second, func() bool { return heard(g) || gen() > g })
			if round%2 == 1 {
				time.Sleep(time.Duration(w.rng.Intn(40)) * time.Millisecond)
			}
			w.c.Kill()
			<-done
			w.note("%s of dave, killed when it was told or saved", what)
			w.r.Count("kills", 1)
			w.r.Count("order_kills", 1)
			w.c.wrap = nil
			if !w.restart() || !w.groups(what, map[string][][]id32{"crew": {w.crew}, "mine": allowed}) || !w.told(what) {
				return
			}
			w.r.Case(fmt.Sprintf("told before saved: %s %d %v", what, round, heard(g)))
		}
	}
}

func p30(r *Report) {
	r.Rule = "one case per action and per state of the saved files when the client was killed in it"
	for round := 0; round < r.pick(1, 8); round++ {
		var wg sync.WaitGroup
		if round == 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer harness(r)
				p30order(r)
			}()
		}
		for l := 0; l < 8; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				lane := round*8 + l
				rng := mrand.New(mrand.NewSource(r.Seed*1000 + int64(lane)))
				w := newKillworld(r, rng, lane)
				defer w.c.Kill()
				end := time.Now().Add(time.Duration(r.pick(90, 400)) * time.Second)
				for i := 0; i < r.pick(30, 120) && !r.Failed() && time.Now().Before(end); i++ {
					if !w.step((i + l*4) % len(killActions)) {
						return
					}
				}
			}(l)
		}
		wg.Wait()
	}
	r.Need("kills", 60)
	r.Need("kills_with_changes", 30)
	r.Need("announcements", 10)
	r.Need("order_kills", 6)
	r.Need("recovered", 60)
	r.Need("talked", 150)
}

func init() { register("P30", p30) }
