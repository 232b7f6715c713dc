package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// P25, P26: groups and invitations. A model of the groups follows what
// happens to a real client; after every step the groups the client has on disk
// and what it sent to whom are compared with it.

type id32 = [32]byte

type gmodel struct {
	members []id32
	gen     uint64
}

type invModel struct {
	token   uint64
	expired bool
}

type gworld struct {
	*Crowd
	rng     *mrand.Rand
	lane    int
	ps      []*person
	names   map[id32]string
	model   map[string]*gmodel
	inv     map[string]map[int]*invModel // invitations of the client's, by group and peer
	strange id32                         // someone the client never exchanged keys with
	never   []string                     // markers that must not be shown
	hist    []string
	sig     string
	marks   int
}

func (g *gworld) note(f string, a ...any) { g.hist = append(g.hist, fmt.Sprintf(f, a...)) }

func (g *gworld) bad(kind, f string, a ...any) bool {
	h := g.hist
	if len(h) > 80 {
		h = h[len(h)-80:]
	}
	g.r.Violate(g.sig+":"+kind, fmt.Sprintf(f, a...), h)
	return false
}

func (g *gworld) label(id id32) string {
	if n, ok := g.names[id]; ok {
		return n
	}
	return hex.EncodeToString(id[:4])
}

func (g *gworld) canon(m []id32) string {
	var o []string
	for _, x := range m {
		o = append(o, g.label(x))
	}
	return strings.Join(o, ",")
}

func newGworld(r *Report, rng *mrand.Rand, lane int, sig string) (*gworld, error) {
	w, err := newCrowd(r, "alice")
	if err != nil {
		return nil, err
	}
	g := &gworld{Crowd: w, rng: rng, lane: lane, sig: sig, names: map[id32]string{}, model: map[string]*gmodel{}, inv: map[string]map[int]*invModel{}}
	g.names[w.me()] = "alice"
	add := func(p *Peer) {
		g.ps = append(g.ps, &person{p: p, nick: p.ID.Public.Nick})
		g.names[pid(p)] = p.ID.Public.Nick
	}
	add(w.dave)
	add(w.bob)
	add(w.carol)
	for _, n := range []string{"eve", "frank"} {
		p := w.s.newPeer(n, &w.c.ID.Public)
		if err := p.KX(); err != nil {
			return nil, err
		}
		add(p)
	}
	rng.Read(g.strange[:])
	g.model["crew"] = &gmodel{append([]id32{}, w.crew.Members...), w.crew.Generation}
	if d, ok := w.c.Group("mine"); ok {
		g.model["mine"] = &gmodel{append([]id32{}, d.Members...), d.Generation}
	}
	g.fresh()
	return g, nil
}

// fresh returns what each peer received since the last call.
func (g *gworld) fresh() map[int][]string {
	o := map[int][]string{}
	for i, x := range g.ps {
		x.p.mu.Lock()
		l := append([]gotMsg(nil), x.p.got[x.had:]...)
		x.had = len(x.p.got)
		x.p.mu.Unlock()
		for _, m := range l {
			s := m.Cmd
			switch m.Cmd {
			case rpc.CRPCCmdPrivateMessage:
				var v rpc.PrivateMessage
				unxdr(m.Body, &v)
				if strings.HasPrefix(v.Text, "sentinel-") {
					continue
				}
				s = "text " + v.Text
			case rpc.CRPCCmdGroupInvite:
				var v rpc.GroupInvite
				unxdr(m.Body, &v)
				s = fmt.Sprintf("invite %s %d", v.Name, v.Token)
			case rpc.CRPCCmdGroupJoin:
				var v rpc.GroupJoin
				unxdr(m.Body, &v)
				s = fmt.Sprintf("join %s %d", v.Name, v.Token)
			case rpc.CRPCCmdGroupList:
				var v rpc.GroupList
				unxdr(m.Body, &v)
				s = fmt.Sprintf("list %s %s", v.Name, g.canon(v.Members))
			case rpc.CRPCCmdGroupKick:
				var v rpc.GroupKick
				unxdr(m.Body, &v)
				s = fmt.Sprintf("kick %s %s %v %s", v.NewGroupList.Name, g.label(v.Member), v.Parted, g.canon(v.NewGroupList.Members))
			case rpc.CRPCCmdGroupKill:
				var v rpc.GroupKill
				unxdr(m.Body, &v)
				s = "kill " + v.Name
			case rpc.CRPCCmdGroupPart:
				var v rpc.GroupPart
				unxdr(m.Body, &v)
				s = "part " + v.Name
			case rpc.CRPCCmdGroupMessage:
				var v rpc.GroupMessage
				unxdr(m.Body, &v)
				s = fmt.Sprintf("gm %s %v %s", v.Name, v.Mode, v.Message)
			}
			o[i] = append(o[i], s)
		}
	}
	return o
}

// barrier waits until all the client sent before has arrived and all it
// printed before is in the logs.
func (g *gworld) barrier() bool {
	if err := g.sentinel(); err != nil {
		return g.bad("dead", "%v", err)
	}
	t := fmt.Sprintf("sentinel-%d-", g.n)
	if !g.c.wait(20*time.Second, func() bool { return strings.Contains(g.c.Conv("dave", pid(g.dave)), t) }) {
		return g.bad("dead", "what is sent is not echoed %s", g.dead())
	}
	return true
}

// agree compares the groups on the client's disk with the model.
func (g *gworld) agree(after string) bool {
	fs, _ := filepath.Glob(g.c.path("groupchat", "*"))
	seen := map[string]bool{}
	for _, f := range fs {
		n := filepath.Base(f)
		seen[n] = true
		d, ok := g.c.Group(n)
		m := g.model[n]
		if m == nil {
			return g.bad("groups", "after %s the client has the group %s", after, n)
		}
		if !ok {
			return g.bad("groups", "after %s the group %s on disk is damaged", after, n)
		}
		if g.canon(d.Members) != g.canon(m.members) || d.Name != n {
			return g.bad("members", "after %s the group %s is %s (named %q), it should be %s", after, n, g.canon(d.Members), d.Name, g.canon(m.members))
		}
		if d.Generation < m.gen && len(m.members) > 0 && m.members[0] == g.me() {
			return g.bad("generation", "after %s the generation of %s went from %d to %d", after, n, m.gen, d.Generation)
		}
		m.gen = d.Generation
	}
	for n := range g.model {
		if !seen[n] {
			return g.bad("groups", "after %s the client lost the group %s", after, n)
		}
	}
	return true
}

// settle checks deliveries and state after a step.
func (g *gworld) settle(after string, want map[int][]string) bool {
	if !g.barrier() {
		return false
	}
	got := g.fresh()
	f := func(m map[int][]string) string {
		var o []string
		for i, l := range m {
			sort.Strings(l)
			for _, s := range l {
				o = append(o, g.ps[i].nick+": "+s)
			}
		}
		sort.Strings(o)
		return strings.Join(o, "; ")
	}
	for _, l := range got {
		g.r.Count("arrived", len(l))
	}
	if f(got) != f(want) {
		for i := range g.ps {
			a, b := got[i], want[i]
			for j := 0; j < len(a); j++ {
				for k := range b {
					if a[j] == b[k] {
						a = append(a[:j:j], a[j+1:]...)
						b = append(b[:k:k], b[k+1:]...)
						j--
						break
					}
				}
			}
			got[i], want[i] = a, b
			if len(a) == 0 {
				delete(got, i)
			}
			if len(b) == 0 {
				delete(want, i)
			}
		}
		return g.bad("sent", "after %s the client sent {%s} too much and {%s} not", after, f(got), f(want))
	}
	return g.agree(after)
}

func (g *gworld) index(id id32) int {
	for i, x := range g.ps {
		if pid(x.p) == id {
			return i
		}
	}
	return -1
}

func (g *gworld) groupNames() []string { return keys(g.model) }

func has(l []id32, x id32) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func without(l []id32, x id32) []id32 {
	var o []id32
	for _, y := range l {
		if y != x {
			o = append(o, y)
		}
	}
	return o
}

// toAll is what the known members except the administrator are sent.
func (g *gworld) toAll(members []id32, s string) map[int][]string {
	w := map[int][]string{}
	for _, m := range members {
		if i := g.index(m); i >= 0 {
			w[i] = append(w[i], s)
		}
	}
	return w
}

// newMembers invents the members of a list.
func (g *gworld) newMembers(admin id32) []id32 {
	l := []id32{admin}
	all := []id32{g.me(), g.strange}
	for _, p := range g.ps {
		all = append(all, pid(p.p))
	}
	g.rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, x := range all[:g.rng.Intn(len(all))] {
		if x != admin {
			l = append(l, x)
		}
	}
	if !has(l, g.me()) && g.rng.Intn(5) > 0 {
		l = append(l, g.me())
	}
	return l
}

func (g *gworld) logSizes() string {
	var o []string
	fs, _ := filepath.Glob(g.c.path("logs", "groupchat.*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		o = append(o, fmt.Sprintf("%s %d", filepath.Base(f), len(b)))
	}
	return strings.Join(o, " ")
}

// deliver sends v from x, as x or as someone else.
func (g *gworld) deliver(x *person, v any) error { return x.p.Send(v) }

func (g *gworld) pickGroup() string {
	n := g.groupNames()
	if len(n) == 0 || g.rng.Intn(12) == 0 {
		return []string{"nowhere", "crew", "mine", "..", "x"}[g.rng.Intn(5)]
	}
	return n[g.rng.Intn(len(n))]
}

// step25 does one thing to the client.
func (g *gworld) step25() bool {
	rng := g.rng
	own, others := 0, 0
	for _, m := range g.model {
		if m.members[0] == g.me() {
			own++
		} else if has(m.members, g.me()) && len(m.members) > 2 {
			others++
		}
	}
	if own == 0 || others == 0 && rng.Intn(2) == 0 {
		if own == 0 {
			n := []string{"mine", "club", "team-1", "a.b"}[rng.Intn(4)]
			if g.model[n] == nil {
				g.note("/gc new %s", n)
				if !g.c.Type("/gc new " + n) {
					return g.bad("dead", "no command is taken %s", g.dead())
				}
				g.model[n] = &gmodel{[]id32{g.me()}, 0}
				g.r.Case("new")
				return g.settle("/gc new "+n, nil)
			}
		}
		n := []string{"crew", "gang", "x"}[rng.Intn(3)]
		if g.model[n] == nil {
			a := g.ps[rng.Intn(len(g.ps))]
			if !g.joinModel(n, a) {
				return false
			}
			gl := rpc.GroupList{Name: n, Generation: 1, Timestamp: time.Now().Unix(), Members: []id32{pid(a.p), g.me()}}
			for _, k := range rng.Perm(len(g.ps))[:3] {
				if g.ps[k] != a {
					gl.Members = append(gl.Members, pid(g.ps[k].p))
				}
			}
			if err := a.p.Send(gl); err != nil {
				return g.bad("dead", "%v", err)
			}
			g.note("%s list for %s: %s", a.nick, n, g.canon(gl.Members))
			g.model[n] = &gmodel{gl.Members, 1}
			g.r.Count("accepted", 1)
			return g.settle("the first list of "+n, nil)
		}
	}
	gn := g.pickGroup()
	m := g.model[gn]
	i := rng.Intn(len(g.ps))
	if m != nil && rng.Intn(3) > 0 {
		// the administrator more often than not
		if k := g.index(m.members[0]); k >= 0 {
			i = k
		}
	}
	x := g.ps[i]
	from := pid(x.p)
	admin := m != nil && m.members[0] == from
	mine := m != nil && m.members[0] == g.me()
	none := map[int][]string{}
	before := ""
	refused := func(kind string, err error) bool {
		if err != nil {
			return g.bad("dead", "%s of %s: %v %s", kind, x.nick, err, g.dead())
		}
		g.r.Count("refused", 1)
		if !g.settle(fmt.Sprintf("a %s for %s by %s, who may not", kind, gn, x.nick), none) {
			return false
		}
		if s := g.logSizes(); s != before {
			return g.bad("told", "a %s for %s by %s, who may not, is shown in the group: %s", kind, gn, x.nick, lastLines(g.c.GroupConv(gn), 3))
		}
		return true
	}
	accepted := func(kind string, err error, want map[int][]string) bool {
		if err != nil {
			return g.bad("dead", "%s of %s: %v %s", kind, x.nick, err, g.dead())
		}
		g.r.Count("accepted", 1)
		return g.settle(fmt.Sprintf("a %s for %s by %s", kind, gn, x.nick), want)
	}
	before = g.logSizes()
	switch op := rng.Intn(16); op {
	case 0, 1: // a list
		l := g.newMembers(from)
		switch rng.Intn(6) {
		case 0:
			l = g.newMembers(g.me())
		case 1:
			l = l[1:]
		case 2:
			l = nil
		}
		gl := rpc.GroupList{Name: gn, Generation: uint64(rng.Intn(9)), Timestamp: time.Now().Unix(), Members: l}
		if m != nil && rng.Intn(2) == 0 {
			gl.Generation = m.gen + 1
		}
		kind := "list"
		var v any = gl
		if op == 1 {
			kind, v = "update", rpc.GroupUpdate{Reason: "r", NewGroupList: gl}
		}
		g.note("%s %s for %s: %s", x.nick, kind, gn, g.canon(l))
		ok := admin && len(l) > 0 && l[0] == from
		g.r.Case(fmt.Sprintf("%s/%v/%v", kind, admin, ok))
		err := g.deliver(x, v)
		if ok {
			g.model[gn] = &gmodel{l, gl.Generation}
			return accepted(kind, err, none)
		}
		if admin {
			// the administrator's own nonsense: only without effect
			return accepted(kind, err, none)
		}
		return refused(kind, err)
	case 2, 3: // a kick
		l := g.newMembers(from)
		member := g.me()
		if rng.Intn(4) > 0 {
			member = pid(g.ps[rng.Intn(len(g.ps))].p)
		}
		if m != nil && rng.Intn(2) == 0 {
			l = without(m.members, member)
		}
		parted := rng.Intn(2) == 0
		g.note("%s kick %s from %s: %s", x.nick, g.label(member), gn, g.canon(l))
		err := g.deliver(x, rpc.GroupKick{Member: member, Reason: "r", Parted: parted,
			NewGroupList: rpc.GroupList{Name: gn, Generation: 7, Timestamp: time.Now().Unix(), Members: l}})
		g.r.Case(fmt.Sprintf("kick/%v/%v", admin, member == g.me()))
		if !admin {
			return refused("kick", err)
		}
		if member == g.me() {
			delete(g.model, gn)
		} else if len(l) > 0 && l[0] == from {
			g.model[gn] = &gmodel{l, 7}
		}
		return accepted("kick", err, none)
	case 4: // a kill
		if admin && rng.Intn(3) > 0 {
			return true
		}
		g.note("%s kill %s", x.nick, gn)
		err := g.deliver(x, rpc.GroupKill{Name: gn, Reason: "r"})
		g.r.Case(fmt.Sprintf("kill/%v", admin))
		if !admin {
			return refused("kill", err)
		}
		delete(g.model, gn)
		return accepted("kill", err, none)
	case 5: // a part
		if mine {
			x = g.ps[rng.Intn(len(g.ps))]
			from = pid(x.p)
		}
		g.note("%s part %s", x.nick, gn)
		err := g.deliver(x, rpc.GroupPart{Name: gn, Reason: "r"})
		g.r.Case(fmt.Sprintf("part/%v/%v", mine, m != nil && has(m.members, from)))
		if !mine || !has(m.members, from) {
			return refused("part", err)
		}
		old := m.members
		g.model[gn] = &gmodel{without(old, from), m.gen + 1}
		return accepted("part", err, g.toAll(old[1:], fmt.Sprintf("kick %s %s true %s", gn, x.nick, g.canon(g.model[gn].members))))
	case 6: // a join nobody invited to
		g.note("%s joins %s uninvited", x.nick, gn)
		err := g.deliver(x, rpc.GroupJoin{Name: gn, Token: uint64(rng.Intn(3))})
		g.r.Case(fmt.Sprintf("join/%v", mine))
		return refused("join", err)
	case 7, 8: // a message
		if m != nil && rng.Intn(2) == 0 {
			var l []int
			for _, id := range m.members {
				if k := g.index(id); k >= 0 {
					l = append(l, k)
				}
			}
			if len(l) > 0 {
				x = g.ps[l[rng.Intn(len(l))]]
				from = pid(x.p)
			}
		}
		g.marks++
		mk := fmt.Sprintf("g%d.%d.", g.lane, g.marks)
		in := m != nil && has(m.members, from)
		g.note("%s says %s in %s (%v)", x.nick, mk, gn, in)
		g.r.Case(fmt.Sprintf("message/%v/%v", m != nil, in))
		if err := g.deliver(x, rpc.GroupMessage{Name: gn, Generation: uint64(rng.Intn(3)), Message: mk}); err != nil {
			return g.bad("dead", "a message of %s: %v %s", x.nick, err, g.dead())
		}
		if !in {
			g.never = append(g.never, mk)
			return refused("message", nil)
		}
		g.r.Count("shown", 1)
		if e := g.shown(mk, g.logOfGroup(gn), "<"+x.nick+">"); e != "" {
			return g.bad("message", "a message of %s in %s: %s", x.nick, gn, e)
		}
		return true
	case 9: // the server attributes a message of one to another
		y := g.ps[rng.Intn(len(g.ps))]
		if y == x || m == nil {
			return true
		}
		var v any
		switch rng.Intn(4) {
		case 0:
			v = rpc.GroupKill{Name: gn}
		case 1:
			v = rpc.GroupList{Name: gn, Members: g.newMembers(pid(y.p))}
		case 2:
			g.marks++
			mk := fmt.Sprintf("g%d.%d.", g.lane, g.marks)
			g.never = append(g.never, mk)
			v = rpc.GroupMessage{Name: gn, Message: mk}
		case 3:
			v = rpc.GroupPart{Name: gn}
		}
		ct, err := x.p.seal(crpc(crpcCmd(v), rpc.CRPCCompNone, xdrBytes(v)))
		if err != nil {
			return g.bad("dead", "%v", err)
		}
		g.note("%T of %s attributed to %s", v, x.nick, y.nick)
		g.r.Case(fmt.Sprintf("attributed/%T", v))
		return refused("forged "+crpcCmd(v), g.s.Push(pid(y.p), ct))
	case 10: // the user speaks
		g.marks++
		mk := fmt.Sprintf("g%d.%d.", g.lane, g.marks)
		g.note("/gc m %s %s", gn, mk)
		if !g.c.Type("/gc m " + gn + " " + mk) {
			return g.bad("dead", "no command is taken %s", g.dead())
		}
		g.r.Case(fmt.Sprintf("speak/%v/%v", m != nil, mine))
		w := none
		if m != nil {
			w = g.toAll(m.members, "gm "+gn+" 0 "+mk)
		}
		return g.settle("/gc m "+gn, w)
	case 11: // the user kicks
		y := g.ps[rng.Intn(len(g.ps))]
		who := y.nick
		target := pid(y.p)
		if rng.Intn(4) == 0 {
			target = g.strange
			who = hex.EncodeToString(target[:])
		}
		self := rng.Intn(6) == 0
		if self {
			target = g.me()
			who = hex.EncodeToString(target[:])
			if rng.Intn(3) == 0 {
				who = "alice"
			}
		}
		g.note("/gc kick %s %s", gn, who)
		if !g.c.Type("/gc kick " + gn + " " + who) {
			return g.bad("dead", "no command is taken %s", g.dead())
		}
		g.r.Case(fmt.Sprintf("userkick/%v/%v", mine, m != nil && has(m.members, target)))
		w := none
		if mine && !self {
			old := m.members
			g.model[gn] = &gmodel{without(old, target), m.gen + 1}
			w = g.toAll(old[1:], fmt.Sprintf("kick %s %s false %s", gn, g.label(target), g.canon(g.model[gn].members)))
		}
		return g.settle("/gc kick "+gn+" "+who, w)
	case 12: // the user leaves or kills
		switch k := rng.Intn(5); {
		case k < 2:
			g.note("/gc part %s", gn)
			if !g.c.Type("/gc part " + gn) {
				return g.bad("dead", "no command is taken %s", g.dead())
			}
			w := none
			if m != nil && !mine {
				w = g.toAll(m.members[:1], "part "+gn)
			}
			g.r.Case(fmt.Sprintf("userpart/%v/%v", m != nil, mine))
			return g.settle("/gc part "+gn, w)
		case k == 2 && !strings.Contains(gn, "."):
			g.note("/gc part %s force", gn)
			if !g.c.Type("/gc part " + gn + " force") {
				return g.bad("dead", "no command is taken %s", g.dead())
			}
			delete(g.model, gn)
			delete(g.inv, gn)
			g.r.Case(fmt.Sprintf("userforce/%v/%v", m != nil, mine))
			return g.settle("/gc part "+gn+" force", none)
		default:
			g.note("/gc kill %s", gn)
			if !g.c.Type("/gc kill " + gn) {
				return g.bad("dead", "no command is taken %s", g.dead())
			}
			w := none
			if mine {
				w = g.toAll(m.members[1:], "kill "+gn)
				delete(g.model, gn)
				delete(g.inv, gn)
			}
			g.r.Case(fmt.Sprintf("userkill/%v/%v", m != nil, mine))
			return g.settle("/gc kill "+gn, w)
		}
	case 13, 14: // a new group, or more members
		if len(g.model) < 4 && rng.Intn(2) == 0 {
			n := []string{"mine", "club", "team-1", "a.b"}[rng.Intn(4)]
			if g.model[n] == nil && rng.Intn(3) == 0 {
				n = "crew"
			}
			if g.model[n] != nil {
				return true
			}
			if n == "crew" {
				a := g.ps[rng.Intn(len(g.ps))]
				return g.joinModel(n, a)
			}
			g.note("/gc new %s", n)
			if !g.c.Type("/gc new " + n) {
				return g.bad("dead", "no command is taken %s", g.dead())
			}
			g.model[n] = &gmodel{[]id32{g.me()}, 0}
			g.r.Case("new")
			return g.settle("/gc new "+n, none)
		}
		if !mine || has(m.members, from) {
			return true
		}
		gi, err := g.invite(gn, x.p)
		if err != nil {
			// an invitation that is still open
			return true
		}
		g.fresh()
		g.note("%s joins %s invited", x.nick, gn)
		g.model[gn] = &gmodel{append(append([]id32{}, m.members...), from), m.gen + 1}
		err = x.p.Send(rpc.GroupJoin{Name: gn, Token: gi.Token})
		g.r.Case("joined")
		return accepted("join", err, g.toAll(g.model[gn].members, fmt.Sprintf("list %s %s", gn, g.canon(g.model[gn].members))))
	default:
		if rng.Intn(3) > 0 {
			return true
		}
		return g.restart()
	}
}

func (g *gworld) restart() bool {
	g.note("restart")
	if !g.c.Quit() {
		return g.bad("quit", "the client does not quit")
	}
	g.c.MustStart()
	if g.s.Conn(20*time.Second) == nil {
		return g.bad("restart", "the client does not come back %s", g.dead())
	}
	g.r.Count("restarts", 1)
	return g.settle("a restart", nil)
}

// joinModel has the client join a group of a's.
func (g *gworld) joinModel(n string, a *person) bool {
	g.marks++
	tok := uint64(5000 + g.marks)
	g.note("%s invites to %s", a.nick, n)
	if err := a.p.Send(rpc.GroupInvite{Name: n, Members: []string{a.nick}, Token: tok, Description: "come", Expires: time.Now().Add(time.Hour).Unix()}); err != nil {
		return g.bad("dead", "%v", err)
	}
	if !g.c.Type(fmt.Sprintf("/gc join %s %d", n, tok)) {
		return g.bad("dead", "no command is taken %s", g.dead())
	}
	g.model[n] = &gmodel{[]id32{pid(a.p)}, 0}
	return g.settle("joining "+n, map[int][]string{g.index(pid(a.p)): {fmt.Sprintf("join %s %d", n, tok)}})
}

// storm25 lets many members join and leave at once while the user kicks and
// speaks; in the end everybody knows the same members.
func (g *gworld) storm25() bool {
	gn := fmt.Sprintf("storm%d", g.marks)
	g.marks++
	if !g.c.Type("/gc new " + gn) {
		return g.bad("dead", "no command is taken %s", g.dead())
	}
	g.model[gn] = &gmodel{[]id32{g.me()}, 0}
	if !g.settle("/gc new", nil) {
		return false
	}
	state := make([]bool, len(g.ps)) // member
	for round := 0; round < 3; round++ {
		tok := make([]uint64, len(g.ps))
		todo := make([]int, len(g.ps)) // 1 join, 2 part, 3 kicked, 4 joins twice
		for i := range g.ps {
			if !state[i] {
				gi, err := g.invite(gn, g.ps[i].p)
				if err != nil {
					return g.bad("dead", "%v", err)
				}
				tok[i] = gi.Token
				todo[i] = []int{1, 1, 4}[g.rng.Intn(3)]
			} else {
				todo[i] = []int{0, 2, 3, 2}[g.rng.Intn(4)]
			}
		}
		g.fresh()
		kick := -1
		for i := range todo {
			if todo[i] == 3 {
				if kick >= 0 {
					todo[i] = 0
				} else {
					kick = i
				}
			}
		}
		g.note("storm %v", todo)
		var wg sync.WaitGroup
		errs := make([]error, len(g.ps)+1)
		for i := range g.ps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				p := g.ps[i].p
				switch todo[i] {
				case 1:
					errs[i] = p.Send(rpc.GroupJoin{Name: gn, Token: tok[i]})
				case 4:
					var w2 sync.WaitGroup
					for k := 0; k < 3; k++ {
						w2.Add(1)
						go func() { defer w2.Done(); p.Send(rpc.GroupJoin{Name: gn, Token: tok[i]}) }()
					}
					w2.Wait()
				case 2:
					errs[i] = p.Send(rpc.GroupPart{Name: gn})
				}
			}(i)
		}
		if kick >= 0 {
			if !g.c.Type("/gc kick " + gn + " " + g.ps[kick].nick) {
				errs[len(g.ps)] = fmt.Errorf("no command is taken")
			}
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return g.bad("dead", "%v %s", e, g.dead())
			}
		}
		if !g.barrier() {
			return false
		}
		want := map[string]bool{"alice": true}
		for i := range g.ps {
			switch todo[i] {
			case 1, 4:
				state[i] = true
			case 2, 3:
				state[i] = false
			}
			if state[i] {
				want[g.ps[i].nick] = true
			}
		}
		d, ok := g.c.Group(gn)
		if !ok {
			return g.bad("groups", "the group %s is lost", gn)
		}
		var have []string
		for _, id := range d.Members {
			have = append(have, g.label(id))
		}
		sort.Strings(have)
		if strings.Join(have, ",") != strings.Join(keys(want), ",") || g.label(d.Members[0]) != "alice" {
			return g.bad("storm", "members joined and left at the same time: the group is %s, it should be %s", g.canon(d.Members), strings.Join(keys(want), ","))
		}
		g.model[gn] = &gmodel{append([]id32{}, d.Members...), d.Generation}
		got := g.fresh()
		for i := range g.ps {
			if !state[i] {
				if todo[i] != 0 {
					l := got[i]
					ok := false
					for _, s := range l {
						ok = ok || strings.HasPrefix(s, "kick "+gn+" "+g.ps[i].nick+" ")
					}
					if !ok {
						return g.bad("storm-told", "%s left %s and was not told: %v", g.ps[i].nick, gn, l)
					}
				}
				continue
			}
			l := got[i]
			if len(l) == 0 {
				anything := false
				for _, k := range todo {
					anything = anything || k != 0
				}
				if anything {
					return g.bad("storm-told", "%s was told nothing of the changes of %s", g.ps[i].nick, gn)
				}
				continue
			}
			if !strings.HasSuffix(l[len(l)-1], " "+g.canon(d.Members)) {
				return g.bad("storm-told", "what %s was told of %s last is %q, its members are %s", g.ps[i].nick, gn, l[len(l)-1], g.canon(d.Members))
			}
		}
		g.r.Case(fmt.Sprintf("storm/%d", len(d.Members)))
		g.r.Count("storms", 1)
	}
	if !g.c.Type("/gc kill " + gn) {
		return g.bad("dead", "no command is taken %s", g.dead())
	}
	delete(g.model, gn)
	if !g.barrier() {
		return false
	}
	g.fresh()
	return g.agree("/gc kill " + gn)
}

// silent checks that nothing was shown of what may not be.
func (g *gworld) silent() bool {
	for _, mk := range g.never {
		if m := g.c.logsWith(mk); len(m) > 0 {
			return g.bad("outsider", "a message of someone who is not in the group is shown: %v", m)
		}
	}
	g.r.Count("silenced", len(g.never))
	return true
}

// apart lets the user act while the server can not be reached: a group can not
// be killed then, everything else arrives when the server is back.
func (g *gworld) apart() bool {
	gn := ""
	for _, n := range keys(g.model) {
		if m := g.model[n]; m.members[0] == g.me() && (gn == "" || len(m.members) > len(g.model[gn].members)) {
			gn = n
		}
	}
	if gn == "" {
		return true
	}
	m := g.model[gn]
	lost := func() int {
		c := g.c.Console()
		return strings.Count(c, "server connection closed") + strings.Count(c, "connection error")
	}
	k := lost()
	g.s.mu.Lock()
	g.s.refuse = true
	g.s.mu.Unlock()
	g.s.Drop()
	if !g.c.wait(40*time.Second, func() bool { return lost() > k }) {
		return g.bad("not-noticed", "the client does not notice that its connection is gone %s", g.dead())
	}
	g.note("offline: /gc kill %s", gn)
	if !g.c.Type("/gc kill " + gn) {
		return g.bad("dead", "no command is taken %s", g.dead())
	}
	w := map[int][]string{}
	if len(m.members) > 1 {
		target := m.members[1+g.rng.Intn(len(m.members)-1)]
		g.note("offline: /gc kick %s %s", gn, g.label(target))
		if !g.c.Type("/gc kick " + gn + " " + g.label(target)) {
			return g.bad("dead", "no command is taken %s", g.dead())
		}
		g.model[gn] = &gmodel{without(m.members, target), m.gen + 1}
		w = g.toAll(m.members[1:], fmt.Sprintf("kick %s %s false %s", gn, g.label(target), g.canon(g.model[gn].members)))
		g.r.Count("offline_kicks", 1)
	}
	g.r.Count("offline_kills", 1)
	g.r.Case(fmt.Sprintf("offline/%v", len(m.members) > 1))
	g.s.mu.Lock()
	g.s.refuse = false
	g.s.mu.Unlock()
	for i := 0; i < 40 && g.s.Conn(0) == nil; i++ {
		g.c.Type("/online")
		g.c.wait(500*time.Millisecond, func() bool { return g.s.Conn(0) != nil })
	}
	if g.s.Conn(0) == nil {
		return g.bad("not-back", "the client does not connect again %s", g.dead())
	}
	return g.settle("/gc kill and /gc kick of "+gn+" while offline", w)
}

func p25(r *Report) {
	r.Rule = "one case per kind of action, authority of who does it and outcome"
	lanes := 6
	for round := 0; round < r.pick(1, 6); round++ {
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				g, err := newGworld(r, mrand.New(mrand.NewSource(r.Seed*1000+int64(round*lanes+l))), l, "group")
				if err != nil {
					r.Inconclusive("the crowd does not come up: %v", err)
					return
				}
				for i := 0; i < r.pick(70, 250); i++ {
					if !g.step25() {
						return
					}
					r.Count("steps", 1)
					if i%35 == 20 && !g.storm25() {
						return
					}
					if i%35 == 5 && !g.apart() {
						return
					}
				}
				g.silent()
			}(l)
		}
		wg.Wait()
	}
	r.Need("accepted", 25)
	r.Need("refused", 60)
	r.Need("storms", 6)
}

func init() { register("P25", p25); register("P26", p26) }

// expire makes an invitation on the client's disk one of the past.
func (g *gworld) expire(file, group string, id id32) bool {
	f := g.c.path(file, file+".ini")
	b, err := os.ReadFile(f)
	if err != nil {
		return false
	}
	db, err := inidb.New(f, false, 10)
	if err != nil {
		return false
	}
	ids := hex.EncodeToString(id[:])
	v, err := db.Get(group, ids)
	if err != nil {
		return false
	}
	x, err := base64.StdEncoding.DecodeString(v)
	if err != nil {
		return false
	}
	var gi rpc.GroupInvite
	if _, err := xdr.Unmarshal(bytes.NewReader(x), &gi); err != nil {
		return false
	}
	gi.Expires = time.Now().Add(-time.Minute).Unix()
	n := bytes.Replace(b, []byte(v), []byte(base64.StdEncoding.EncodeToString(xdrBytes(gi))), 1)
	if bytes.Equal(n, b) {
		return false
	}
	return os.WriteFile(f, n, 0600) == nil
}

type joinInv struct {
	token   uint64
	expired bool
}

func p26lane(r *Report, g *gworld, steps int) {
	rng := g.rng
	groups := []string{"mine", "club"}
	if !g.c.Type("/gc new club") {
		g.bad("dead", "no command is taken %s", g.dead())
		return
	}
	g.model["club"] = &gmodel{[]id32{g.me()}, 0}
	if !g.settle("/gc new club", nil) {
		return
	}
	for _, n := range groups {
		g.inv[n] = map[int]*invModel{}
	}
	var used []struct {
		g string
		i int
		t uint64
	}
	foreign := []string{"f1", "f2", "f3", "mine"}
	joins := map[string]map[int]*joinInv{}
	for _, n := range foreign {
		joins[n] = map[int]*joinInv{}
	}
	none := map[int][]string{}
	outlived := 0
	for step := 0; step < steps; step++ {
		r.Count("steps", 1)
		gn := groups[rng.Intn(2)]
		m := g.model[gn]
		i := rng.Intn(len(g.ps))
		x := g.ps[i]
		id := pid(x.p)
		member := has(m.members, id)
		if step%35 == 25 && !g.storm26() {
			return
		}
		op := rng.Intn(21)
		if step%40 == 15 {
			op = 20
		}
		switch op {
		case 0, 1, 2: // the user invites
			g.note("/gc invite %s %s", gn, x.nick)
			if !g.c.Type("/gc invite " + gn + " " + x.nick) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			if !g.barrier() {
				return
			}
			got := g.fresh()
			old := g.inv[gn][i]
			open := old != nil && !old.expired
			g.r.Case(fmt.Sprintf("invite/%v/%v/%v", member, open, old != nil))
			n := 0
			for k, l := range got {
				n += len(l)
				if k != i || len(l) != 1 || !strings.HasPrefix(l[0], "invite "+gn+" ") {
					g.bad("invite", "/gc invite %s %s made the client send %v to %s", gn, x.nick, l, g.ps[k].nick)
					return
				}
			}
			if member && n > 0 {
				g.bad("invite-member", "%s is in %s and was invited", x.nick, gn)
				return
			}
			if !member && !open && n == 0 {
				g.bad("no-invite", "/gc invite %s %s sent no invitation: %s", gn, x.nick, lastLines(g.c.Console(), 3))
				return
			}
			if n == 1 {
				l := takeAll[rpc.GroupInvite](x.p, rpc.CRPCCmdGroupInvite)
				gi := l[len(l)-1]
				if d := time.Until(time.Unix(gi.Expires, 0)); d < time.Minute {
					g.bad("expired-invite", "an invitation expires %v after it was sent", d)
					return
				}
				if open && gi.Token != old.token {
					// replaced: the old one is of no use
				}
				g.inv[gn][i] = &invModel{token: gi.Token}
				g.r.Count("invitations", 1)
			}
			if !g.agree("/gc invite") {
				return
			}
		case 3, 4, 5, 6, 7, 8: // someone joins
			iv := g.inv[gn][i]
			if iv == nil && rng.Intn(4) > 0 {
				for k, v := range g.inv[gn] {
					_, _ = k, v
				}
				ks := []int{}
				for k := range g.inv[gn] {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				if len(ks) > 0 {
					i = ks[rng.Intn(len(ks))]
					x = g.ps[i]
					id = pid(x.p)
					member = has(m.members, id)
					iv = g.inv[gn][i]
				}
			}
			tok, kind := uint64(0), "none"
			switch rng.Intn(10) {
			case 0: // someone else's
				kind = "other"
				for k := range g.ps {
					if v := g.inv[gn][k]; v != nil && k != i {
						tok = v.token
					}
				}
			case 1: // of the other group
				kind = "othergroup"
				o := groups[0]
				if o == gn {
					o = groups[1]
				}
				if v := g.inv[o][i]; v != nil {
					tok = v.token
				}
			case 2: // used before
				kind = "used"
				if len(used) > 0 {
					u := used[rng.Intn(len(used))]
					gn, i, tok = u.g, u.i, u.t
					x, m = g.ps[i], g.model[u.g]
					id = pid(x.p)
					member = has(m.members, id)
					iv = g.inv[gn][i]
				}
			case 3:
				if iv != nil {
					kind = "near"
					tok = []uint64{iv.token + 1, iv.token + 1<<32, iv.token * 2, iv.token + 1000000}[rng.Intn(4)]
				}
			default:
				if iv != nil {
					kind, tok = "right", iv.token
				}
			}
			ok := iv != nil && !iv.expired && iv.token == tok && !member
			g.note("%s joins %s with %s token %d (%v)", x.nick, gn, kind, tok, ok)
			g.r.Case(fmt.Sprintf("join/%s/%v/%v", kind, ok, iv != nil && iv.expired))
			times := 1
			if rng.Intn(3) == 0 {
				times = 2 + rng.Intn(5)
			}
			var wg sync.WaitGroup
			errs := make([]error, times)
			for k := 0; k < times; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					errs[k] = x.p.Send(rpc.GroupJoin{Name: gn, Token: tok})
				}(k)
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil {
					g.bad("dead", "%v %s", e, g.dead())
					return
				}
			}
			w := none
			if ok {
				g.model[gn] = &gmodel{append(append([]id32{}, m.members...), id), m.gen + 1}
				delete(g.inv[gn], i)
				used = append(used, struct {
					g string
					i int
					t uint64
				}{gn, i, tok})
				w = g.toAll(g.model[gn].members, fmt.Sprintf("list %s %s", gn, g.canon(g.model[gn].members)))
				r.Count("joined", 1)
			} else {
				r.Count("refused", 1)
			}
			if iv != nil && iv.token == tok && member {
				delete(g.inv[gn], i) // used up, or not: do not care
			}
			if !g.settle(fmt.Sprintf("%d joins of %s with the %s token (invited %v)", times, x.nick, kind, iv), w) {
				return
			}
		case 9: // time passes
			for k := range g.ps {
				if v := g.inv[gn][k]; v != nil && !v.expired {
					if !g.expire("invites", gn, pid(g.ps[k].p)) {
						g.bad("lost-invite", "the invitation of %s to %s is not on disk", g.ps[k].nick, gn)
						return
					}
					g.note("invitation of %s to %s expires", g.ps[k].nick, gn)
					v.expired = true
					r.Count("expired", 1)
					break
				}
			}
		case 10: // the user kicks, someone leaves
			if !member {
				continue
			}
			g.note("/gc kick %s %s", gn, x.nick)
			if !g.c.Type("/gc kick " + gn + " " + x.nick) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			old := m.members
			g.model[gn] = &gmodel{without(old, id), m.gen + 1}
			if !g.settle("/gc kick", g.toAll(old[1:], fmt.Sprintf("kick %s %s false %s", gn, x.nick, g.canon(g.model[gn].members)))) {
				return
			}
		case 11: // others invite the user, several at once
			fn := foreign[rng.Intn(len(foreign))]
			var wg sync.WaitGroup
			type nv struct {
				i    int
				t    uint64
				past bool
			}
			var ns []nv
			for k := range g.ps {
				if rng.Intn(2) == 0 {
					ns = append(ns, nv{k, uint64(rng.Intn(1000000)), rng.Intn(5) == 0})
				}
			}
			errs := make([]error, len(ns))
			for k := range ns {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					e := time.Now().Add(time.Hour)
					if ns[k].past {
						e = time.Now().Add(-time.Hour)
					}
					errs[k] = g.ps[ns[k].i].p.Send(rpc.GroupInvite{Name: fn, Members: []string{"alice", "bob"}, Token: ns[k].t, Description: "come", Expires: e.Unix()})
				}(k)
			}
			// the user joins something in the meantime
			jn, jt, ji := "", uint64(0), -1
			for _, n := range foreign {
				for k, v := range joins[n] {
					if n != fn && g.model[n] == nil && !v.expired {
						jn, jt, ji = n, v.token, k
					}
				}
			}
			if jn != "" {
				g.note("/gc join %s %d while invitations arrive", jn, jt)
				if !g.c.Type(fmt.Sprintf("/gc join %s %d", jn, jt)) {
					g.bad("dead", "no command is taken %s", g.dead())
					return
				}
				r.Count("joins_during_invitations", 1)
			}
			wg.Wait()
			w := map[int][]string{}
			if jn != "" {
				w[ji] = []string{fmt.Sprintf("join %s %d", jn, jt)}
				g.model[jn] = &gmodel{[]id32{pid(g.ps[ji].p)}, 0}
				delete(joins[jn], ji)
			}
			for k, v := range ns {
				if errs[k] != nil {
					g.bad("dead", "%v %s", errs[k], g.dead())
					return
				}
				g.note("%s invites to %s with %d (expired %v)", g.ps[v.i].nick, fn, v.t, v.past)
				if o := joins[fn][v.i]; o != nil && !o.expired {
					continue // the first one counts
				}
				joins[fn][v.i] = &joinInv{v.t, v.past}
			}
			g.r.Case(fmt.Sprintf("invited/%d", len(ns)))
			r.Count("invited", len(ns))
			if !g.settle("invitations arrived", w) {
				return
			}
		case 12, 13, 15, 16, 17, 18: // the user joins
			fn := foreign[rng.Intn(len(foreign))]
			for _, n := range foreign {
				if len(joins[fn]) == 0 || g.model[fn] != nil && rng.Intn(3) > 0 {
					fn = n
				}
			}
			tok, kind, want := uint64(rng.Intn(1000000)), "none", -1
			ks := []int{}
			for k := range joins[fn] {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			if len(ks) > 0 && rng.Intn(5) > 0 {
				k := ks[rng.Intn(len(ks))]
				v := joins[fn][k]
				tok, kind = v.token, "right"
				if v.expired {
					kind = "expired"
				}
			}
			same := 0
			for _, k := range ks {
				if v := joins[fn][k]; v.token == tok && !v.expired {
					want = k
					same++
				}
			}
			if same > 1 {
				continue
			}
			if g.model[fn] != nil {
				want = -1
				kind += "-member"
			}
			g.note("/gc join %s %d (%s)", fn, tok, kind)
			if !g.c.Type(fmt.Sprintf("/gc join %s %d", fn, tok)) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			g.r.Case("userjoin/" + kind)
			w := map[int][]string{}
			if want >= 0 {
				w[want] = []string{fmt.Sprintf("join %s %d", fn, tok)}
				g.model[fn] = &gmodel{[]id32{pid(g.ps[want].p)}, 0}
				delete(joins[fn], want)
				r.Count("userjoins", 1)
			}
			if !g.settle(fmt.Sprintf("/gc join %s %d (%s)", fn, tok, kind), w) {
				return
			}
			if want >= 0 && rng.Intn(2) == 0 {
				// and leaves again
				if !g.c.Type("/gc part " + fn + " force") {
					g.bad("dead", "no command is taken %s", g.dead())
					return
				}
				delete(g.model, fn)
				g.note("/gc part %s force", fn)
				if !g.settle("/gc part force", none) {
					return
				}
			}
		case 14:
			if rng.Intn(2) == 0 && !g.restart() {
				return
			}
		case 19: // the user invites to a group of someone else
			fn := ""
			for _, n := range keys(g.model) {
				if g.model[n].members[0] != g.me() {
					fn = n
				}
			}
			if fn == "" {
				continue
			}
			g.note("/gc invite %s %s, not the administrator", fn, x.nick)
			if !g.c.Type("/gc invite " + fn + " " + x.nick) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			g.r.Case("invite/not-administrator")
			r.Count("refused", 1)
			if !g.settle("/gc invite of the user, who is not the administrator of "+fn, none) {
				return
			}
		case 20: // an invitation outlives its group, another group takes the name
			if outlived++; outlived > 2 {
				continue
			}
			y := g.ps[(i+1)%len(g.ps)]
			n := fmt.Sprintf("heir%d", step)
			g.note("%s is invited to %s, which is killed; then %s invites the user to a group of that name", x.nick, n, y.nick)
			if !g.c.Type("/gc new " + n) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			g.model[n] = &gmodel{[]id32{g.me()}, 0}
			if !g.settle("/gc new "+n, none) {
				return
			}
			if !g.c.Type("/gc invite "+n+" "+x.nick) || !g.barrier() {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			g.fresh()
			l := takeAll[rpc.GroupInvite](x.p, rpc.CRPCCmdGroupInvite)
			if len(l) == 0 || l[len(l)-1].Name != n {
				g.bad("no-invite", "/gc invite %s %s sent no invitation: %s", n, x.nick, lastLines(g.c.Console(), 3))
				return
			}
			old := l[len(l)-1].Token
			if !g.c.Type("/gc kill " + n) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			delete(g.model, n)
			if !g.settle("/gc kill "+n, none) {
				return
			}
			tok := uint64(rng.Intn(1000000))
			if err := y.p.Send(rpc.GroupInvite{Name: n, Members: []string{y.nick}, Token: tok, Description: "come", Expires: time.Now().Add(time.Hour).Unix()}); err != nil {
				g.bad("dead", "%v %s", err, g.dead())
				return
			}
			if !g.settle("an invitation", none) {
				return
			}
			if !g.c.Type(fmt.Sprintf("/gc join %s %d", n, tok)) {
				g.bad("dead", "no command is taken %s", g.dead())
				return
			}
			g.model[n] = &gmodel{[]id32{pid(y.p)}, 0}
			if !g.settle(fmt.Sprintf("/gc join %s %d", n, tok), map[int][]string{(i + 1) % len(g.ps): {fmt.Sprintf("join %s %d", n, tok)}}) {
				return
			}
			gl := rpc.GroupList{Name: n, Generation: 1, Timestamp: time.Now().Unix(), Members: []id32{pid(y.p), g.me()}}
			if err := y.p.Send(gl); err != nil {
				g.bad("dead", "%v %s", err, g.dead())
				return
			}
			g.model[n] = &gmodel{gl.Members, 1}
			if !g.settle("the first list of "+n, none) {
				return
			}
			if err := x.p.Send(rpc.GroupJoin{Name: n, Token: old}); err != nil {
				g.bad("dead", "%v %s", err, g.dead())
				return
			}
			g.r.Case("join/outlived")
			r.Count("refused", 1)
			r.Count("outlived_invitations", 1)
			if !g.settle(fmt.Sprintf("a join of %s with an invitation of the user to an earlier group of the name %s", x.nick, n), none) {
				return
			}
		}
	}
}

// storm26 lets invitations arrive while the user accepts others: none may be
// lost, and each can be accepted.
func (g *gworld) storm26() bool {
	g.marks++
	type one struct {
		n string
		i int
		t uint64
	}
	var first, second []one
	for k := 0; k < 8; k++ {
		first = append(first, one{fmt.Sprintf("s%d-%d", g.marks, k), g.rng.Intn(len(g.ps)), uint64(g.rng.Intn(1000000))})
	}
	for k := 0; k < 24; k++ {
		second = append(second, one{fmt.Sprintf("t%d-%d", g.marks, k), g.rng.Intn(len(g.ps)), uint64(g.rng.Intn(1000000))})
	}
	send := func(o one) error {
		return g.ps[o.i].p.Send(rpc.GroupInvite{Name: o.n, Members: []string{"bob"}, Token: o.t, Description: "come", Expires: time.Now().Add(time.Hour).Unix()})
	}
	for _, o := range first {
		if err := send(o); err != nil {
			return g.bad("dead", "%v %s", err, g.dead())
		}
	}
	g.note("24 invitations arrive while 8 are accepted")
	errs := make(chan error, len(second))
	for k := 0; k < 6; k++ {
		go func(l []one) {
			for _, o := range l {
				errs <- send(o)
			}
		}(second[k*4 : k*4+4])
	}
	ok := true
	for _, o := range first {
		ok = ok && g.c.Type(fmt.Sprintf("/gc join %s %d", o.n, o.t))
	}
	for range second {
		if err := <-errs; err != nil || !ok {
			return g.bad("dead", "%v %v %s", err, ok, g.dead())
		}
	}
	for _, k := range g.rng.Perm(len(second)) {
		o := second[k]
		ok = ok && g.c.Type(fmt.Sprintf("/gc join %s %d", o.n, o.t))
		first = append(first, o)
	}
	w := map[int][]string{}
	for _, o := range first {
		w[o.i] = append(w[o.i], fmt.Sprintf("join %s %d", o.n, o.t))
		g.model[o.n] = &gmodel{[]id32{pid(g.ps[o.i].p)}, 0}
	}
	g.r.Count("storms", 1)
	g.r.Case("storm")
	if !g.settle("invitations that arrive while others are accepted", w) {
		return false
	}
	for _, o := range first {
		if !g.c.Type("/gc part " + o.n + " force") {
			return g.bad("dead", "no command is taken %s", g.dead())
		}
		delete(g.model, o.n)
	}
	return g.settle("/gc part force", nil)
}

func p26(r *Report) {
	r.Rule = "one case per kind of invitation or join attempt and outcome"
	lanes := 6
	for round := 0; round < r.pick(1, 6); round++ {
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				defer harness(r)
				g, err := newGworld(r, mrand.New(mrand.NewSource(r.Seed*1000+int64(round*lanes+l))), l, "invite")
				if err != nil {
					r.Inconclusive("the crowd does not come up: %v", err)
					return
				}
				p26lane(r, g, r.pick(100, 300))
			}(l)
		}
		wg.Wait()
	}
	r.Need("joined", 8)
	r.Need("refused", 40)
	r.Need("userjoins", 3)
	r.Need("expired", 2)
}
