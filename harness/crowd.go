package main

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
)

// Crowd is a real client (alice) among peers played by the monitors: bob,
// who administers the group crew alice is in, carol, also in crew, and dave,
// who is in no group. alice administers the group mine with bob in it.
type Crowd struct {
	r                *Report
	s                *FSrv
	c                *Cli
	bob, carol, dave *Peer
	crew             *rpc.GroupList // as bob announced it last
	n                int
}

func (w *Crowd) me() [32]byte { return w.c.ID.Public.Identity }

func pid(p *Peer) [32]byte { return p.ID.Public.Identity }

// newCrowd brings everything up; settings are extra configuration lines.
func newCrowd(r *Report, nick string) (*Crowd, error) {
	w := &Crowd{r: r, s: newFSrv(r)}
	w.c = w.s.newClient(nick)
	w.c.MustStart()
	if w.s.Conn(20*time.Second) == nil {
		return nil, fmt.Errorf("the client does not connect: %s", trim(w.c.Console(), 300))
	}
	for _, p := range []struct {
		n string
		p **Peer
	}{{"bob", &w.bob}, {"carol", &w.carol}, {"dave", &w.dave}} {
		*p.p = w.s.newPeer(p.n, &w.c.ID.Public)
		if err := (*p.p).KX(); err != nil {
			return nil, fmt.Errorf("exchange with %s: %v", p.n, err)
		}
	}
	if err := w.makeMine("mine", w.bob); err != nil {
		return nil, err
	}
	g, err := w.joinCrew("crew", w.bob, w.carol)
	w.crew = g
	return w, err
}

// makeMine makes the client create a group and admits the peers.
func (w *Crowd) makeMine(name string, ps ...*Peer) error {
	if !w.c.Type("/gc new " + name) {
		return fmt.Errorf("/gc new is not taken")
	}
	for i, p := range ps {
		if err := w.admit(name, p); err != nil {
			return err
		}
		if !w.c.wait(10*time.Second, func() bool {
			g, ok := w.c.Group(name)
			return ok && len(g.Members) == i+2
		}) {
			return fmt.Errorf("%s does not get into %s", p.ID.Public.Nick, name)
		}
	}
	return nil
}

// invite has the client invite a peer and returns the invitation it got.
func (w *Crowd) invite(name string, p *Peer) (*rpc.GroupInvite, error) {
	had := len(takeAll[rpc.GroupInvite](p, rpc.CRPCCmdGroupInvite))
	if !w.c.Type("/gc invite " + name + " " + p.ID.Public.Nick) {
		return nil, fmt.Errorf("/gc invite is not taken")
	}
	if !p.await(10*time.Second, func() bool { return countCmd(p, rpc.CRPCCmdGroupInvite) > had }) {
		return nil, fmt.Errorf("no invitation arrives")
	}
	gi := takeAll[rpc.GroupInvite](p, rpc.CRPCCmdGroupInvite)[had]
	return &gi, nil
}

func (w *Crowd) admit(name string, p *Peer) error {
	gi, err := w.invite(name, p)
	if err != nil {
		return err
	}
	return p.Send(rpc.GroupJoin{Name: name, Token: gi.Token})
}

// countCmd counts received messages; the mutex of p is held.
func countCmd(p *Peer, cmd string) int {
	n := 0
	for _, g := range p.got {
		if g.Cmd == cmd {
			n++
		}
	}
	return n
}

// joinCrew makes the client join a group of admin's with more members.
func (w *Crowd) joinCrew(name string, admin *Peer, more ...*Peer) (*rpc.GroupList, error) {
	h := sha256.Sum256([]byte(name))
	tok := 1000 + uint64(h[0])
	if err := admin.Send(rpc.GroupInvite{Name: name, Members: []string{admin.ID.Public.Nick}, Token: tok,
		Description: "come", Expires: time.Now().Add(time.Hour).Unix()}); err != nil {
		return nil, err
	}
	joins := len(takeAll[rpc.GroupJoin](admin, rpc.CRPCCmdGroupJoin))
	if !w.c.Type(fmt.Sprintf("/gc join %s %d", name, tok)) {
		return nil, fmt.Errorf("/gc join is not taken")
	}
	if !admin.await(10*time.Second, func() bool { return countCmd(admin, rpc.CRPCCmdGroupJoin) > joins }) {
		return nil, fmt.Errorf("the client does not join %s: %s", name, lastLines(w.c.Console(), 3))
	}
	g := &rpc.GroupList{Name: name, Generation: 1, Timestamp: time.Now().Unix(), Members: [][32]byte{pid(admin), w.me()}}
	for _, p := range more {
		g.Members = append(g.Members, pid(p))
	}
	if err := admin.Send(*g); err != nil {
		return nil, err
	}
	if d, ok := w.c.Group(name); !ok || len(d.Members) != len(g.Members) {
		return nil, fmt.Errorf("the client does not follow its administrator's list of %s", name)
	}
	return g, nil
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}

// probe checks that the client serves: a message of dave's is shown and, when
// type is set, a command is taken and its message reaches dave.
func (w *Crowd) probe(typed bool) error {
	w.n++
	t := fmt.Sprintf("probe-%d-", w.n)
	if !w.c.Alive() {
		return fmt.Errorf("the client died: %s", w.c.Death())
	}
	if w.s.Conn(0) == nil {
		// a connection the server spoiled may end; the user can go online
		w.c.wait(2*time.Second, func() bool { return w.s.Conn(0) != nil })
		if w.s.Conn(0) == nil {
			if !w.c.Type("/online") {
				return fmt.Errorf("the client takes no command after the connection ended %s", w.dead())
			}
			if w.s.Conn(20*time.Second) == nil {
				return fmt.Errorf("the client does not come online again %s", w.dead())
			}
		}
		w.r.Count("reconnects", 1)
	}
	if err := w.dave.Send(rpc.PrivateMessage{Text: t}); err != nil {
		return fmt.Errorf("a later message is not handled: %v %s", err, w.dead())
	}
	if !w.c.wait(20*time.Second, func() bool { return strings.Contains(w.c.Conv("dave", pid(w.dave)), t) }) {
		return fmt.Errorf("a later message is not shown %s", w.dead())
	}
	if typed {
		if !w.c.Type("/m dave re-" + t) {
			return fmt.Errorf("the client takes no command %s", w.dead())
		}
		ok := w.dave.await(20*time.Second, func() bool {
			for _, g := range w.dave.got {
				if strings.Contains(string(g.Body), "re-"+t) {
					return true
				}
			}
			return false
		})
		if !ok {
			return fmt.Errorf("a later message is not sent %s", w.dead())
		}
	}
	return nil
}

func (w *Crowd) dead() string {
	if w.c.Alive() {
		return "(console: " + lastLines(w.c.Console(), 3) + ")"
	}
	return "(the client died: " + w.c.Death() + ")"
}
