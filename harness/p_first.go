package main

import (
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// P36: whom a client trusts, from its first start on.

// newFresh is a client that was never started.
func newFresh(r *Report) *Cli {
	c := &Cli{r: r, Root: tempDir("cli"), cols: 200, rows: 40}
	must(os.Chmod(c.Root, 0700))
	onCleanup(func() { c.Kill() })
	return c
}

func (c *Cli) StartFresh() bool {
	must(c.Start())
	return c.wait(30*time.Second, func() bool { return c.Shows("Token is provided by the server") })
}

// on moves to a field of the form of the first start.
func (c *Cli) on(field string) bool {
	for i := 0; i < 12; i++ {
		if c.wait(time.Second, func() bool {
			t := newTerm(c.rows, c.cols)
			t.write(c.Screen())
			return strings.HasPrefix(strings.TrimSpace(string(t.cell[t.y])), field)
		}) {
			return true
		}
		c.Keys("\t")
	}
	return false
}

// fill types the form of the first start and ends at the last field.
func (c *Cli) fill(name, nick, server, token string) bool {
	for _, f := range [][2]string{{"Name:", name}, {"Nick:", nick}, {"Server:", server}, {"Token:", token}} {
		for i := 0; ; i++ {
			if i == 5 || !c.on(f[0]) {
				return false
			}
			c.Keys("\x15" + f[1])
			if c.wait(5*time.Second, func() bool {
				for _, l := range c.Shown() {
					if l = strings.TrimSpace(l); strings.HasPrefix(l, f[0]) {
						return strings.TrimSpace(strings.TrimPrefix(l, f[0])) == strings.TrimSpace(f[1])
					}
				}
				return false
			}) {
				break
			}
		}
		if f[0] != "Token:" {
			c.Keys("\t")
		}
	}
	return true
}

// door is what a server does with a client that has no session yet.
type door struct {
	mu      sync.Mutex
	s       *FSrv
	shown   *zkidentity.PublicIdentity // presented instead of the own one
	err     string                     // answer to account creations
	cut     string                     // where to hang up
	hang    bool                       // or to fall silent
	seen    []string
	made    []rpc.CreateAccount
	oked    int
	sessCmd int
	kx      [][32]byte
}

func newDoor(r *Report) *door {
	d := &door{s: newFSrv(r)}
	d.s.first = d.first
	d.s.welcome = d.welcome
	return d
}

func (d *door) stop(where string) bool {
	d.mu.Lock()
	cut, hang := d.cut, d.hang
	d.mu.Unlock()
	if cut != where {
		return false
	}
	if hang {
		time.Sleep(50 * time.Second)
	}
	return true
}

func (d *door) first(c net.Conn, mode string) bool {
	c.SetDeadline(time.Now().Add(150 * time.Second))
	d.mu.Lock()
	d.seen = append(d.seen, mode)
	shown, e := d.shown, d.err
	d.mu.Unlock()
	switch mode {
	case rpc.InitialCmdIdentify:
		if d.stop("identify") {
			return false
		}
		if shown == nil {
			shown = &d.s.ID.Public
		}
		xdr.Marshal(c, *shown)
		return !d.stop("shown")
	case rpc.InitialCmdCreateAccount:
		var ca rpc.CreateAccount
		if _, err := xdr.Unmarshal(c, &ca); err != nil {
			return false
		}
		d.mu.Lock()
		d.made = append(d.made, ca)
		d.mu.Unlock()
		if d.stop("create") {
			return false
		}
		if e == "" {
			d.mu.Lock()
			d.oked++
			d.mu.Unlock()
		}
		xdr.Marshal(c, rpc.CreateAccountReply{Error: e})
		return !d.stop("created")
	case rpc.InitialCmdSession:
		d.mu.Lock()
		d.sessCmd++
		d.mu.Unlock()
		return !d.stop("session")
	}
	d.s.r.Violate("client-unknown-command", fmt.Sprintf("the client sent %q before a session", mode), nil)
	return false
}

func (d *door) welcome(kx *session.KX) bool {
	if id, ok := kx.TheirIdentity().([32]byte); ok {
		d.mu.Lock()
		d.kx = append(d.kx, id)
		d.mu.Unlock()
	}
	if d.stop("welcome") {
		return false
	}
	d.s.mu.Lock()
	props := d.s.properties()
	d.s.mu.Unlock()
	return kx.Write(encMsg(rpc.Message{Command: rpc.SessionCmdWelcome, TimeStamp: time.Now().Unix()},
		rpc.Welcome{Version: d.s.version, ServerTime: time.Now().Unix(), Properties: props})) == nil
}

func (d *door) snap() (seen []string, made []rpc.CreateAccount, oked int, kx [][32]byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]string{}, d.seen...), append([]rpc.CreateAccount{}, d.made...), d.oked, append([][32]byte{}, d.kx...)
}

func (d *door) set(f func()) { d.mu.Lock(); f(); d.mu.Unlock() }

func (d *door) creates() int { _, m, _, _ := d.snap(); return len(m) }

var hex64 = regexp.MustCompile(`[0-9a-f]{64}`)

type firstWorld struct {
	r    *Report
	rng  *mrand.Rand
	d    *door
	c    *Cli
	what string
	hist []string
}

func (w *firstWorld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *firstWorld) bad(sig, f string, a ...any) {
	seen, _, _, _ := w.d.snap()
	w.r.Violate(sig, fmt.Sprintf("%s: %s (%s; the server saw %v)", w.what, fmt.Sprintf(f, a...), strings.Join(w.hist, "; "), seen),
		map[string]any{"history": w.hist, "screen": w.c.Shown(), "console": trim(lastLines(w.c.Console(), 30), 3000), "server saw": seen})
}

func (w *firstWorld) odd(f string, a ...any) {
	w.r.Inconclusive("%s: %s (%s; screen %s)", w.what, fmt.Sprintf(f, a...), strings.Join(w.hist, "; "), trim(strings.Join(w.c.Shown(), "|"), 600))
}

func (w *firstWorld) hasRecord() bool {
	_, err := os.Stat(w.c.path("myserver", "myserver.ini"))
	return err == nil
}

// asked waits for the question whether the server is the right one.
func (w *firstWorld) asked() bool {
	return w.c.wait(25*time.Second, func() bool { return w.c.Shows("Are you sure you want to continue") })
}

func (w *firstWorld) connected() bool {
	return strings.Contains(w.c.Console(), "Connected to server: "+w.d.s.Addr)
}

// fingerprints are the ones in the question.
func (w *firstWorld) fingerprints() (outer, inner string) {
	for _, l := range w.c.Shown() {
		if strings.Contains(l, "Outer server fingerprint") {
			outer = hex64.FindString(l)
		}
		if strings.Contains(l, "Inner server fingerprint") {
			inner = hex64.FindString(l)
		}
	}
	return
}

func newFirst(r *Report, rng *mrand.Rand, what string) *firstWorld {
	w := &firstWorld{r: r, rng: rng, d: newDoor(r), c: newFresh(r), what: what}
	w.c.addr = w.d.s.Addr
	return w
}

var firstNames = []string{"Alice", "Alice B. Carol", "x", "Ünïcode Näme", "a-long-name-" + strings.Repeat("y", 60), "O'Neil \"Q\"", "semi;colon=1 #x"}
var firstNicks = []string{"alice", "al.ice", "ALICE", "ali ce", "élise", "n" + strings.Repeat("0", 40)}
var firstTokens = []string{"", "1234567890123456", "1234 5678 9012 3456", " 12 ", "tok-en"}

// enrol goes through the first start up to "yes" and checks what is asked and
// sent on the way.
func (w *firstWorld) enrol(no bool) bool {
	name, nick, token := firstNames[w.rng.Intn(len(firstNames))], firstNicks[w.rng.Intn(len(firstNicks))], firstTokens[w.rng.Intn(len(firstTokens))]
	if !w.c.StartFresh() {
		w.odd("no form on the first start: %s", w.c.Death())
		return false
	}
	if w.rng.Intn(2) == 0 { // something is missing
		f := []string{name, nick, w.d.s.Addr}
		had, _, _, _ := w.d.snap()
		f[w.rng.Intn(3)] = ""
		if !w.c.fill(f[0], f[1], f[2], token) {
			w.odd("cannot fill the form")
			return false
		}
		w.c.Keys("\r")
		if !w.c.wait(10*time.Second, func() bool { return w.c.Shows("required fields") }) {
			w.odd("a form without %q was taken", f)
			return false
		}
		if seen, _, _, _ := w.d.snap(); len(seen) > len(had) {
			w.bad("incomplete-sent", "the client talked to a server with an incomplete form")
			return false
		}
		w.r.Count("incomplete_forms", 1)
	}
	nos := 0
	if no {
		nos = 4
	} else if w.rng.Intn(2) == 0 {
		nos = 1 + w.rng.Intn(2)
	}
	w.note("name %q nick %q token %q", name, nick, token)
	if !w.c.fill(name, nick, w.d.s.Addr, token) {
		w.odd("cannot fill the form")
		return false
	}
	w.c.Keys("\r")
	if !w.asked() {
		w.odd("the client does not ask whether the server is right")
		return false
	}
	for {
		outer, inner := w.fingerprints()
		sum := sha256.Sum256(w.d.s.Cert)
		key := sha256.Sum256(w.d.s.ID.Public.Key[:])
		if outer != hex.EncodeToString(sum[:]) || inner != hex.EncodeToString(key[:]) {
			w.bad("shown-fingerprint", "the user is shown the fingerprints %s and %s, the server's are %x and %x", outer, inner, sum, key)
			return false
		}
		w.r.Count("fingerprints_compared", 2)
		time.Sleep(time.Duration(w.rng.Intn(300)) * time.Millisecond)
		if n := w.d.creates(); n > 0 || w.hasRecord() {
			w.bad("unasked", "the account was created before the user accepted the server")
			return false
		}
		if seen, _, _, _ := w.d.snap(); len(seen) > 0 && seen[len(seen)-1] != rpc.InitialCmdIdentify {
			w.bad("unasked", "the client sends %q before the user accepted the server", seen[len(seen)-1])
			return false
		}
		if nos == 0 {
			break
		}
		nos--
		w.note("no")
		w.c.Keys([]string{"no\r", "\r", "ye\r", "yes please\r", "n\r", "y\r"}[w.rng.Intn(6)])
		form := w.c.wait(10*time.Second, func() bool { return w.c.Shows("Token is provided by the server") || w.d.creates() > 0 })
		time.Sleep(200 * time.Millisecond)
		if n := w.d.creates(); n > 0 || w.hasRecord() {
			w.bad("unasked", "the account was created although the user did not accept the server")
			return false
		}
		if !form {
			w.odd("no form after no")
			return false
		}
		w.r.Count("servers_refused_by_user", 1)
		w.c.Keys("\r") // again, the fields are kept
		if !w.asked() {
			w.odd("the client does not ask again")
			return false
		}
	}
	w.note("yes")
	w.c.Keys([]string{"yes\r", "YES\r", "Yes\r"}[w.rng.Intn(3)])
	if !w.c.wait(20*time.Second, func() bool { return w.d.creates() > 0 }) {
		w.odd("no account is created after yes")
		return false
	}
	_, made, _, _ := w.d.snap()
	ca := made[0]
	if ca.PublicIdentity.Name != name || ca.PublicIdentity.Nick != nick || ca.Token != strings.ReplaceAll(token, " ", "") || !ca.PublicIdentity.Verify() {
		w.bad("wrong-account", "asked for name %q nick %q token %q, the client sent %q %q %q (genuine %v)", name, nick, token,
			ca.PublicIdentity.Name, ca.PublicIdentity.Nick, ca.Token, ca.PublicIdentity.Verify())
		return false
	}
	w.r.Count("accounts_requested", 1)
	return true
}

// comesBack starts the client again: it has its account and its server.
func (w *firstWorld) comesBack(id [32]byte) bool {
	_, _, _, before := w.d.snap()
	seen0 := len(func() []string { s, _, _, _ := w.d.snap(); return s }())
	must(w.c.Start())
	if !w.c.wait(30*time.Second, func() bool { _, _, _, k := w.d.snap(); return len(k) > len(before) }) {
		if w.c.Shows("first time") {
			w.bad("account-lost", "the server has confirmed the account, but the client that is started again knows nothing of it")
		} else {
			w.bad("account-unusable", "the client that is started again does not connect: %s", trim(lastLines(w.c.Console(), 4), 300))
		}
		return false
	}
	seen, _, _, kx := w.d.snap()
	if kx[len(kx)-1] != id {
		w.bad("identity-changed", "the client comes back as %x, its account is %x", kx[len(kx)-1][:6], id[:6])
		return false
	}
	for _, m := range seen[seen0:] {
		if m != rpc.InitialCmdSession {
			w.bad("asked-again", "a client with an account sent %q", m)
			return false
		}
	}
	w.r.Count("comebacks", 1)
	w.c.Quit()
	return true
}

func firstHonest(r *Report, rng *mrand.Rand, i int) {
	w := newFirst(r, rng, "honest server")
	defer w.c.Kill()
	if !w.enrol(i%2 == 1) {
		return
	}
	if !w.c.wait(30*time.Second, w.connected) {
		w.bad("no-session", "the account was created, but the client does not go online: %s", trim(strings.Join(w.c.Shown(), "|"), 300))
		return
	}
	_, made, _, kx := w.d.snap()
	id := made[0].PublicIdentity.Identity
	if len(kx) == 0 || kx[0] != id {
		w.bad("identity-changed", "the session is not the one of the account")
		return
	}
	if i%3 == 0 {
		w.note("quit")
		w.c.Quit()
	} else {
		w.note("killed")
		w.c.Kill()
	}
	w.comesBack(id)
	r.Case("honest")
	r.Sample(map[string]any{"first start": w.hist})
}

// firstImpostor is a server that pretends to be another.
func firstImpostor(r *Report, rng *mrand.Rand, kind string) {
	w := newFirst(r, rng, "impostor: "+kind)
	defer w.c.Kill()
	victim, own := newID("victim"), w.d.s.ID
	p := own.Public
	switch kind {
	case "identity of another, own keys":
		p.Identity = victim.Public.Identity
	case "all of another, own session key":
		p = victim.Public
		p.Key = own.Public.Key
	case "identity of another, signed":
		p.Identity = victim.Public.Identity
		f := *own
		f.Public = p
		f.RecalculateDigest()
		p = f.Public
	case "changed name":
		p.Name = "Another"
	case "no signature":
		p.Signature = [64]byte{}
	case "complete copy of another":
		p = victim.Public
	}
	w.d.shown = &p
	if !w.c.StartFresh() {
		w.odd("no form on the first start: %s", w.c.Death())
		return
	}
	if !w.c.fill("Mallory's victim", "v", w.d.s.Addr, "4444333322221111") {
		w.odd("cannot fill the form")
		return
	}
	w.c.Keys("\r")
	if !w.c.wait(20*time.Second, func() bool {
		s, _, _, _ := w.d.snap()
		return len(s) > 0
	}) {
		w.odd("no connection")
		return
	}
	inner := ""
	if w.c.wait(3*time.Second, func() bool { return w.c.Shows("Are you sure you want to continue") }) {
		_, inner = w.fingerprints()
		w.c.Keys("yes\r")
		w.note("the user is shown %s and accepts", inner)
		time.Sleep(1500 * time.Millisecond)
	}
	_, made, _, kx := w.d.snap()
	key := sha256.Sum256(own.Public.Key[:])
	switch {
	case w.connected() || len(kx) > 0:
		w.bad("impostor", "the client has a session with a server whose key has the fingerprint %x, the user was shown %s", key, inner)
	case kind == "complete copy of another":
		// it has no secret of the victim, the user accepted its
		// certificate: no session, that is all
	case len(made) > 0:
		w.bad("impostor-trusted", "the client creates an account (token %q) with a server whose identity is not genuine; the user was shown %s, the server's key has %x",
			made[0].Token, inner, key)
	}
	r.Count("impostors", 1)
	r.Case("impostor " + kind)
}

// firstCut loses the connection at a point of the first start.
func firstCut(r *Report, rng *mrand.Rand, where string, hang bool) {
	w := newFirst(r, rng, "connection lost at "+where)
	if hang {
		w.what = "server silent at " + where
	}
	defer w.c.Kill()
	w.d.cut, w.d.hang = where, hang
	early := where == "identify" || where == "shown"
	if early {
		if !w.c.StartFresh() {
			w.odd("no form on the first start: %s", w.c.Death())
			return
		}
		if !w.c.fill("N", "n", w.d.s.Addr, "1") {
			w.odd("cannot fill the form")
			return
		}
		w.c.Keys("\r")
		if where == "shown" {
			if w.asked() {
				w.c.Keys("yes\r")
			}
		}
	} else if !w.enrol(false) {
		return
	}
	if hang {
		time.Sleep(time.Second)
		// the user can leave
		w.c.Keys("\x11")
		if !w.c.wait(45*time.Second, func() bool { return !w.c.Alive() }) {
			w.bad("stuck", "the client takes no keys for 45 s since the server is silent")
			return
		}
		r.Count("silent_servers_left", 1)
	} else {
		time.Sleep(time.Duration(300+rng.Intn(500)) * time.Millisecond)
		if !w.c.Alive() {
			w.bad("died", "the client ended by itself: %s", w.c.Death())
			return
		}
		w.c.Kill()
	}
	w.d.set(func() { w.d.cut = "" })
	_, made, oked, _ := w.d.snap()
	r.Count("cut_first_starts", 1)
	r.Case("cut " + where + fmt.Sprint(hang))
	if oked > 0 && where != "create" {
		w.comesBack(made[len(made)-1].PublicIdentity.Identity)
		return
	}
	if w.hasRecord() {
		w.bad("phantom-account", "no server has confirmed an account, but the client has one")
		return
	}
	// and now it works
	w.d.set(func() { w.d.made = nil })
	w.note("again")
	if !w.enrol(false) {
		return
	}
	if !w.c.wait(30*time.Second, w.connected) {
		w.bad("no-session", "the account was created, but the client does not go online: %s", trim(strings.Join(w.c.Shown(), "|"), 300))
		return
	}
	w.c.Kill()
	_, made, _, _ = w.d.snap()
	w.comesBack(made[0].PublicIdentity.Identity)
}

// firstDenied has the account refused first.
func firstDenied(r *Report, rng *mrand.Rand) {
	w := newFirst(r, rng, "account refused")
	defer w.c.Kill()
	w.d.err = "account creation disallowed"
	if !w.enrol(false) {
		return
	}
	if !w.c.wait(10*time.Second, func() bool { return w.c.Shows("account creation disallowed") }) {
		w.odd("the refusal is not shown")
		return
	}
	if w.hasRecord() || w.connected() {
		w.bad("phantom-account", "the server refused, but the client has an account")
		return
	}
	w.d.set(func() { w.d.err = "" })
	w.note("once more")
	w.c.Keys("\x15no\r")
	w.c.wait(10*time.Second, func() bool { return w.c.Shows("Token is provided by the server") })
	w.c.Keys("\r")
	if !w.asked() {
		w.odd("the client does not ask again")
		return
	}
	w.c.Keys("\x15yes\r")
	if !w.c.wait(20*time.Second, func() bool { return w.d.creates() > 1 && w.connected() }) {
		w.bad("no-session", "the account was created, but the client does not go online: %s", trim(strings.Join(w.c.Shown(), "|"), 300))
		return
	}
	w.c.Kill()
	_, made, _, _ := w.d.snap()
	w.comesBack(made[1].PublicIdentity.Identity)
	r.Count("refused_accounts", 1)
	r.Case("denied")
}

// pins: a client with an account meets other servers at the address.
func pins(r *Report, rng *mrand.Rand, i int) {
	w := &firstWorld{r: r, rng: rng, d: newDoor(r), what: "known server"}
	s := w.d.s
	w.c = s.newClient("pin")
	defer w.c.Kill()
	id := w.c.ID.Public.Identity
	sessions := func() int { _, _, _, k := w.d.snap(); return len(k) }
	cmds := func() int { s, _, _, _ := w.d.snap(); return len(s) }
	newcert := func() string {
		tc, der := selfCert()
		s.mu.Lock()
		s.tc, s.Cert = tc, der
		s.mu.Unlock()
		sum := sha256.Sum256(der)
		return hex.EncodeToString(sum[:])
	}
	restart := func() {
		if w.c.Alive() {
			if rng.Intn(2) == 0 {
				w.c.Quit()
			} else {
				w.c.Kill()
			}
		}
		must(w.c.Start())
		w.c.ready()
	}
	mark := 0
	said := func() string { return w.c.Console()[mark:] }
	restart()
	if !w.c.wait(20*time.Second, func() bool { return sessions() == 1 }) {
		w.odd("no session to begin with")
		return
	}
	genuine := s.ID
	trusted := func() tls.Certificate { s.mu.Lock(); defer s.mu.Unlock(); return s.tc }()
	for n := 0; n < 5+rng.Intn(3); n++ {
		mark = len(w.c.Console())
		had, cmd := sessions(), cmds()
		again := func() {
			if rng.Intn(2) == 0 {
				restart()
			} else {
				s.Drop()
				w.c.wait(10*time.Second, func() bool { return strings.Contains(said(), "isconnected") || strings.Contains(said(), "losed") })
				for k := 0; k < 3; k++ {
					w.c.Type("/online")
					if w.c.wait(4*time.Second, func() bool {
						return cmds() > cmd || strings.Contains(said(), "certificate changed") || strings.Contains(said(), "ould not connect")
					}) {
						break
					}
				}
			}
		}
		switch k := rng.Intn(3); k {
		case 0: // another certificate, same identity: ask
			fp := newcert()
			w.note("other certificate")
			again()
			if !w.c.wait(20*time.Second, func() bool { return strings.Contains(said(), "certificate changed") || cmds() > cmd }) {
				w.odd("the changed certificate is not noticed")
				return
			}
			time.Sleep(200 * time.Millisecond)
			if cmds() > cmd || sessions() > had {
				w.bad("other-certificate", "the client talks to a server with another certificate")
				return
			}
			r.Count("certificates_changed", 1)
			if rng.Intn(2) == 0 { // and yet another
				fp = newcert()
				m := len(w.c.Console())
				w.c.Type("/online")
				w.c.wait(10*time.Second, func() bool { return strings.Contains(w.c.Console()[m:], "New fingerprint") })
			}
			if !w.c.wait(5*time.Second, func() bool {
				l := hex64.FindAllString(said(), -1)
				return len(l) > 0 && l[len(l)-1] == fp
			}) {
				w.bad("shown-fingerprint", "the server's new certificate has the fingerprint %s, the client says: %s", fp, trim(said(), 500))
				return
			}
			if rng.Intn(3) == 0 { // not accepted: another start asks again
				m := len(w.c.Console())
				restart()
				if !w.c.wait(20*time.Second, func() bool { return strings.Contains(w.c.Console()[m:], "certificate changed") || cmds() > cmd }) || cmds() > cmd {
					w.bad("other-certificate", "the client talks to a server whose new certificate nobody accepted, after a restart")
					return
				}
				// and the one it knows is still fine
				w.note("not accepted")
				s.mu.Lock()
				s.tc = trusted
				s.Cert = trusted.Certificate[0]
				s.mu.Unlock()
			} else {
				w.note("accepted")
				w.c.Type("/acceptnewcert")
				w.c.wait(5*time.Second, func() bool { return strings.Contains(said(), "certificate saved") })
				trusted = func() tls.Certificate { s.mu.Lock(); defer s.mu.Unlock(); return s.tc }()
				r.Count("certificates_accepted", 1)
			}
		case 1: // the certificate is right, the identity is not
			w.note("other identity")
			s.ID = newID("impostor")
			again()
			w.c.wait(10*time.Second, func() bool { return strings.Contains(said(), "ould not connect") })
			time.Sleep(200 * time.Millisecond)
			if sessions() > had {
				w.bad("impostor", "the client has a session with a server that does not have the key of the one it knows")
				return
			}
			r.Count("impostors", 1)
			s.ID = genuine
		case 2: // a chain
			w.note("chain")
			_, der := selfCert()
			s.mu.Lock()
			s.tc = tls.Certificate{Certificate: [][]byte{trusted.Certificate[0], der}, PrivateKey: trusted.PrivateKey}
			s.mu.Unlock()
			again()
			w.c.wait(10*time.Second, func() bool {
				return strings.Contains(said(), "ould not connect") || strings.Contains(said(), "onnected")
			})
			s.mu.Lock()
			s.tc = trusted
			s.mu.Unlock()
			r.Count("chains", 1)
		}
		// the server that is known and accepted is
		had = sessions()
		_, _, _, kx := w.d.snap()
		f := s.Conn(0)
		if f != nil && w.c.Alive() && rng.Intn(2) == 0 && len(kx) > 0 {
			// it never left, or came back by itself
		} else if rng.Intn(2) == 0 {
			restart()
			had = -1
		} else {
			w.c.Type("/online")
		}
		if !w.c.wait(30*time.Second, func() bool { return s.Conn(0) != nil && (had >= 0 || sessions() > 0) }) {
			w.c.Type("/online")
			if !w.c.wait(20*time.Second, func() bool { return s.Conn(0) != nil }) {
				w.bad("lost-server", "the client does not connect to the server it knows: %s", trim(lastLines(w.c.Console(), 5), 400))
				return
			}
		}
		_, made, _, kx := w.d.snap()
		if kx[len(kx)-1] != id {
			w.bad("identity-changed", "the client connects as another identity")
			return
		}
		if len(made) > 0 {
			w.bad("asked-again", "a client with an account asked for one")
			return
		}
		r.Case("pin round")
	}
	r.Count("pin_histories", 1)
	r.Sample(map[string]any{"known server": w.hist})
}

func p36(r *Report) {
	type job func(rng *mrand.Rand)
	var jobs []job
	for _, where := range []string{"identify", "shown", "create", "created", "session", "welcome"} {
		where := where
		jobs = append(jobs, func(rng *mrand.Rand) { firstCut(r, rng, where, true) })
		for k := 0; k < r.pick(1, 4); k++ {
			jobs = append(jobs, func(rng *mrand.Rand) { firstCut(r, rng, where, false) })
		}
	}
	for i := 0; i < r.pick(4, 20); i++ {
		i := i
		jobs = append(jobs, func(rng *mrand.Rand) { pins(r, rng, i) })
		jobs = append(jobs, func(rng *mrand.Rand) { firstHonest(r, rng, i) })
	}
	for k := 0; k < r.pick(1, 3); k++ {
		for _, kind := range []string{"identity of another, own keys", "all of another, own session key", "identity of another, signed", "changed name", "no signature", "complete copy of another"} {
			kind := kind
			jobs = append(jobs, func(rng *mrand.Rand) { firstImpostor(r, rng, kind) })
		}
		jobs = append(jobs, func(rng *mrand.Rand) { firstDenied(r, rng) })
	}
	parallel(len(jobs), 6, func(i int) {
		if !r.Failed() {
			jobs[i](sub(r.Seed, "P36", i))
		}
	})
	r.Need("accounts_requested", 10)
	r.Need("impostors", 6)
	r.Need("cut_first_starts", 10)
	r.Need("comebacks", 6)
	r.Need("certificates_changed", 2)
}

func init() { register("P36", p36) }
