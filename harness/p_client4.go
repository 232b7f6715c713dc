package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
)

// P27: key exchanges register exactly who took part in them.

type kxworld struct {
	r      *Report
	rng    *mrand.Rand
	s      *FSrv
	c      *Cli
	known  []*Peer // completed exchanges, in order
	called map[*Peer]string
	n      int
	lane   int
	old    [][]byte // messages of completed exchanges, with who sent them
	oldby  []*Peer
	failed bool
	last   string
}

func (k *kxworld) bad(sig, f string, a ...any) {
	k.failed = true
	k.r.Violate(sig, fmt.Sprintf("lane %d, %s: ", k.lane, k.last)+fmt.Sprintf(f, a...), map[string]any{"console": trim(lastLines(k.c.Console(), 12), 2000), "last": k.last, "screen": tailOf(k.c.Screen(), 3000)})
}

// tree summarises what the client has about others.
func (c *Cli) tree(dir string) string {
	var b strings.Builder
	root := c.path(dir)
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		x, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		fmt.Fprintf(&b, "%s %x\n", rel, sha256.Sum256(x))
		return nil
	})
	return b.String()
}

// established are the identities that the client has a conversation with.
func (c *Cli) established() map[string]string {
	m := map[string]string{}
	fs, _ := filepath.Glob(c.path("inbound", "*", "ratchet.xdr"))
	for _, f := range fs {
		d := filepath.Dir(f)
		nick, _ := os.ReadFile(filepath.Join(d, "nick"))
		m[filepath.Base(d)] = string(nick)
	}
	return m
}

func (k *kxworld) nickFor(nick string) string {
	taken := map[string]bool{k.c.Nick: true}
	for _, n := range k.called {
		taken[n] = true
	}
	for taken[nick] {
		nick += "_"
	}
	return nick
}

// done records a completed exchange and checks what it changed.
func (k *kxworld) done(p *Peer) {
	if _, ok := k.called[p]; !ok {
		k.known = append(k.known, p)
		k.called[p] = k.nickFor(p.ID.Public.Nick)
	}
	k.r.Count("completed", 1)
	k.check()
	if !k.failed {
		k.converse(p)
	}
}

// check compares the identities of the client with those of the model.
func (k *kxworld) check() {
	want := map[string]string{}
	for _, p := range k.known {
		id := pid(p)
		want[hex.EncodeToString(id[:])] = k.called[p]
	}
	var got map[string]string
	k.c.wait(5*time.Second, func() bool { got = k.c.established(); return fmt.Sprint(got) == fmt.Sprint(want) })
	if fmt.Sprint(got) != fmt.Sprint(want) {
		k.bad("wrong-identities", "the client has conversations with %v, exchanges were completed with %v", got, want)
	}
	for _, p := range k.known {
		id := pid(p)
		b, err := os.ReadFile(k.c.path("inbound", hex.EncodeToString(id[:]), "publicidentity.xdr"))
		if err != nil {
			k.bad("wrong-identities", "no identity of %s: %v", p.ID.Public.Nick, err)
			return
		}
		q, err := zkidentity.UnmarshalPublicIdentity(b)
		if err != nil || *q != p.ID.Public {
			k.bad("wrong-identities", "the identity of %s is not the one that was exchanged", p.ID.Public.Nick)
		}
	}
}

// converse checks that p and the client reach each other.
func (k *kxworld) converse(p *Peer) {
	k.n++
	t := fmt.Sprintf("hello-%d-%d-", k.lane, k.n)
	if err := p.Send(rpc.PrivateMessage{Text: t}); err != nil {
		k.bad("no-conversation", "%s cannot send to the client: %v", p.ID.Public.Nick, err)
		return
	}
	id := pid(p)
	if !k.c.wait(15*time.Second, func() bool {
		for f := range k.c.logsWith(t) {
			if strings.HasSuffix(f, "."+hex.EncodeToString(id[:])+".log") {
				return true
			}
		}
		return false
	}) {
		k.bad("no-conversation", "a message of %s is not shown (shown in %v)", p.ID.Public.Nick, keys(k.c.logsWith(t)))
		return
	}
	if !k.c.Type("/m " + k.called[p] + " re-" + t) {
		k.bad("no-conversation", "the client takes no command")
		return
	}
	if !p.await(15*time.Second, func() bool {
		for i := len(p.got) - 1; i >= 0; i-- {
			if strings.Contains(string(p.got[i].Body), "re-"+t) {
				return true
			}
		}
		return false
	}) {
		k.bad("no-conversation", "a message to %s does not arrive (%v)", k.called[p], p.bad)
	}
	k.r.Count("conversations", 1)
}

// ---- honest exchanges

func (k *kxworld) nick() string {
	k.n++
	switch k.rng.Intn(6) {
	case 0:
		if len(k.known) > 0 { // someone else has it
			return k.known[k.rng.Intn(len(k.known))].ID.Public.Nick
		}
	case 1:
		return k.c.Nick
	}
	return fmt.Sprintf("p%d", k.n)
}

func (k *kxworld) fresh() *Peer {
	k.n++
	return k.s.newPeer(fmt.Sprintf("p%d", k.n), &k.c.ID.Public)
}

func (k *kxworld) peerStarts() {
	p := k.s.newPeer(k.nick(), &k.c.ID.Public)
	k.last = "an exchange started by " + p.ID.Public.Nick
	m := p.exchangePayload(nil)
	if err := k.s.Push(pid(p), m); err != nil {
		k.bad("kx-fails", "the exchange is not acknowledged: %v", err)
		return
	}
	if !p.await(15*time.Second, func() bool { return p.r != nil }) {
		k.bad("kx-fails", "an honest exchange does not complete (%v)", p.bad)
		return
	}
	k.old, k.oldby = append(k.old, m), append(k.oldby, p)
	k.done(p)
}

// search makes the client look for p.
func (k *kxworld) search(p *Peer) bool {
	k.s.mu.Lock()
	k.s.listed[p.ID.Public.Nick] = p.ID.Public
	k.s.mu.Unlock()
	cmd := []string{"/find " + p.ID.Public.Nick, "/m " + p.ID.Public.Nick + " are you there"}[k.rng.Intn(2)]
	if !k.c.Type(cmd) {
		k.bad("dead", "the client takes no command")
		return false
	}
	return true
}

// sentTo is the last thing the client sent to p.
func (k *kxworld) sentTo(p *Peer) []byte {
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	for i := len(k.s.sent) - 1; i >= 0; i-- {
		if k.s.sent[i].To == pid(p) {
			return k.s.sent[i].Payload
		}
	}
	return nil
}

func (k *kxworld) clientStarts() {
	p := k.fresh()
	k.last = "an exchange with " + p.ID.Public.Nick + " that the client starts"
	if !k.search(p) {
		return
	}
	if !p.await(15*time.Second, func() bool { return p.r != nil }) {
		k.bad("kx-fails", "an honest exchange does not complete (%v)", p.bad)
		return
	}
	k.done(p)
}

// pending has the client start an exchange that is not answered yet.
func (k *kxworld) pending() (*Peer, bool) {
	p := k.fresh()
	p.mute = true
	k.last = "an exchange with " + p.ID.Public.Nick + " that the client starts"
	if !k.search(p) {
		return p, false
	}
	if !k.c.wait(15*time.Second, func() bool { return k.sentTo(p) != nil }) {
		k.bad("kx-fails", "the client does not start an exchange with whom it found")
		return p, false
	}
	return p, true
}

// answer completes a pending exchange of the client.
func (k *kxworld) answer(p *Peer) {
	p.mu.Lock()
	p.mute, p.bad = false, nil
	p.mu.Unlock()
	p.receive(k.sentTo(p))
	p.await(5*time.Second, func() bool { return p.r != nil })
	k.last = "answer of " + p.ID.Public.Nick + " after " + k.last
	id := pid(p)
	if !k.c.wait(15*time.Second, func() bool {
		_, ok := k.c.established()[hex.EncodeToString(id[:])]
		return ok
	}) {
		k.bad("kx-fails", "an exchange the client started does not complete when it is answered (%v)", p.bad)
		return
	}
	k.done(p)
}

// ---- hostile messages

// idkxFor is an exchange message to the client, changed by f.
func (k *kxworld) idkxFor(p *Peer, f func(x *rpc.IdentityKX)) []byte {
	b := p.exchangePayload(f)
	p.mu.Lock()
	p.half = nil
	p.mu.Unlock()
	return b
}

// resignAs signs a changed identity with the keys of id.
func resignAs(id *zkidentity.FullIdentity, f func(p *zkidentity.PublicIdentity)) zkidentity.PublicIdentity {
	p := id.Public
	f(&p)
	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	copy(p.Digest[:], d.Sum(nil))
	p.Signature = id.SignMessage(p.Digest[:])
	return p
}

type forgery struct {
	name    string
	from    *Peer
	payload []byte
}

func (k *kxworld) forgeries() []forgery {
	mal := k.fresh()
	other := newID(fmt.Sprintf("victim%d", k.n))
	var fs []forgery
	add := func(n string, from *Peer, b []byte) { fs = append(fs, forgery{n, from, b}) }
	with := func(n string, f func(x *rpc.IdentityKX)) { add(n, mal, k.idkxFor(mal, f)) }
	with("names a stranger", func(x *rpc.IdentityKX) { x.Identity = other.Public })
	with("names the client", func(x *rpc.IdentityKX) { x.Identity = k.c.ID.Public })
	with("nick changed", func(x *rpc.IdentityKX) { x.Identity.Nick = "admin" })
	with("name changed", func(x *rpc.IdentityKX) { x.Identity.Name = "admin" })
	with("signing key changed", func(x *rpc.IdentityKX) { x.Identity.SigKey = other.Public.SigKey })
	with("key changed", func(x *rpc.IdentityKX) { x.Identity.Key = other.Public.Key })
	with("signature changed", func(x *rpc.IdentityKX) { x.Identity.Signature[k.rng.Intn(64)] ^= 1 << k.rng.Intn(8) })
	with("identity changed", func(x *rpc.IdentityKX) { x.Identity.Identity[k.rng.Intn(32)] ^= 1 << k.rng.Intn(8) })
	with("another identity under own keys", func(x *rpc.IdentityKX) {
		x.Identity = resignAs(mal.ID, func(p *zkidentity.PublicIdentity) { p.Identity = other.Public.Identity })
	})
	with("own identity with foreign key", func(x *rpc.IdentityKX) {
		x.Identity = resignAs(mal.ID, func(p *zkidentity.PublicIdentity) { p.Key = other.Public.Key })
	})
	with("empty identity", func(x *rpc.IdentityKX) { x.Identity = zkidentity.PublicIdentity{} })
	with("no ratchet keys", func(x *rpc.IdentityKX) { x.KX.Public = nil })
	with("altered cipher", func(x *rpc.IdentityKX) { x.KX.Cipher[k.rng.Intn(len(x.KX.Cipher))] ^= 1 << k.rng.Intn(8) })
	with("altered ratchet key", func(x *rpc.IdentityKX) { x.KX.Public[k.rng.Intn(len(x.KX.Public))] ^= 1 << k.rng.Intn(8) })
	good := k.idkxFor(mal, nil)
	if len(k.known) > 0 {
		v := k.known[k.rng.Intn(len(k.known))]
		with("names someone known", func(x *rpc.IdentityKX) { x.Identity = v.ID.Public })
		add("comes from someone known", v, good)
		add("garbage from someone known", v, randBytes(k.rng, 1+k.rng.Intn(3000)))
	}
	flip := append([]byte{}, good...)
	flip[k.rng.Intn(len(flip))] ^= 1 << k.rng.Intn(8)
	add("altered", mal, flip)
	add("cut", mal, good[:k.rng.Intn(len(good))])
	add("garbage", mal, randBytes(k.rng, 1+k.rng.Intn(4000)))
	add("empty", mal, nil)
	var kk [32]byte
	rand.Read(kk[:])
	add("answer without exchange", mal, sealXDR(&kk, rpc.KX{}))
	if len(k.old) > 0 {
		i := k.rng.Intn(len(k.old))
		add("replayed", k.oldby[i], k.old[i])
		add("replayed by another", mal, k.old[i])
	}
	return fs
}

// harmless sends something that must change nothing about others.
func (k *kxworld) harmless(name string, f func() error) {
	if k.failed {
		return
	}
	k.last = name
	before := k.c.tree("inbound")
	if err := f(); err != nil {
		k.bad("not-handled", "it is not acknowledged: %v", err)
		return
	}
	if after := k.c.tree("inbound"); after != before {
		k.bad("forgery-changes", "it changes what the client knows of others:\n%s", diffLines(before, after))
	}
	k.r.Count("forgeries", 1)
	k.r.Case("forged: " + name)
}

func diffLines(a, b string) string {
	var o []string
	in := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		in[l] = true
	}
	for _, l := range strings.Split(b, "\n") {
		if !in[l] {
			o = append(o, "+ "+l)
		}
		delete(in, l)
	}
	for _, l := range keys(in) {
		o = append(o, "- "+l)
	}
	return trim(strings.Join(o, "\n"), 1500)
}

func (k *kxworld) forge(n int) {
	fs := k.forgeries()
	k.rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for i, f := range fs {
		if i >= n {
			break
		}
		k.harmless(f.name, func() error { return k.s.Push(pid(f.from), f.payload) })
	}
}

// forgeAnswers attacks an exchange that the client waits for p to answer.
func (k *kxworld) forgeAnswers(p *Peer) {
	msg := k.sentTo(p)
	mal := k.fresh()
	var key [32]byte
	// what p itself could get wrong needs the key of the exchange
	var c [sntrup4591761.CiphertextSize]byte
	if len(msg) > len(c) {
		copy(c[:], msg)
		if kk, ok := sntrup4591761.Decapsulate(&c, &p.ID.PrivateKey); ok == 1 {
			key = *kk
		}
	}
	var wrong [32]byte
	rand.Read(wrong[:])
	kx := rpc.KX{}
	kx.KX.Public = randBytes(k.rng, 104)
	copy(kx.KX.Cipher[:], randBytes(k.rng, len(kx.KX.Cipher)))
	atk := []forgery{
		{"answer with another key", p, sealXDR(&wrong, kx)},
		{"answer of another user", mal, sealXDR(&key, kx)},
		{"garbage answer", p, randBytes(k.rng, 1+k.rng.Intn(2000))},
		{"short answer", p, randBytes(k.rng, k.rng.Intn(30))},
		{"answer that makes no ratchet", p, sealXDR(&key, kx)},
		{"answer that is no answer", p, sealXDR(&key, "hello")},
		{"own exchange returned", p, msg},
		{"exchange of another in the name of whom is waited for", p, k.idkxFor(mal, nil)},
		{"exchange that names whom is waited for", mal, k.idkxFor(mal, func(x *rpc.IdentityKX) { x.Identity = p.ID.Public })},
		{"exchange with a bad signature of whom is waited for", p, k.idkxFor(p, func(x *rpc.IdentityKX) { x.Identity.Signature[3] ^= 4 })},
	}
	k.rng.Shuffle(len(atk), func(i, j int) { atk[i], atk[j] = atk[j], atk[i] })
	for _, f := range atk[:3+k.rng.Intn(len(atk)-3)] {
		k.harmless(f.name, func() error { return k.s.Push(pid(f.from), f.payload) })
	}
}

// badFind answers a search with something that was not searched.
func (k *kxworld) badFind() {
	p := k.fresh()
	other := newID(fmt.Sprintf("w%d", k.n))
	rp := rpc.IdentityFindReply{Nick: p.ID.Public.Nick, Identity: p.ID.Public}
	names := []string{"found someone else", "found another nick", "found a forged identity", "found with a changed nick", "found the client", "found nobody", "found a foreign key"}
	kind := k.rng.Intn(len(names))
	switch kind {
	case 0:
		rp.Identity = other.Public
	case 1:
		rp.Nick, rp.Identity = other.Public.Nick, other.Public
	case 2:
		rp.Identity.Signature[5] ^= 8
	case 3:
		rp.Identity = other.Public
		rp.Identity.Nick = p.ID.Public.Nick
	case 4:
		rp.Identity = k.c.ID.Public
	case 5:
		rp.Identity = zkidentity.PublicIdentity{}
	case 6:
		rp.Identity = resignAs(p.ID, func(x *zkidentity.PublicIdentity) { x.Key = other.Public.Key })
	}
	k.s.mu.Lock()
	n := len(k.s.sent)
	k.s.mu.Unlock()
	replied := make(chan bool, 1)
	k.s.mu.Lock()
	k.s.onOther = func(f *FConn, m rpc.Message, body []byte) bool {
		if m.Command != rpc.TaggedCmdIdentityFind {
			return false
		}
		f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdIdentityFindReply, Tag: m.Tag}, rp))
		replied <- true
		return true
	}
	k.s.mu.Unlock()
	k.harmless(names[kind], func() error {
		defer func() {
			k.s.mu.Lock()
			k.s.onOther = nil
			k.s.mu.Unlock()
		}()
		if !k.c.Type("/find " + p.ID.Public.Nick) {
			return fmt.Errorf("the client takes no command")
		}
		select {
		case <-replied:
		case <-time.After(15 * time.Second):
			return fmt.Errorf("the client does not search")
		}
		return k.barrier()
	})
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	for _, c := range k.s.sent[n:] {
		if c.To == other.Public.Identity || c.To == pid(p) || c.To == k.c.ID.Public.Identity {
			k.bad("exchanges-with-unsearched", "the client starts an exchange with an identity it did not search or that is not genuine")
			return
		}
	}
}

// barrier returns when the client has handled everything it was sent: its
// reader handles one message after the other.
func (k *kxworld) barrier() error {
	return k.s.Push(newID("nobody").Public.Identity, []byte("x"))
}

func (k *kxworld) restart() bool {
	k.last = "restart after " + k.last
	if k.rng.Intn(2) == 0 {
		k.c.Quit()
	}
	k.c.Kill()
	k.c.MustStart()
	if k.s.Conn(20*time.Second) == nil {
		k.bad("dead", "the client does not connect after a restart")
		return false
	}
	k.r.Count("restarts", 1)
	return true
}

func (k *kxworld) step() {
	switch k.rng.Intn(9) {
	case 0, 1:
		k.r.Case("peer starts")
		k.peerStarts()
	case 2:
		k.r.Case("client starts")
		k.clientStarts()
	case 3, 4:
		p, ok := k.pending()
		if !ok {
			return
		}
		k.forgeAnswers(p)
		if k.rng.Intn(3) == 0 && !k.failed {
			k.r.Case("restart before the answer")
			if !k.restart() {
				return
			}
		}
		if k.rng.Intn(3) == 0 && !k.failed {
			k.peerStarts()
		}
		if !k.failed {
			k.r.Case("late answer")
			k.answer(p)
		}
	case 5, 6:
		k.forge(8)
	case 7:
		k.badFind()
	case 8:
		if k.restart() {
			k.check()
		}
	}
	if k.failed {
		return
	}
	if !k.c.Alive() {
		k.bad("dead", "the client died: %s", k.c.Death())
		return
	}
	if len(k.known) > 0 && k.rng.Intn(2) == 0 {
		k.last = "conversation after " + k.last
		k.converse(k.known[k.rng.Intn(len(k.known))])
	}
}

func p27lane(r *Report, rng *mrand.Rand, lane, steps int) {
	k := &kxworld{r: r, rng: rng, s: newFSrv(r), lane: lane, called: map[*Peer]string{}}
	k.c = k.s.newClient("alice")
	k.c.MustStart()
	defer k.c.Kill()
	if k.s.Conn(20*time.Second) == nil {
		panic("the client does not connect")
	}
	for i := 0; i < steps && !k.failed && !r.Failed(); i++ {
		k.step()
	}
}

// ---- exchanges with a password

// window waits until the client draws one of some words. (It draws what
// changes, so that words may be incomplete.)
func (c *Cli) window(mark int, words ...string) bool {
	return c.wait(15*time.Second, func() bool {
		s := c.Screen()
		for _, w := range words {
			if len(s) >= mark && strings.Contains(s[mark:], w) {
				return true
			}
		}
		return false
	})
}

func (k *kxworld) pwPeerStarts(sharedWith *Peer) {
	pw := fmt.Sprintf("secret%d", k.rng.Intn(1e6))
	k.last = "a password exchange"
	k.s.mu.Lock()
	n := len(k.s.blobs)
	k.s.mu.Unlock()
	mark := len(k.c.Screen())
	k.c.Type("/kx")
	if !k.c.window(mark, "uploading", "derived", "readable", "counter", "identify") {
		k.bad("kx-window", "the exchange window does not open")
		return
	}
	k.c.Keys(pw + "\r")
	var blob []byte
	if !k.c.wait(15*time.Second, func() bool {
		k.s.mu.Lock()
		defer k.s.mu.Unlock()
		for i := n; i < n+1 && len(k.s.blobs) > n; i++ {
			blob = k.s.blobs[fmt.Sprintf("%d", 10000+i)]
		}
		return blob != nil
	}) {
		k.bad("kx-window", "the client uploads nothing")
		return
	}
	if !k.c.wait(10*time.Second, func() bool { return strings.Contains(k.c.Console(), fmt.Sprintf("PIN: %d", 10000+n)) }) {
		k.bad("kx-window", "the client does not show the PIN")
		return
	}
	salt, nonce, data, err := blobshare.UnpackSaltNonce(blob)
	if err != nil {
		k.bad("kx-blob", "the upload does not unpack: %v", err)
		return
	}
	open := func(w string) (*[32]byte, []byte, error) {
		kxMtx.Lock()
		defer kxMtx.Unlock()
		blobshare.SetNrp(32768, 16, 2)
		dk, err := blobshare.DeriveKey([]byte(w), salt)
		if err != nil {
			return nil, nil, err
		}
		pt, err := blobshare.Decrypt(dk, nonce, data)
		return dk, pt, err
	}
	if _, _, err := open(pw + "x"); err == nil {
		k.bad("kx-blob", "the upload opens with a wrong password")
		return
	}
	dk, pt, err := open(pw)
	if err != nil {
		k.bad("kx-blob", "the upload does not open with its password: %v", err)
		return
	}
	var id zkidentity.PublicIdentity
	if unxdr(pt, &id) != nil || id != k.c.ID.Public {
		k.bad("kx-blob", "the upload is not the identity of the client")
		return
	}
	mal := k.fresh()
	p := k.s.newPeer(k.nick(), &k.c.ID.Public)
	idkx := func(x *Peer, key *[32]byte, f func(x *rpc.IdentityKX)) []byte {
		r := rawRatchet(x.ID, x.them)
		var m rpc.IdentityKX
		m.Identity = x.ID.Public
		must(r.FillKeyExchange(&m.KX))
		if f != nil {
			f(&m)
		}
		x.mu.Lock()
		x.half, x.nk = r, key
		x.mu.Unlock()
		return sealXDR(key, m)
	}
	var rnd [32]byte
	rand.Read(rnd[:])
	for _, f := range []forgery{
		{"password exchange with another key", mal, idkx(mal, &rnd, nil)},
		{"password exchange that names someone else", mal, idkx(mal, dk, func(x *rpc.IdentityKX) { x.Identity = p.ID.Public })},
		{"password exchange with a changed nick", p, idkx(p, dk, func(x *rpc.IdentityKX) { x.Identity.Nick = "admin" })},
		{"password exchange sent by someone else", mal, idkx(p, dk, nil)},
		{"directory exchange without directory", mal, k.idkxFor(mal, nil)},
		{"garbage without directory", mal, randBytes(k.rng, 1+k.rng.Intn(500))},
	} {
		if k.rng.Intn(2) == 0 {
			k.harmless(f.name, func() error { return k.s.Push(pid(f.from), f.payload) })
		}
	}
	if k.failed {
		return
	}
	mal.mu.Lock()
	mal.half = nil
	mal.mu.Unlock()
	k.last = "a password exchange of " + p.ID.Public.Nick
	m := idkx(p, dk, nil)
	if err := k.s.Push(pid(p), m); err != nil {
		k.bad("kx-fails", "the exchange is not acknowledged: %v", err)
		return
	}
	if !p.await(15*time.Second, func() bool { return p.r != nil }) {
		k.bad("kx-fails", "an honest exchange does not complete (%v)", p.bad)
		return
	}
	k.r.Case("password, peer starts")
	k.done(p)
}

func (k *kxworld) pwClientStarts() {
	p := k.s.newPeer(k.nick(), &k.c.ID.Public)
	pw := fmt.Sprintf("secret%d", k.rng.Intn(1e6))
	id := p.ID.Public
	kind := k.rng.Intn(7)
	names := []string{"right", "right", "wrong password", "altered upload", "forged identity", "own identity", "refused"}
	k.last = "fetching an identity, " + names[kind]
	switch kind {
	case 4:
		id.Nick = "admin"
	case 5:
		id = k.c.ID.Public
	}
	kxMtx.Lock()
	blobshare.SetNrp(32768, 16, 2)
	dk, salt, err := blobshare.NewKey([]byte(pw))
	kxMtx.Unlock()
	must(err)
	enc, nonce, err := blobshare.Encrypt(xdrBytes(id), dk)
	must(err)
	blob := blobshare.PackSaltNonce(salt, nonce, enc)
	if kind == 3 {
		blob[k.rng.Intn(len(blob))] ^= 1 << k.rng.Intn(8)
	}
	p.pwkey = dk
	k.s.mu.Lock()
	tok := fmt.Sprintf("%d", 10000+len(k.s.blobs))
	k.s.blobs[tok] = blob
	nsent := len(k.s.sent)
	k.s.mu.Unlock()
	before := k.c.tree("inbound")
	mark := len(k.c.Screen())
	k.c.Type("/fetch " + tok)
	if !k.c.window(mark, "finalize", "Decrypt", "readable", "shared") {
		k.bad("kx-window", "the window for the password does not open")
		return
	}
	mark = len(k.c.Screen())
	if kind == 2 {
		k.c.Keys(pw + "x\r")
	} else {
		k.c.Keys(pw + "\r")
	}
	if kind >= 2 && kind <= 5 {
		// the reason is in the status line
		want := []string{"decrypt", "Could", "Invalid", "address"}[kind-2]
		if !k.c.window(mark, want) {
			k.bad("kx-window", "a bad identity is not refused: the window does not say %q", want)
			return
		}
		k.c.Keys("\x1b[21~")
		k.c.ready()
	} else {
		if !k.c.window(mark, "authenticity", "Fingerprint", "established", "connecting") {
			k.bad("kx-window", "the window with the fingerprint does not open")
			return
		}
		time.Sleep(50 * time.Millisecond)
		if kind == 6 {
			k.c.Keys("no\r")
			if !k.c.wait(10*time.Second, func() bool { return strings.Contains(k.c.Console(), "Rejected user Name of "+p.ID.Public.Nick) }) {
				k.bad("kx-window", "the refusal is not taken")
				return
			}
			k.c.ready()
		} else {
			k.c.Keys("yes\r")
			if !p.await(15*time.Second, func() bool { return p.r != nil }) {
				k.bad("kx-fails", "an honest exchange does not complete (%v)", p.bad)
				return
			}
			k.c.ready()
			k.r.Case("password, client starts")
			k.done(p)
			return
		}
	}
	if err := k.barrier(); err != nil {
		k.bad("dead", "%v", err)
		return
	}
	if after := k.c.tree("inbound"); after != before {
		k.bad("forgery-changes", "it changes what the client knows of others:\n%s", diffLines(before, after))
	}
	k.s.mu.Lock()
	if len(k.s.sent) != nsent {
		k.s.mu.Unlock()
		k.bad("exchanges-with-unsearched", "the client sends something after a refused identity")
		return
	}
	k.s.mu.Unlock()
	k.r.Count("forgeries", 1)
	k.r.Case("fetch: " + names[kind])
}

var kxMtx sync.Mutex

func p27pwlane(r *Report, rng *mrand.Rand, lane, steps int) {
	k := &kxworld{r: r, rng: rng, s: newFSrv(r), lane: lane, called: map[*Peer]string{}}
	k.s.dir = false
	k.c = k.s.newClient("alice")
	k.c.MustStart()
	defer k.c.Kill()
	if k.s.Conn(20*time.Second) == nil {
		panic("the client does not connect")
	}
	for i := 0; i < steps && !k.failed && !r.Failed(); i++ {
		switch k.rng.Intn(7) {
		case 0, 1, 2:
			k.pwPeerStarts(nil)
		case 3, 4, 5:
			k.pwClientStarts()
		case 6:
			if k.restart() {
				k.check()
			}
		}
		if !k.failed && len(k.known) > 0 {
			k.converse(k.known[k.rng.Intn(len(k.known))])
		}
	}
}

// ---- two real clients that start at once

func p27cross(r *Report, rng *mrand.Rand, lane, rounds int) {
	for i := 0; i < rounds && !r.Failed(); i++ {
		b := newBridge(r, "alice", "bob")
		if err := b.start(); err != nil {
			panic(err.Error())
		}
		x, y := b.nodes[0], b.nodes[1]
		kind := rng.Intn(4)
		held := kind < 3
		if held { // both start before either hears of the other
			b.Hold(x, true)
			b.Hold(y, true)
		}
		go x.c.Type("/find bob")
		if !held {
			time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
		}
		y.c.Type("/find alice")
		if held {
			if !waitFor(20*time.Second, func() bool { return b.waiting(x) > 0 && b.waiting(y) > 0 }) {
				r.Violate("kx-fails", "a client does not start an exchange with whom it searched", nil)
				return
			}
			// one side hears first
			first, second := x, y
			if rng.Intn(2) == 0 {
				first, second = y, x
			}
			b.Hold(first, false)
			time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond)
			b.Hold(second, false)
		}
		waitFor(30*time.Second, func() bool { return x.c.knows(y.c.me()) && y.c.knows(x.c.me()) })
		if !b.quiet(30 * time.Second) {
			r.Violate("kx-fails", "messages of an exchange are not acknowledged", nil)
			return
		}
		r.Case(fmt.Sprintf("both start, held %v", held))
		for j := 0; j < 2; j++ {
			for _, n := range b.nodes {
				o := b.nodes[0]
				if n == o {
					o = b.nodes[1]
				}
				t := fmt.Sprintf("cross-%d-%d-%d-%s", lane, i, j, n.c.Nick)
				n.c.Type("/m " + o.c.Nick + " " + t)
				if !o.c.wait(15*time.Second, func() bool { return len(o.c.logsWith(t)) == 1 }) {
					r.Violate("crossed-kx", fmt.Sprintf("both clients started a key exchange at once, a message of %s to %s is not shown afterwards: %s", n.c.Nick, o.c.Nick,
						lastLines(n.c.Console(), 4)), map[string]any{"alice": trim(lastLines(x.c.Console(), 15), 2000), "bob": trim(lastLines(y.c.Console(), 15), 2000)})
					return
				}
			}
		}
		r.Count("crossed", 1)
		x.c.Kill()
		y.c.Kill()
	}
}

func p27(r *Report) {
	r.Rule = "one case per kind of exchange or forgery"
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer harness(r)
			f()
		}()
	}
	for round := 0; round < r.pick(1, 6); round++ {
		for l := 0; l < 6; l++ {
			rng := mrand.New(mrand.NewSource(r.Seed*1000 + int64(round*10+l)))
			switch {
			case l < 4:
				run(func() { p27lane(r, rng, l, r.pick(22, 60)) })
			case l == 4:
				run(func() { p27pwlane(r, rng, l, r.pick(12, 40)) })
			default:
				run(func() { p27cross(r, rng, l, r.pick(6, 20)) })
			}
		}
		wg.Wait()
	}
	r.Need("completed", 15)
	r.Need("forgeries", 40)
	r.Need("crossed", 2)
}

func init() { register("P27", p27) }

var _ = bytes.Equal

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
