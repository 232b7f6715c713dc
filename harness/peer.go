package main

import (
	"bytes"
	"compress/zlib"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Peer is another user as the client sees it: it speaks the client to client
// protocol through an FSrv, honestly or not.
type Peer struct {
	s    *FSrv
	ID   *zkidentity.FullIdentity
	them *zkidentity.PublicIdentity // the client

	mu     sync.Mutex
	cond   *sync.Cond
	r      *ratchet.Ratchet // full conversation
	half   *ratchet.Ratchet // exchange this peer started
	nk     *[32]byte        // key of that exchange
	sent   []byte           // half of the last exchange that was ours
	got    []gotMsg         // what the client sent, decoded
	resets int              // reset requests the client sent
	bad    []string         // what could not be understood
	mute   bool             // ignore exchanges the client starts
	pwkey  *[32]byte        // key shared through the rendezvous
	keep   bool             // remember all ciphertexts in wire
	wire   [][]byte
}

type gotMsg struct {
	Cmd  string
	Body []byte
}

func (s *FSrv) newPeer(nick string, them *zkidentity.PublicIdentity) *Peer {
	return s.addPeer(newID(nick), them)
}

func (s *FSrv) addPeer(id *zkidentity.FullIdentity, them *zkidentity.PublicIdentity) *Peer {
	p := &Peer{s: s, ID: id, them: them}
	p.cond = sync.NewCond(&p.mu)
	s.mu.Lock()
	s.peers[id.Public.Identity] = p
	s.mu.Unlock()
	return p
}

// exchange starts a key exchange the way a client in directory mode does.
// tweak changes the message before it is encrypted.
func (p *Peer) exchangePayload(tweak func(k *rpc.IdentityKX)) []byte {
	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &p.them.Key)
	must(err)
	r := rawRatchet(p.ID, p.them)
	r.TheirSigningPublic = nil
	var kx ratchet.KeyExchange
	must(r.FillKeyExchange(&kx))
	idkx := rpc.IdentityKX{Identity: p.ID.Public, KX: kx}
	if tweak != nil {
		tweak(&idkx)
	}
	p.mu.Lock()
	p.half, p.nk = r, nk
	p.sent = append([]byte{}, r.MyHalf[:]...)
	p.mu.Unlock()
	return append(nc[:], sealXDR(nk, idkx)...)
}

func sealXDR(k *[32]byte, v any) []byte {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, v)
	must(err)
	enc, nonce, err := blobshare.Encrypt(b.Bytes(), k)
	must(err)
	return blobshare.PackNonce(nonce, enc)
}

// KX completes a key exchange with the client in directory mode.
func (p *Peer) KX() error {
	if err := p.s.Push(p.ID.Public.Identity, p.exchangePayload(nil)); err != nil {
		return err
	}
	if !p.await(20*time.Second, func() bool { return p.r != nil }) {
		p.mu.Lock()
		defer p.mu.Unlock()
		return fmt.Errorf("the client does not complete the exchange (%v)", p.bad)
	}
	return nil
}

// await waits for a condition on the peer's state (mutex held in f).
func (p *Peer) await(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		p.mu.Lock()
		ok := f()
		p.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(4 * time.Millisecond)
	}
}

func (p *Peer) note(f string, a ...any) {
	p.bad = append(p.bad, fmt.Sprintf(f, a...))
}

// receive handles what the client sent to this peer.
func (p *Peer) receive(payload []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.r != nil {
		pt, err := p.r.Decrypt(payload)
		if err == nil {
			if p.keep {
				p.wire = append(p.wire, append([]byte{}, payload...))
			}
			p.decode(pt)
			return
		}
	}
	if p.half != nil {
		if n, e, err := blobshare.UnpackNonce(payload); err == nil {
			if pt, err := blobshare.Decrypt(p.nk, n, e); err == nil {
				var kx rpc.KX
				if _, err := xdr.Unmarshal(bytes.NewReader(pt), &kx); err != nil {
					p.note("answer to the exchange does not decode: %v", err)
					return
				}
				p.half.TheirSigningPublic = &p.them.SigKey
				if err := p.half.CompleteKeyExchange(&kx.KX, true); err != nil {
					p.note("exchange: %v", err)
					return
				}
				p.r, p.half = p.half, nil
				return
			}
		}
	}
	if p.mute {
		return
	}
	// an exchange the client starts: with our key, or with the shared one
	key, rest := p.pwkey, payload
	if len(payload) > sntrup4591761.CiphertextSize {
		var c [sntrup4591761.CiphertextSize]byte
		copy(c[:], payload)
		if k, ok := sntrup4591761.Decapsulate(&c, &p.ID.PrivateKey); ok == 1 {
			key, rest = k, payload[len(c):]
		}
	}
	if key == nil {
		p.note("%d bytes that do not decrypt", len(payload))
		return
	}
	n, e, err := blobshare.UnpackNonce(rest)
	if err != nil {
		p.note("short")
		return
	}
	pt, err := blobshare.Decrypt(key, n, e)
	if err != nil {
		p.note("%d bytes that do not decrypt", len(payload))
		return
	}
	var idkx rpc.IdentityKX
	if _, err := xdr.Unmarshal(bytes.NewReader(pt), &idkx); err != nil {
		p.note("exchange does not decode")
		return
	}
	if idkx.Identity.Identity != p.them.Identity || !idkx.Identity.Verify() {
		p.note("exchange names someone else")
		return
	}
	r := rawRatchet(p.ID, p.them)
	var kx ratchet.KeyExchange
	must(r.FillKeyExchange(&kx))
	sent := append([]byte{}, r.MyHalf[:]...)
	if err := r.CompleteKeyExchange(&idkx.KX, false); err != nil {
		p.note("exchange: %v", err)
		return
	}
	p.r, p.half = r, nil
	p.sent = sent
	ans := sealXDR(key, rpc.KX{KX: kx})
	go p.s.Push(p.ID.Public.Identity, ans)
}

func (p *Peer) proxied(payload []byte) {
	var c rpc.ProxyCmd
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, err := xdr.Unmarshal(bytes.NewReader(payload), &c); err != nil || c.Command != rpc.ProxyCmdResetRatchet {
		p.note("malformed proxy command")
		return
	}
	p.resets++
	// what a client does: forget the conversation, start a new exchange
	p.r = nil
	if p.mute {
		return
	}
	go func() {
		p.s.Push(p.ID.Public.Identity, p.exchangePayload(nil))
	}()
}

func (p *Peer) decode(pt []byte) {
	br := bytes.NewReader(pt)
	var c rpc.CRPC
	if _, err := xdr.Unmarshal(br, &c); err != nil {
		p.note("message without header")
		return
	}
	body := pt[len(pt)-br.Len():]
	if c.Compression == rpc.CRPCCompZLIB {
		z, err := zlib.NewReader(bytes.NewReader(body))
		if err != nil {
			p.note("bad compression")
			return
		}
		if body, err = io.ReadAll(z); err != nil {
			p.note("bad compression")
			return
		}
	} else if c.Compression != rpc.CRPCCompNone {
		p.note("compression %q", c.Compression)
		return
	}
	p.got = append(p.got, gotMsg{c.Command, body})
}

func crpcCmd(v any) string {
	switch v.(type) {
	case rpc.PrivateMessage:
		return rpc.CRPCCmdPrivateMessage
	case rpc.GroupInvite:
		return rpc.CRPCCmdGroupInvite
	case rpc.GroupJoin:
		return rpc.CRPCCmdGroupJoin
	case rpc.GroupList:
		return rpc.CRPCCmdGroupList
	case rpc.GroupUpdate:
		return rpc.CRPCCmdGroupUpdate
	case rpc.GroupMessage:
		return rpc.CRPCCmdGroupMessage
	case rpc.GroupPart:
		return rpc.CRPCCmdGroupPart
	case rpc.GroupKill:
		return rpc.CRPCCmdGroupKill
	case rpc.GroupKick:
		return rpc.CRPCCmdGroupKick
	case rpc.ChunkNew:
		return rpc.CRPCCmdChunkNew
	case rpc.Chunk:
		return rpc.CRPCCmdChunk
	case rpc.JanitorMessage:
		return rpc.CRPCCmdJanitorMessage
	}
	panic(fmt.Sprintf("%T", v))
}

func zbytes(b []byte) []byte {
	var o bytes.Buffer
	z := zlib.NewWriter(&o)
	z.Write(b)
	z.Close()
	return o.Bytes()
}

// crpc encodes a client to client message.
func crpc(cmd, comp string, body []byte) []byte {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, rpc.CRPC{Timestamp: time.Now().Unix(), Command: cmd, Compression: comp})
	must(err)
	b.Write(body)
	return b.Bytes()
}

var errNoRatchet = errors.New("no conversation")

// seal encrypts plaintext in the conversation.
func (p *Peer) seal(pt []byte) ([]byte, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.r == nil {
		return nil, errNoRatchet
	}
	ct, err := p.r.Encrypt(nil, pt)
	if p.keep && err == nil {
		p.wire = append(p.wire, append([]byte{}, ct...))
	}
	return ct, err
}

// Raw sends arbitrary plaintext through the conversation.
func (p *Peer) Raw(pt []byte) error {
	ct, err := p.seal(pt)
	if err != nil {
		return err
	}
	return p.s.Push(p.ID.Public.Identity, ct)
}

// Send sends a client to client message and waits for the acknowledge.
func (p *Peer) Send(v any) error {
	b := xdrBytes(v)
	if len(b) > 100 {
		return p.Raw(crpc(crpcCmd(v), rpc.CRPCCompZLIB, zbytes(b)))
	}
	return p.Raw(crpc(crpcCmd(v), rpc.CRPCCompNone, b))
}

// take returns the decoded messages of one kind that arrived so far.
func takeAll[T any](p *Peer, cmd string) []T {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []T
	for _, g := range p.got {
		if g.Cmd != cmd {
			continue
		}
		var v T
		if _, err := xdr.Unmarshal(bytes.NewReader(g.Body), &v); err != nil {
			p.note("malformed %s", cmd)
			continue
		}
		out = append(out, v)
	}
	return out
}

// texts are the private messages the client sent to this peer.
func (p *Peer) texts() []string {
	var o []string
	for _, m := range takeAll[rpc.PrivateMessage](p, rpc.CRPCCmdPrivateMessage) {
		o = append(o, m.Text)
	}
	return o
}
