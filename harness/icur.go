package main

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"fmt"
	"net"
	"time"

	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// The libraries of the tree under test behind an interface that only knows
// bytes. irel.go is made from this file by gen/irel.sh: the same on top of the
// released version.

func init() { implCur = cur{} }

type cur struct{}

func (cur) enc(v any) []byte {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, v)
	must(err)
	return b.Bytes()
}

func (cur) full(b []byte) *zkidentity.FullIdentity {
	f, err := zkidentity.UnmarshalFullIdentity(b)
	must(err)
	return f
}

func (cur) pub(b []byte) *zkidentity.PublicIdentity {
	f, err := zkidentity.UnmarshalPublicIdentity(b)
	must(err)
	return f
}

// identities

func (cur) NewID(name, nick string) (full, pub []byte) {
	f, err := zkidentity.New(name, nick)
	must(err)
	full, err = f.Marshal()
	must(err)
	pub, err = f.Public.Marshal()
	must(err)
	return
}

func (c cur) FullAgain(full []byte) []byte {
	b, err := c.full(full).Marshal()
	must(err)
	return b
}

func (c cur) PubAgain(pub []byte) []byte {
	b, err := c.pub(pub).Marshal()
	must(err)
	return b
}

func (c cur) Sign(full, msg []byte) []byte {
	s := c.full(full).SignMessage(msg)
	return s[:]
}

func (c cur) VerifySig(pub, msg, sig []byte) bool {
	var s [ed25519.SignatureSize]byte
	copy(s[:], sig)
	return c.pub(pub).VerifyMessage(msg, s)
}

func (cur) VerifyPub(pub []byte) bool {
	p, err := zkidentity.UnmarshalPublicIdentity(pub)
	return err == nil && p.Verify()
}

func (c cur) Names(pub []byte) string {
	p := c.pub(pub)
	back, err := zkidentity.String2ID(p.String())
	return fmt.Sprintf("%s %s %s %v %v", p.String(), p.Fingerprint(), zkidentity.Fingerprint(p.Identity), err, back != nil && *back == p.Identity)
}

// sessions

func (c cur) Session(conn net.Conn, full, serverPub []byte, max uint) (isession, error) {
	f := c.full(full)
	k := &session.KX{Conn: conn, MaxMessageSize: max, OurPrivateKey: &f.PrivateKey, OurPublicKey: &f.Public.Key}
	var err error
	if serverPub != nil {
		k.TheirPublicKey = &c.pub(serverPub).Key
		k.SetWriteDeadline(time.Now().Add(20 * time.Second))
		k.SetReadDeadline(time.Now().Add(20 * time.Second))
		err = k.Initiate()
	} else {
		k.SetWriteDeadline(time.Now().Add(20 * time.Second))
		k.SetReadDeadline(time.Now().Add(20 * time.Second))
		err = k.Respond()
	}
	if err != nil {
		return nil, err
	}
	return k, nil
}

func (c cur) Their(s isession) []byte {
	t, _ := s.(*session.KX).TheirIdentity().([32]byte)
	return t[:]
}

func (cur) SessionInit() { session.Init() }

// ratchets

type curRatchet struct {
	r *ratchet.Ratchet
}

func (c cur) setup(full, pub []byte) *ratchet.Ratchet {
	me, peer := c.full(full), c.pub(pub)
	r := ratchet.New(crand.Reader)
	r.MyPrivateKey = &me.PrivateKey
	r.MySigningPublic = &me.Public.SigKey
	r.TheirIdentityPublic = &peer.Identity
	r.TheirSigningPublic = &peer.SigKey
	r.TheirPublicKey = &peer.Key
	return r
}

func (c cur) Ratchet(full, peer []byte) iratchet { return &curRatchet{c.setup(full, peer)} }

// Restore makes a ratchet from a saved state.
func (c cur) Restore(full, peer, state []byte, now time.Time) (iratchet, error) {
	var s disk.RatchetState
	if n, err := xdr.Unmarshal(bytes.NewReader(state), &s); err != nil || n != len(state) {
		return nil, fmt.Errorf("state: %d of %d bytes: %v", n, len(state), err)
	}
	r := c.setup(full, peer)
	r.Now = func() time.Time { return now }
	if err := r.Unmarshal(&s); err != nil {
		return nil, err
	}
	return &curRatchet{r}, nil
}

func (r *curRatchet) Fill() ([]byte, error) {
	var k ratchet.KeyExchange
	if err := r.r.FillKeyExchange(&k); err != nil {
		return nil, err
	}
	return cur{}.enc(k), nil
}

func (r *curRatchet) Complete(kx []byte, alice bool) error {
	var k ratchet.KeyExchange
	if n, err := xdr.Unmarshal(bytes.NewReader(kx), &k); err != nil || n != len(kx) {
		return fmt.Errorf("exchange: %d of %d bytes: %v", n, len(kx), err)
	}
	return r.r.CompleteKeyExchange(&k, alice)
}

func (r *curRatchet) Seal(m []byte) ([]byte, error) { return r.r.Encrypt(nil, m) }
func (r *curRatchet) Open(m []byte) ([]byte, error) { return r.r.Decrypt(m) }
func (r *curRatchet) Save(now time.Time) []byte {
	return cur{}.enc(r.r.Marshal(now, 31*24*time.Hour))
}

// blobs

func (cur) Nrp(n, r, p int) { blobshare.SetNrp(n, r, p) }

func (cur) BlobSeal(pw, data []byte) ([]byte, error) {
	k, salt, err := blobshare.NewKey(pw)
	if err != nil {
		return nil, err
	}
	e, nonce, err := blobshare.Encrypt(data, k)
	if err != nil {
		return nil, err
	}
	return blobshare.PackSaltNonce(salt, nonce, e), nil
}

func (cur) BlobOpen(pw, b []byte) ([]byte, error) {
	salt, nonce, data, err := blobshare.UnpackSaltNonce(b)
	if err != nil {
		return nil, err
	}
	k, err := blobshare.DeriveKey(append([]byte{}, pw...), salt)
	if err != nil {
		return nil, err
	}
	return blobshare.Decrypt(k, nonce, data)
}

func (cur) NonceSeal(k *[32]byte, data []byte) ([]byte, error) {
	e, nonce, err := blobshare.Encrypt(data, k)
	if err != nil {
		return nil, err
	}
	return blobshare.PackNonce(nonce, e), nil
}

func (cur) NonceOpen(k *[32]byte, b []byte) ([]byte, error) {
	nonce, data, err := blobshare.UnpackNonce(b)
	if err != nil {
		return nil, err
	}
	return blobshare.Decrypt(k, nonce, data)
}

// ini databases

func (cur) IniWrite(f string, m map[string]map[string]string) error {
	db, err := inidb.New(f, true, 5)
	if err != nil && err != inidb.ErrCreated {
		return err
	}
	for t, rs := range m {
		if t != "" {
			db.NewTable(t)
		}
		for k, v := range rs {
			if err := db.Set(t, k, v); err != nil {
				return err
			}
		}
	}
	return db.Save()
}

func (cur) IniRead(f string) (map[string]map[string]string, error) {
	db, err := inidb.New(f, false, 5)
	if err != nil {
		return nil, err
	}
	m := map[string]map[string]string{"": {}}
	for k, v := range db.Records("") {
		m[""][k] = v
	}
	for _, t := range db.Tables() {
		m[t] = map[string]string{}
		for k, v := range db.Records(t) {
			m[t][k] = v
		}
	}
	return m, nil
}

// accounts

type curAccounts struct{ a *account.Account }

func (cur) Accounts(root string) iaccounts {
	a, err := account.New(root)
	must(err)
	return curAccounts{a}
}

func (a curAccounts) Create(pub []byte) error { return a.a.Create(*cur{}.pub(pub), false) }
func (a curAccounts) Deliver(to, from [32]byte, p []byte, clear bool) error {
	_, err := a.a.Deliver(to, from, p, clear)
	return err
}
func (a curAccounts) List(id [32]byte) error { return a.a.Push(id) }
func (a curAccounts) Find(nick string) []byte {
	p, err := a.a.Find(nick)
	if err != nil {
		return nil
	}
	b, err := p.Marshal()
	must(err)
	return b
}
func (a curAccounts) State(id [32]byte) string {
	return fmt.Sprint(a.a.Enabled(id), a.a.Disabled(id))
}
func (a curAccounts) Disable(id [32]byte) error { return a.a.Disable(id) }
func (a curAccounts) Enable(id [32]byte) error  { return a.a.Enable(id) }

// Drain takes n messages from the mailbox.
func (a curAccounts) Drain(id [32]byte, n int) (got []imail, err error) {
	ch := make(chan *account.Notification)
	if err := a.a.Online(id, ch); err != nil {
		return nil, err
	}
	for len(got) < n {
		select {
		case x := <-ch:
			if x.Error != nil {
				return got, x.Error
			}
			got = append(got, imail{x.From, x.Payload, x.Cleartext, x.Received})
			if err := a.a.Delete(id, x.Identifier); err != nil {
				return got, err
			}
		case <-time.After(20 * time.Second):
			return got, fmt.Errorf("only %d of %d messages came", len(got), n)
		}
	}
	select {
	case x := <-ch:
		err = fmt.Errorf("another message: %q", trim(string(x.Payload), 60))
	case <-time.After(20 * time.Millisecond):
	}
	a.a.Offline(id)
	return got, err
}

// structures

func (cur) Structs() map[string]any {
	return map[string]any{
		"Message": &rpc.Message{}, "Acknowledge": &rpc.Acknowledge{}, "Unwelcome": &rpc.Unwelcome{}, "Welcome": &rpc.Welcome{},
		"ServerProperty": &rpc.ServerProperty{}, "CreateAccount": &rpc.CreateAccount{}, "CreateAccountReply": &rpc.CreateAccountReply{},
		"Push": &rpc.Push{}, "Cache": &rpc.Cache{}, "Proxy": &rpc.Proxy{}, "ProxyReply": &rpc.ProxyReply{}, "ProxyCmd": &rpc.ProxyCmd{},
		"Ping": &rpc.Ping{}, "Pong": &rpc.Pong{}, "Rendezvous": &rpc.Rendezvous{}, "RendezvousReply": &rpc.RendezvousReply{},
		"RendezvousPull": &rpc.RendezvousPull{}, "RendezvousPullReply": &rpc.RendezvousPullReply{},
		"IdentityFind": &rpc.IdentityFind{}, "IdentityFindReply": &rpc.IdentityFindReply{}, "IdentityKX": &rpc.IdentityKX{}, "KX": &rpc.KX{},
		"CRPC": &rpc.CRPC{}, "PrivateMessage": &rpc.PrivateMessage{}, "JanitorMessage": &rpc.JanitorMessage{}, "GroupInvite": &rpc.GroupInvite{},
		"GroupJoin": &rpc.GroupJoin{}, "GroupPart": &rpc.GroupPart{}, "GroupKill": &rpc.GroupKill{}, "GroupKick": &rpc.GroupKick{},
		"GroupUpdate": &rpc.GroupUpdate{}, "GroupList": &rpc.GroupList{}, "GroupMessage": &rpc.GroupMessage{}, "ChunkNew": &rpc.ChunkNew{}, "Chunk": &rpc.Chunk{},
		"PublicIdentity": &zkidentity.PublicIdentity{}, "FullIdentity": &zkidentity.FullIdentity{}, "RatchetState": &disk.RatchetState{},
	}
}

func (cur) Constants() map[string]any {
	return map[string]any{
		"ProtocolVersion": rpc.ProtocolVersion,
		"identify":        rpc.InitialCmdIdentify, "createaccount": rpc.InitialCmdCreateAccount, "session": rpc.InitialCmdSession,
		"welcome": rpc.SessionCmdWelcome, "unwelcome": rpc.SessionCmdUnwelcome,
		"rendezvous": rpc.TaggedCmdRendezvous, "rendezvousreply": rpc.TaggedCmdRendezvousReply,
		"rendezvouspull": rpc.TaggedCmdRendezvousPull, "rendezvouspullreply": rpc.TaggedCmdRendezvousPullReply,
		"cache": rpc.TaggedCmdCache, "push": rpc.TaggedCmdPush, "ack": rpc.TaggedCmdAcknowledge, "proxy": rpc.TaggedCmdProxy,
		"proxyreply": rpc.TaggedCmdProxyReply, "ping": rpc.TaggedCmdPing, "pong": rpc.TaggedCmdPong,
		"identityfind": rpc.TaggedCmdIdentityFind, "identityfindreply": rpc.TaggedCmdIdentityFindReply,
		"normal": uint32(rpc.MessageModeNormal), "me": uint32(rpc.MessageModeMe),
		"disabled": rpc.ErrorCodeUserDisabled, "invalid": rpc.ErrorCodeInvalid,
		"tagdepth": rpc.PropTagDepth, "motd": rpc.PropMOTD, "attach": rpc.PropMaxAttachmentSize, "chunksize": rpc.PropMaxChunkSize,
		"msgsize": rpc.PropMaxMsgSize, "servertime": rpc.PropServerTime, "directory": rpc.PropDirectory,
		"reset": rpc.ProxyCmdResetRatchet, "proxyinvalid": rpc.ProxyCmdInvalid,
		"privmsg": rpc.CRPCCmdPrivateMessage, "groupinvite": rpc.CRPCCmdGroupInvite, "groupjoin": rpc.CRPCCmdGroupJoin,
		"grouppart": rpc.CRPCCmdGroupPart, "groupkill": rpc.CRPCCmdGroupKill, "groupkick": rpc.CRPCCmdGroupKick,
		"groupupdate": rpc.CRPCCmdGroupUpdate, "grouplist": rpc.CRPCCmdGroupList, "groupmessage": rpc.CRPCCmdGroupMessage,
		"chunknew": rpc.CRPCCmdChunkNew, "chunk": rpc.CRPCCmdChunk, "janitor": rpc.CRPCCmdJanitorMessage,
		"none": rpc.CRPCCompNone, "zlib": rpc.CRPCCompZLIB, "deleted": rpc.CRPCJanitorDeleted,
	}
}
