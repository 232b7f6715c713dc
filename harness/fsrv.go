package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// FSrv is a server written for the monitors: it speaks the server side of the
// protocol to one real client, hosts the peers of that client, and sends
// whatever a monitor wants, also what no honest server sends.
type FSrv struct {
	r    *Report
	ID   *zkidentity.FullIdentity
	Addr string
	Cert []byte
	ln   net.Listener
	tc   tls.Certificate

	mu       sync.Mutex
	conn     *FConn
	cli      *Cli
	conns    int
	dir      bool
	peers    map[[32]byte]*Peer
	tagDepth int
	chunk    uint64
	attach   uint64
	msgsize  uint64
	motd     string
	props    func([]rpc.ServerProperty) []rpc.ServerProperty
	welcome  func(k *session.KX) bool // replaces the welcome; false: close
	version  int
	first    func(c net.Conn, mode string) bool              // sees every command before the session; false: close
	refuse   bool                                            // close connections at once
	holdAcks bool                                            // do not acknowledge what the client sends
	onCache  func(f *FConn, m rpc.Message, c rpc.Cache) bool // true: handled
	onOther  func(f *FConn, m rpc.Message, body []byte) bool
	blobs    map[string][]byte
	listed   map[string]zkidentity.PublicIdentity
	sent     []rpc.Cache // everything the client had cached, in order
	cond     *sync.Cond
}

// FConn is one session of the client.
type FConn struct {
	s      *FSrv
	kx     *session.KX
	wmu    sync.Mutex
	mu     sync.Mutex
	acks   map[uint32]chan rpc.Acknowledge
	free   chan uint32
	closed chan struct{}
	once   sync.Once
	acked  int
}

func selfCert() (tls.Certificate, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "fake"},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, der
}

func newFSrv(r *Report) *FSrv {
	initOnce.Do(session.Init)
	s := &FSrv{r: r, ID: newID("server"), version: rpc.ProtocolVersion, peers: map[[32]byte]*Peer{}, tagDepth: 10,
		chunk: rpc.PropMaxChunkSizeDefault, attach: rpc.PropMaxAttachmentSizeDefault, msgsize: rpc.PropMaxMsgSizeDefault,
		blobs: map[string][]byte{}, listed: map[string]zkidentity.PublicIdentity{}, dir: true}
	s.cond = sync.NewCond(&s.mu)
	s.tc, s.Cert = selfCert()
	ln, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		c := s.tc
		return &c, nil
	}})
	must(err)
	s.ln = ln
	s.Addr = ln.Addr().String()
	onCleanup(func() { ln.Close() })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

// newClient is a client with an account on this server.
func (s *FSrv) newClient(nick string) *Cli {
	c := newCli(s.r, newID(nick), s.Addr, &s.ID.Public, s.Cert)
	s.mu.Lock()
	s.cli = c
	s.mu.Unlock()
	return c
}

func (s *FSrv) properties() []rpc.ServerProperty {
	p := []rpc.ServerProperty{
		{Key: rpc.PropTagDepth, Value: strconv.Itoa(s.tagDepth), Required: true},
		{Key: rpc.PropMaxAttachmentSize, Value: fmt.Sprint(s.attach), Required: true},
		{Key: rpc.PropMaxChunkSize, Value: fmt.Sprint(s.chunk), Required: true},
		{Key: rpc.PropMaxMsgSize, Value: fmt.Sprint(s.msgsize), Required: true},
		{Key: rpc.PropServerTime, Value: fmt.Sprint(time.Now().Unix()), Required: true},
		{Key: rpc.PropDirectory, Value: strconv.FormatBool(s.dir), Required: true},
	}
	if s.motd != "" {
		p = append(p, rpc.ServerProperty{Key: rpc.PropMOTD, Value: s.motd})
	}
	if s.props != nil {
		p = s.props(p)
	}
	return p
}

func (s *FSrv) serve(c net.Conn) {
	defer c.Close()
	s.mu.Lock()
	refuse := s.refuse
	s.mu.Unlock()
	if refuse {
		return
	}
	c.SetDeadline(time.Now().Add(60 * time.Second))
	var mode string
	for {
		if _, err := xdr.Unmarshal(c, &mode); err != nil {
			return
		}
		s.mu.Lock()
		first := s.first
		s.mu.Unlock()
		if first != nil && !first(c, mode) || first == nil && mode != rpc.InitialCmdSession {
			return
		}
		if mode == rpc.InitialCmdSession {
			break
		}
	}
	kx := &session.KX{Conn: c, MaxMessageSize: 64 << 20, OurPublicKey: &s.ID.Public.Key, OurPrivateKey: &s.ID.PrivateKey}
	if err := kx.Respond(); err != nil {
		return
	}
	s.mu.Lock()
	w, props, depth := s.welcome, s.properties(), s.tagDepth
	s.mu.Unlock()
	if w != nil {
		if !w(kx) {
			return
		}
	} else if err := kx.Write(encMsg(rpc.Message{Command: rpc.SessionCmdWelcome, TimeStamp: time.Now().Unix()},
		rpc.Welcome{Version: s.version, ServerTime: time.Now().Unix(), Properties: props})); err != nil {
		return
	}
	c.SetDeadline(time.Time{})
	f := &FConn{s: s, kx: kx, acks: map[uint32]chan rpc.Acknowledge{}, free: make(chan uint32, depth), closed: make(chan struct{})}
	for i := 0; i < depth; i++ {
		f.free <- uint32(i)
	}
	s.mu.Lock()
	s.conn = f
	s.conns++
	s.cond.Broadcast()
	s.mu.Unlock()
	f.loop()
	f.Close()
	s.mu.Lock()
	if s.conn == f {
		s.conn = nil
	}
	s.mu.Unlock()
}

func (f *FConn) Close() {
	f.once.Do(func() { close(f.closed) })
	f.kx.Close()
}

func (f *FConn) write(b []byte) error {
	f.wmu.Lock()
	defer f.wmu.Unlock()
	f.kx.SetWriteDeadline(time.Now().Add(60 * time.Second))
	return f.kx.Write(b)
}

func (f *FConn) loop() {
	s := f.s
	for {
		raw, err := f.kx.Read()
		if err != nil {
			return
		}
		br := bytes.NewReader(raw)
		var m rpc.Message
		if _, err := xdr.Unmarshal(br, &m); err != nil {
			s.r.Violate("client-malformed", "the client sent a message without a header", nil)
			return
		}
		body := raw[len(raw)-br.Len():]
		s.mu.Lock()
		oo, oc, hold := s.onOther, s.onCache, s.holdAcks
		s.mu.Unlock()
		if oo != nil && oo(f, m, body) {
			continue
		}
		switch m.Command {
		case rpc.TaggedCmdPing:
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdPong, Tag: m.Tag}, rpc.Pong{}))
		case rpc.TaggedCmdAcknowledge:
			var a rpc.Acknowledge
			xdr.Unmarshal(br, &a)
			f.mu.Lock()
			ch := f.acks[m.Tag]
			delete(f.acks, m.Tag)
			f.acked++
			f.mu.Unlock()
			if ch != nil {
				ch <- a
				f.free <- m.Tag
			}
		case rpc.TaggedCmdCache:
			var c rpc.Cache
			if _, err := xdr.Unmarshal(br, &c); err != nil {
				s.r.Violate("client-malformed", "the client sent a malformed cache command", nil)
				return
			}
			if oc != nil && oc(f, m, c) {
				continue
			}
			s.mu.Lock()
			s.sent = append(s.sent, c)
			p := s.peers[c.To]
			s.cond.Broadcast()
			s.mu.Unlock()
			if !hold {
				f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: m.Tag}, rpc.Acknowledge{}))
			}
			if p != nil {
				p.receive(c.Payload)
			}
		case rpc.TaggedCmdRendezvous:
			var x rpc.Rendezvous
			xdr.Unmarshal(br, &x)
			s.mu.Lock()
			tok := fmt.Sprintf("%d", 10000+len(s.blobs))
			s.blobs[tok] = x.Blob
			s.cond.Broadcast()
			s.mu.Unlock()
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdRendezvousReply, Tag: m.Tag}, rpc.RendezvousReply{Token: tok}))
		case rpc.TaggedCmdRendezvousPull:
			var x rpc.RendezvousPull
			xdr.Unmarshal(br, &x)
			s.mu.Lock()
			b, ok := s.blobs[x.Token]
			s.mu.Unlock()
			rp := rpc.RendezvousPullReply{Token: x.Token, Blob: b}
			if !ok {
				rp.Error = "no such token"
			}
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdRendezvousPullReply, Tag: m.Tag}, rp))
		case rpc.TaggedCmdIdentityFind:
			var x rpc.IdentityFind
			xdr.Unmarshal(br, &x)
			s.mu.Lock()
			id, ok := s.listed[x.Nick]
			s.mu.Unlock()
			rp := rpc.IdentityFindReply{Nick: x.Nick, Identity: id}
			if !ok {
				rp.Error = "nick not found"
			}
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdIdentityFindReply, Tag: m.Tag}, rp))
		case rpc.TaggedCmdProxy:
			var x rpc.Proxy
			xdr.Unmarshal(br, &x)
			f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdProxyReply, Tag: m.Tag}, rpc.ProxyReply{To: x.To}))
			s.mu.Lock()
			p := s.peers[x.To]
			s.mu.Unlock()
			if p != nil {
				p.proxied(x.Payload)
			}
		default:
			s.r.Violate("client-unknown-command", fmt.Sprintf("the client sent %q", m.Command), nil)
		}
	}
}

var errNoConn = errors.New("the client is not connected")

// Conn waits for the client to be connected.
func (s *FSrv) Conn(d time.Duration) *FConn {
	end := time.Now().Add(d)
	for {
		s.mu.Lock()
		f, c := s.conn, s.cli
		s.mu.Unlock()
		if f != nil || time.Now().After(end) || c != nil && c.started() && !c.Alive() {
			return f
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Drop ends the current session from the server's side.
func (s *FSrv) Drop() {
	s.mu.Lock()
	f := s.conn
	s.conn = nil
	s.mu.Unlock()
	if f != nil {
		f.Close()
	}
}

// Push delivers a message to the client and waits until it is acknowledged.
func (s *FSrv) Push(from [32]byte, payload []byte) error {
	return s.push(rpc.Push{From: from, Received: time.Now().Unix(), Payload: payload}, false, 20*time.Second)
}

func (s *FSrv) push(p rpc.Push, clear bool, d time.Duration) error {
	f := s.Conn(d)
	if f == nil {
		return errNoConn
	}
	return f.push(p, clear, d)
}

func (f *FConn) push(p rpc.Push, clear bool, d time.Duration) error {
	var tag uint32
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case tag = <-f.free:
	case <-f.closed:
		return errNoConn
	case <-t.C:
		return fmt.Errorf("no tag became free: the client does not acknowledge")
	}
	ch := make(chan rpc.Acknowledge, 1)
	f.mu.Lock()
	f.acks[tag] = ch
	f.mu.Unlock()
	if err := f.write(encMsg(rpc.Message{Command: rpc.TaggedCmdPush, TimeStamp: time.Now().Unix(), Cleartext: clear, Tag: tag}, p)); err != nil {
		return err
	}
	select {
	case <-ch:
		return nil
	case <-f.closed:
		return errNoConn
	case <-t.C:
		return fmt.Errorf("the client does not acknowledge")
	}
}
