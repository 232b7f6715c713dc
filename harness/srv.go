package main

import (
	"bytes"
	"crypto/rand"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Srv is a real zkserver process with a scratch root.
type Srv struct {
	r      *Report
	Root   string
	Addr   string
	cfg    string
	Opts   map[string]string
	mu     sync.Mutex
	cmd    *exec.Cmd
	done   chan struct{}
	expect bool // the exit is expected
	stderr string
	starts int
	env    []string
	wrap   []string // command the server runs under
	bin    string   // program, if it is not the one under test
}

// slowDisk makes every opening, renaming, linking and removing of a file by
// the server take d longer, so that an answer that does not wait for the disk
// is far ahead of it.
func (s *Srv) slowDisk(d time.Duration) {
	s.wrap = []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat,renameat,renameat2,rename,linkat,unlinkat",
		"-e", fmt.Sprintf("inject=openat,renameat,renameat2,rename,linkat,unlinkat:delay_enter=%d", d.Microseconds())}
}

// freePort finds a port below those that outgoing connections use, so that
// nothing takes it while the server is down.
func freePort() int {
	for i := 0; ; i++ {
		var b [2]byte
		rand.Read(b[:])
		port := 12000 + (int(b[0])<<8|int(b[1]))%20000
		if i > 1000 {
			port = 0
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			continue
		}
		defer l.Close()
		return l.Addr().(*net.TCPAddr).Port
	}
}

func newSrv(r *Report, opts map[string]string) *Srv {
	root := tempDir("srv")
	must(os.Chmod(root, 0700))
	s := &Srv{r: r, Root: filepath.Join(root, "root"), Addr: fmt.Sprintf("127.0.0.1:%d", freePort()), Opts: map[string]string{
		"allowidentify": "yes", "createpolicy": "yes", "directory": "no"}}
	for k, v := range opts {
		s.Opts[k] = v
	}
	s.cfg = filepath.Join(root, "zkserver.conf")
	s.writeCfg()
	onCleanup(func() { s.Stop() })
	return s
}

func (s *Srv) writeCfg() {
	var b strings.Builder
	fmt.Fprintf(&b, "root = %s\nusers = %s/home\nlisten = %s\nmotd = %s/motd.txt\n", s.Root, s.Root, s.Addr, s.Root)
	log := "\n[log]\nlogfile = " + s.Root + "/zkserver.log\n"
	for k, v := range s.Opts {
		if v == "\x00" {
			continue
		}
		switch k {
		case "debug", "trace", "profiler", "timeformat":
			log += fmt.Sprintf("%s = %s\n", k, v)
		default:
			fmt.Fprintf(&b, "%s = %s\n", k, v)
		}
	}
	must(os.WriteFile(s.cfg, []byte(b.String()+log), 0600))
}

// Start starts the server and waits until it listens.
func (s *Srv) Start() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cmd != nil {
		return errors.New("already started")
	}
	s.writeCfg()
	s.starts++
	s.stderr = filepath.Join(filepath.Dir(s.cfg), fmt.Sprintf("stderr.%d", s.starts))
	f, err := os.Create(s.stderr)
	must(err)
	argv := append(append([]string{}, s.wrap...), binPath(or(s.bin, "zkserver")), "-cfg", s.cfg)
	c := exec.Command(argv[0], argv[1:]...)
	c.Stdout, c.Stderr = f, f
	c.Dir = filepath.Dir(s.cfg)
	c.Env = append(os.Environ(), "HOME="+filepath.Dir(s.cfg))
	c.Env = append(c.Env, s.env...)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := c.Start(); err != nil {
		f.Close()
		return err
	}
	f.Close()
	done := make(chan struct{})
	s.cmd, s.done, s.expect = c, done, false
	starts := s.starts
	go func() {
		c.Wait()
		s.mu.Lock()
		unexpected := !s.expect && s.starts == starts
		if s.cmd == c {
			s.cmd = nil
		}
		s.mu.Unlock()
		if unexpected {
			s.r.Violate("server-died", s.deathNote(c), nil)
		}
		close(done)
	}()
	end := time.Now().Add(60 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", s.Addr, time.Second)
		if err == nil {
			c.Close()
			return nil
		}
		select {
		case <-done:
			return errors.New("server exited: " + s.tail())
		default:
		}
		if time.Now().After(end) {
			return errors.New("server does not listen: " + s.tail())
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (s *Srv) deathNote(c *exec.Cmd) string {
	return fmt.Sprintf("the server process ended by itself (%v):\n%s", c.ProcessState, s.tail())
}

func (s *Srv) tail() string {
	b, _ := os.ReadFile(s.stderr)
	t := string(b)
	if i := strings.Index(t, "panic:"); i >= 0 {
		t = t[i:]
	} else if i := strings.Index(t, "fatal error:"); i >= 0 {
		t = t[i:]
	}
	if len(t) > 3000 {
		t = t[:3000]
	}
	return t
}

func (s *Srv) MustStart() {
	if err := s.Start(); err != nil {
		panic("cannot start server: " + err.Error())
	}
}

func (s *Srv) signal(sig syscall.Signal) {
	s.mu.Lock()
	c, done := s.cmd, s.done
	s.expect = true
	s.mu.Unlock()
	if c == nil {
		return
	}
	if s.wrap != nil {
		syscall.Kill(-c.Process.Pid, sig)
	} else {
		c.Process.Signal(sig)
	}
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		c.Process.Kill()
		<-done
	}
	if s.wrap != nil {
		// the server ends after its wrapper
		for i := 0; i < 1000; i++ {
			c, err := net.DialTimeout("tcp", s.Addr, time.Second)
			if err != nil {
				break
			}
			c.Close()
			time.Sleep(10 * time.Millisecond)
		}
	}
}

func (s *Srv) Stop() { s.signal(syscall.SIGTERM) }
func (s *Srv) Kill() { s.signal(syscall.SIGKILL) }

func (s *Srv) Alive() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.cmd != nil
}

func (s *Srv) Log() string {
	b, _ := os.ReadFile(filepath.Join(s.Root, "zkserver.log"))
	return string(b)
}

// Admin sends a command to the administration socket; the returned error
// string is the server's.
func (s *Srv) Admin(cmd, identity string) (string, error) {
	c, err := net.DialTimeout("unix", filepath.Join(s.Root, ".socket"), 10*time.Second)
	if err != nil {
		return "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	e := json.NewEncoder(c)
	if err := e.Encode(map[string]any{"version": 1, "command": cmd}); err != nil {
		return "", err
	}
	if err := e.Encode(map[string]any{"identity": identity}); err != nil {
		return "", err
	}
	var rep struct {
		Error string `json:"error"`
	}
	if err := json.NewDecoder(c).Decode(&rep); err != nil {
		return "", err
	}
	return rep.Error, nil
}

func (s *Srv) Disable(id [32]byte) (string, error) {
	return s.Admin("userdisable", hex.EncodeToString(id[:]))
}
func (s *Srv) Enable(id [32]byte) (string, error) {
	return s.Admin("userenable", hex.EncodeToString(id[:]))
}

var tlsConfig = &tls.Config{
	InsecureSkipVerify: true,
	MinVersion:         tls.VersionTLS12, MaxVersion: tls.VersionTLS12,
	CipherSuites: []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384},
}

func (s *Srv) dial() (net.Conn, error) {
	c, err := tls.DialWithDialer(&net.Dialer{Timeout: 20 * time.Second}, "tcp", s.Addr, tlsConfig)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Identify asks for the server's public identity.
func (s *Srv) Identify() (*zkidentity.PublicIdentity, error) {
	c, err := s.dial()
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := xdr.Marshal(c, rpc.InitialCmdIdentify); err != nil {
		return nil, err
	}
	var p zkidentity.PublicIdentity
	if _, err := xdr.Unmarshal(c, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

// PubID reads the server's identity from its disk.
func (s *Srv) PubID() *zkidentity.PublicIdentity {
	es, _ := os.ReadDir(s.Root)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(s.Root, e.Name()))
		if err != nil {
			continue
		}
		var f zkidentity.FullIdentity
		if _, err := xdr.UnmarshalLimited(bytes.NewReader(b), &f, uint(len(b))); err == nil && f.Public.Verify() {
			return &f.Public
		}
	}
	panic("server identity not found")
}

// Create asks for an account; nil means created.
func (s *Srv) Create(pid zkidentity.PublicIdentity, token string) error {
	c, err := s.dial()
	if err != nil {
		return err
	}
	defer c.Close()
	return createOn(c, pid, token)
}

// CreateAtOnce makes n requests on connections of their own whose last bytes
// are sent at the same moment.
func (s *Srv) CreateAtOnce(n int, req func(i int) (zkidentity.PublicIdentity, string)) []error {
	errs := make([]error, n)
	var ready, done sync.WaitGroup
	fire := make(chan struct{})
	ready.Add(n)
	done.Add(n)
	for i := 0; i < n; i++ {
		go func(i int) {
			defer done.Done()
			pid, token := req(i)
			var b bytes.Buffer
			xdr.Marshal(&b, rpc.InitialCmdCreateAccount)
			xdr.Marshal(&b, rpc.CreateAccount{Token: token, PublicIdentity: pid})
			c, err := s.dial()
			if err == nil {
				defer c.Close()
				c.SetDeadline(time.Now().Add(60 * time.Second))
				_, err = c.Write(b.Bytes()[:b.Len()-4])
			}
			ready.Done()
			<-fire
			if err == nil {
				_, err = c.Write(b.Bytes()[b.Len()-4:])
			}
			var rep rpc.CreateAccountReply
			if err == nil {
				_, err = xdr.Unmarshal(c, &rep)
			}
			if err == nil && rep.Error != "" {
				err = fmt.Errorf("%w: %s", errRefused, rep.Error)
			}
			errs[i] = err
		}(i)
	}
	ready.Wait()
	time.Sleep(20 * time.Millisecond) // let the server read what was sent
	close(fire)
	done.Wait()
	return errs
}

var errRefused = errors.New("refused")

func createOn(c net.Conn, pid zkidentity.PublicIdentity, token string) error {
	c.SetDeadline(time.Now().Add(60 * time.Second))
	defer c.SetDeadline(time.Time{})
	if _, err := xdr.Marshal(c, rpc.InitialCmdCreateAccount); err != nil {
		return err
	}
	if _, err := xdr.Marshal(c, rpc.CreateAccount{Token: token, PublicIdentity: pid}); err != nil {
		return err
	}
	var rep rpc.CreateAccountReply
	if _, err := xdr.Unmarshal(c, &rep); err != nil {
		return fmt.Errorf("no reply: %v", err)
	}
	if rep.Error != "" {
		return fmt.Errorf("%w: %s", errRefused, rep.Error)
	}
	return nil
}

// account directory oracle
func (s *Srv) hasAccount(id [32]byte) bool {
	_, err := os.Stat(filepath.Join(s.Root, "home", hex.EncodeToString(id[:])))
	return err == nil
}
func (s *Srv) hasDisabled(id [32]byte) bool {
	_, err := os.Stat(filepath.Join(s.Root, "home", "."+hex.EncodeToString(id[:])))
	return err == nil
}

// ---- bots

type rep struct {
	cmd     string
	msg     rpc.Message
	payload []byte
}

type push struct {
	rpc.Push
	Tag       uint32
	Cleartext bool
	At        time.Time
}

// Bot speaks the client side of the protocol.
type Bot struct {
	ID      *zkidentity.FullIdentity
	srv     *Srv
	conn    net.Conn
	kx      *session.KX
	Welcome rpc.Welcome
	onPush  func(p push) bool // true: acknowledge

	mu      sync.Mutex
	wmu     sync.Mutex
	wait    map[uint32]chan rep
	free    chan uint32
	err     error
	closed  chan struct{}
	strange []string
	lastRx  time.Time
	muted   chan struct{}
}

// mute stops reading from the connection until unmute.
func (b *Bot) mute() {
	b.mu.Lock()
	if b.muted == nil {
		b.muted = make(chan struct{})
	}
	b.mu.Unlock()
}

func (b *Bot) unmute() {
	b.mu.Lock()
	if b.muted != nil {
		close(b.muted)
		b.muted = nil
	}
	b.mu.Unlock()
}

var (
	errUnwelcome = errors.New("unwelcome")
	initOnce     sync.Once
)

// Login performs the session handshake and reads the welcome.
func (s *Srv) Login(id *zkidentity.FullIdentity, onPush func(p push) bool) (*Bot, error) {
	c, err := s.dial()
	if err != nil {
		return nil, err
	}
	b, err := s.loginOn(c, id, onPush)
	if err != nil {
		c.Close()
		return nil, err
	}
	return b, nil
}

func (s *Srv) kxOn(c net.Conn, id *zkidentity.FullIdentity) (*session.KX, error) {
	initOnce.Do(session.Init)
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := xdr.Marshal(c, rpc.InitialCmdSession); err != nil {
		return nil, err
	}
	kx := &session.KX{Conn: c, MaxMessageSize: 64 * 1024 * 1024,
		OurPublicKey: &id.Public.Key, OurPrivateKey: &id.PrivateKey}
	srvID := s.PubID()
	kx.TheirPublicKey = &srvID.Key
	if err := kx.Initiate(); err != nil {
		return nil, fmt.Errorf("initiate: %w", err)
	}
	return kx, nil
}

func (s *Srv) loginOn(c net.Conn, id *zkidentity.FullIdentity, onPush func(p push) bool) (*Bot, error) {
	kx, err := s.kxOn(c, id)
	if err != nil {
		return nil, err
	}
	m, err := kx.Read()
	if err != nil {
		return nil, fmt.Errorf("reading welcome: %w", err)
	}
	br := bytes.NewReader(m)
	var msg rpc.Message
	if _, err := xdr.Unmarshal(br, &msg); err != nil {
		return nil, err
	}
	b := &Bot{ID: id, srv: s, conn: c, kx: kx, onPush: onPush, wait: map[uint32]chan rep{},
		free: make(chan uint32, 32), closed: make(chan struct{})}
	switch msg.Command {
	case rpc.SessionCmdWelcome:
		if _, err := xdr.Unmarshal(br, &b.Welcome); err != nil {
			return nil, err
		}
	case rpc.SessionCmdUnwelcome:
		var u rpc.Unwelcome
		xdr.Unmarshal(br, &u)
		return nil, fmt.Errorf("%w: %s", errUnwelcome, u.Reason)
	default:
		return nil, fmt.Errorf("unexpected first message %q", msg.Command)
	}
	for i := uint32(0); i < 32; i++ {
		b.free <- i
	}
	c.SetDeadline(time.Time{})
	b.lastRx = time.Now()
	go b.reader()
	go b.pinger()
	return b, nil
}

func (b *Bot) fail(err error) {
	b.mu.Lock()
	if b.err == nil {
		b.err = err
		close(b.closed)
	}
	b.mu.Unlock()
	b.conn.Close()
}

func (b *Bot) Close() { b.fail(errors.New("closed by bot")) }

// Abort drops the connection without any goodbye.
func (b *Bot) Abort() {
	if t, ok := b.conn.(*tls.Conn); ok {
		if tc, ok := t.NetConn().(*net.TCPConn); ok {
			tc.SetLinger(0)
			tc.Close()
		}
	}
	b.fail(errors.New("aborted by bot"))
}

func (b *Bot) isClosed() bool {
	select {
	case <-b.closed:
		return true
	default:
		return false
	}
}

func (b *Bot) odd(f string, a ...any) {
	b.mu.Lock()
	b.strange = append(b.strange, fmt.Sprintf(f, a...))
	b.mu.Unlock()
}

func (b *Bot) reader() {
	for {
		b.mu.Lock()
		mu := b.muted
		b.mu.Unlock()
		if mu != nil {
			<-mu
		}
		b.kx.SetReadDeadline(time.Now().Add(120 * time.Second))
		m, err := b.kx.Read()
		if err != nil {
			b.fail(err)
			return
		}
		br := bytes.NewReader(m)
		var msg rpc.Message
		if _, err := xdr.Unmarshal(br, &msg); err != nil {
			b.odd("undecodable message: %v", err)
			b.fail(err)
			return
		}
		b.mu.Lock()
		b.lastRx = time.Now()
		b.mu.Unlock()
		rest, _ := io.ReadAll(br)
		if msg.Command == rpc.TaggedCmdPush {
			var p rpc.Push
			if _, err := xdr.Unmarshal(bytes.NewReader(rest), &p); err != nil {
				b.odd("undecodable push: %v", err)
				continue
			}
			if b.onPush == nil || b.onPush(push{p, msg.Tag, msg.Cleartext, time.Now()}) {
				if err := b.Ack(msg.Tag); err != nil {
					b.fail(err)
					return
				}
			}
			continue
		}
		b.mu.Lock()
		ch, ok := b.wait[msg.Tag]
		delete(b.wait, msg.Tag)
		b.mu.Unlock()
		if !ok {
			b.odd("reply %s with tag %d, which has no request outstanding", msg.Command, msg.Tag)
			continue
		}
		ch <- rep{msg.Command, msg, rest}
	}
}

func (b *Bot) pinger() {
	t := time.NewTicker(4 * time.Second)
	defer t.Stop()
	for {
		select {
		case <-b.closed:
			return
		case <-t.C:
			go b.Ping(60 * time.Second)
		}
	}
}

func encMsg(m rpc.Message, payload any) []byte {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, m)
	must(err)
	if payload != nil {
		if raw, ok := payload.(rawPayload); ok {
			bb.Write(raw)
		} else {
			_, err = xdr.Marshal(&bb, payload)
			must(err)
		}
	}
	return bb.Bytes()
}

type rawPayload []byte

func (b *Bot) send(m rpc.Message, payload any) error {
	d := encMsg(m, payload)
	b.wmu.Lock()
	defer b.wmu.Unlock()
	b.conn.SetWriteDeadline(time.Now().Add(60 * time.Second))
	return b.kx.Write(d)
}

func (b *Bot) Ack(tag uint32) error {
	return b.send(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: tag}, rpc.Acknowledge{})
}

// start sends a request and returns the channel of its reply.
func (b *Bot) start(cmd string, payload any) (chan rep, uint32, error) {
	var tag uint32
	select {
	case tag = <-b.free:
	case <-b.closed:
		return nil, 0, b.err
	case <-time.After(120 * time.Second):
		return nil, 0, errors.New("no free tag")
	}
	ch := make(chan rep, 2)
	b.mu.Lock()
	b.wait[tag] = ch
	b.mu.Unlock()
	if err := b.send(rpc.Message{Command: cmd, Tag: tag, TimeStamp: time.Now().Unix()}, payload); err != nil {
		b.fail(err)
		return nil, 0, err
	}
	return ch, tag, nil
}

func (b *Bot) finish(ch chan rep, tag uint32, d time.Duration) (rep, error) {
	select {
	case r := <-ch:
		b.free <- tag
		return r, nil
	case <-b.closed:
		select {
		case r := <-ch:
			return r, nil
		default:
		}
		return rep{}, fmt.Errorf("connection ended: %w", b.err)
	case <-time.After(d):
		return rep{}, errTimeout
	}
}

var errTimeout = errors.New("no reply in time")

func (b *Bot) request(cmd string, payload any, d time.Duration) (rep, error) {
	ch, tag, err := b.start(cmd, payload)
	if err != nil {
		return rep{}, err
	}
	return b.finish(ch, tag, d)
}

func (b *Bot) Ping(d time.Duration) error {
	r, err := b.request(rpc.TaggedCmdPing, rpc.Ping{}, d)
	if err != nil {
		return err
	}
	if r.cmd != rpc.TaggedCmdPong {
		b.odd("ping answered with %s", r.cmd)
	}
	return nil
}

var errNack = errors.New("refused by server")

func decodeAck(r rep) error {
	if r.cmd != rpc.TaggedCmdAcknowledge {
		return fmt.Errorf("cache answered with %q", r.cmd)
	}
	var a rpc.Acknowledge
	if _, err := xdr.Unmarshal(bytes.NewReader(r.payload), &a); err != nil {
		return err
	}
	if a.Error != "" {
		return fmt.Errorf("%w: %s (code %d)", errNack, a.Error, a.ErrorCode)
	}
	return nil
}

// Cache stores a message for to; nil means the server accepted it.
func (b *Bot) Cache(to [32]byte, payload []byte) error {
	r, err := b.request(rpc.TaggedCmdCache, rpc.Cache{To: to, Payload: payload}, 90*time.Second)
	if err != nil {
		return err
	}
	return decodeAck(r)
}

func (b *Bot) Proxy(to [32]byte, payload []byte) error {
	r, err := b.request(rpc.TaggedCmdProxy, rpc.Proxy{To: to, Payload: payload}, 90*time.Second)
	if err != nil {
		return err
	}
	return decodeProxy(r, to)
}

func decodeProxy(r rep, to [32]byte) error {
	if r.cmd != rpc.TaggedCmdProxyReply {
		return fmt.Errorf("proxy answered with %q", r.cmd)
	}
	var a rpc.ProxyReply
	if _, err := xdr.Unmarshal(bytes.NewReader(r.payload), &a); err != nil {
		return err
	}
	if a.To != to {
		return fmt.Errorf("proxy reply names another recipient")
	}
	if a.Error != "" {
		return fmt.Errorf("%w: %s", errNack, a.Error)
	}
	return nil
}

// LoginLive logs in until a session answers a ping, or the time is up.
func (s *Srv) LoginLive(id *zkidentity.FullIdentity, onPush func(p push) bool, d time.Duration) (*Bot, int, error) {
	end := time.Now().Add(d)
	n := 0
	var last error
	for {
		n++
		b, err := s.Login(id, onPush)
		if err == nil {
			if err = b.Ping(20 * time.Second); err == nil {
				return b, n, nil
			}
			b.Close()
		}
		last = err
		if errors.Is(err, errUnwelcome) || time.Now().After(end) {
			return nil, n, fmt.Errorf("%d logins failed, last: %w", n, last)
		}
		time.Sleep(time.Duration(30+20*min(n, 10)) * time.Millisecond)
	}
}
